#include "stdafx.hpp"
#include "sorted_vector.hpp"
#include "interval_vector.hpp"
#include "flat_unordered_set.hpp"
#include "flat_unordered_map.hpp"
#include "bloomish.hpp"
using namespace CG3;
template class CG3::sorted_vector<uint32_t>;
template class CG3::interval_vector<uint32_t>;
template class CG3::flat_unordered_set<uint32_t>;
template class CG3::bloomish<uint32_t>;
template class CG3::flat_unordered_map<uint32_t, uint32_t>;
extern "C" { extern const size_t OFF_interval_vector_size; const size_t OFF_interval_vector_size = __builtin_offsetof(CG3::uint32IntervalVector, _size); }
typedef CG3::flat_unordered_map<uint32_t, uint32_t> FMAP;
#define OFFS(C, T, F) extern "C" { extern const size_t OFF_##C##_##F; const size_t OFF_##C##_##F = __builtin_offsetof(T, F); }
OFFS(fset, CG3::uint32FlatHashSet, size_) OFFS(fset, CG3::uint32FlatHashSet, deleted) OFFS(fset, CG3::uint32FlatHashSet, elements)
OFFS(fmap, FMAP, size_) OFFS(fmap, FMAP, deleted) OFFS(fmap, FMAP, elements)
