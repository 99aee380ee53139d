// Field offsets, read from the IR by the specs: OFF(Reading, parent) -> @OFF_Reading_parent
#pragma once
#include <cstddef>
#define OFF(C, F) extern "C" { extern const size_t OFF_##C##_##F; const size_t OFF_##C##_##F = __builtin_offsetof(CG3::C, F); extern const size_t FSZ_##C##_##F; const size_t FSZ_##C##_##F = sizeof(((CG3::C*)nullptr)->F); }
#define SZ(C) extern "C" { extern const size_t SZ_##C; const size_t SZ_##C = sizeof(CG3::C); }
#define CST(N) extern "C" { extern const size_t CST_##N; const size_t CST_##N = static_cast<size_t>(CG3::N); }
