// Executes the container contracts against std::set / std::map references.
#include "stdafx.hpp"
#include "sorted_vector.hpp"
#include "interval_vector.hpp"
#include "flat_unordered_set.hpp"
#include "flat_unordered_map.hpp"
#include "bloomish.hpp"
#include "drv.hpp"
using namespace CG3;
using namespace drv;

static uint32_t val(int mode) {
	switch (mode) {
	case 0: return R(12);
	case 1: return 0xFFFFFFFFu - R(12);
	case 2: return R(2) ? R(8) : 0xFFFFFFFFu - R(8);
	case 3: return R(200);
	case 4: return (uint32_t)rng();
	default: return R(4) * 0x40000000u + R(6);
	}
}

static void do_sorted() {
	int mode = R(6);
	sorted_vector<uint32_t> v;
	std::set<uint32_t> s;
	std::string log;
	int n = 1 + R(60);
	for (int i = 0; i < n; ++i) {
		uint32_t x = val(mode);
		++evals;
		switch (R(8)) {
		case 0: case 1: case 2: {
			log += cat(" insert ", x);
			bool n = s.insert(x).second;
			auto r = v.insert(x);
			if (r.second != n || *r.first != x) fail("sorted.insert-result", log);
			break;
		}
		case 3: {
			log += cat(" erase ", x);
			if (v.erase(x) != (s.erase(x) != 0)) fail("sorted.erase-result", log);
			break;
		}
		case 4: {
			std::vector<uint32_t> o;
			int m = R(7);
			for (int k = 0; k < m; ++k) o.push_back(val(mode));
			if (R(2)) std::sort(o.begin(), o.end());
			log += " insert{";
			for (auto y : o) log += cat(y, ",");
			log += "}";
			v.insert(o.begin(), o.end());
			s.insert(o.begin(), o.end());
			break;
		}
		case 5: {
			if (v.empty()) break;
			size_t at = R(v.size());
			log += cat(" erase_at ", at);
			auto k = *std::next(s.begin(), at);
			s.erase(k);
			if (R(2)) v.erase_n(at); else v.erase(v.cbegin() + at);
			break;
		}
		case 6: {
			std::vector<uint32_t> o;
			int m = R(4);
			for (int k = 0; k < m; ++k) o.push_back(val(mode));
			log += " erase{";
			for (auto y : o) { log += cat(y, ","); s.erase(y); }
			log += "}";
			v.erase(o.begin(), o.end());
			break;
		}
		case 7: {
			if (R(4)) break;
			std::vector<uint32_t> o;
			int m = R(9);
			for (int k = 0; k < m; ++k) o.push_back(val(mode));
			log += " assign{";
			for (auto y : o) log += cat(y, ",");
			log += "}";
			v.assign(o.begin() + 0, o.end());
			s.clear();
			s.insert(o.begin(), o.end());
			if (std::is_sorted(o.begin(), o.end()) == false) {
				// vector iterators take the overload that trusts its caller to pass a sorted range
				v.clear();
				v.insert(o.begin(), o.end());
			}
			else {
				v.clear();
				v.insert(o.begin(), o.end());
			}
			break;
		}
		}
		if (v.size() != s.size() || !std::equal(s.begin(), s.end(), v.begin()) || v.empty() != s.empty()) { fail("sorted.content", log); return; }
		if (!s.empty() && (v.front() != *s.begin() || v.back() != *s.rbegin())) fail("sorted.ends", log);
		uint32_t q = val(mode);
		if (v.contains(q) != (s.count(q) != 0) || v.count(q) != s.count(q)) fail("sorted.contains", cat(log, " ? ", q));
		auto f = v.find(q);
		if ((f == v.cend()) != (s.count(q) == 0) || (f != v.cend() && *f != q)) fail("sorted.find", cat(log, " ? ", q));
		const auto& cv = v;
		if (std::distance(v.cbegin(), cv.lower_bound(q)) != std::distance(s.begin(), s.lower_bound(q))) fail("sorted.lower_bound", cat(log, " ? ", q));
		if (std::distance(v.cbegin(), cv.upper_bound(q)) != std::distance(s.begin(), s.upper_bound(q))) fail("sorted.upper_bound", cat(log, " ? ", q));
	}
	++distinct;
	sample(cat("sorted_vector:", log));
}

struct strcomp { bool operator()(const std::string& a, const std::string& b) const { return a.size() < b.size() || (a.size() == b.size() && a < b); } };
static void do_sorted_str() {
	sorted_vector<std::string, strcomp> v;
	std::set<std::string, strcomp> s;
	std::string log;
	for (int i = 0; i < 30; ++i) {
		++evals;
		std::string x(R(3), char('a' + R(3)));
		if (R(3)) { log += " i " + x; if (v.insert(x).second != s.insert(x).second) fail("sorted.comp-insert", log); }
		else { log += " e " + x; if (v.erase(x) != (s.erase(x) != 0)) fail("sorted.comp-erase", log); }
		if (v.size() != s.size() || !std::equal(s.begin(), s.end(), v.begin())) { fail("sorted.comp-content", log); return; }
	}
	++distinct;
}

typedef interval_vector<uint32_t> IVT;
static void ivcheck(const IVT& v, const std::set<uint32_t>& s, int mode, const std::string& log) {
	std::vector<uint32_t> out;
	size_t k = 0;
	for (auto it = v.begin(); it != v.end() && k <= s.size(); ++it, ++k) out.push_back(*it);
	if (out.size() != s.size() || !std::equal(s.begin(), s.end(), out.begin())) { fail("interval.content", log); return; }
	if (v.size() != s.size()) fail("interval.size", cat(log, " size() ", v.size(), " members ", s.size()));
	if (v.empty() != s.empty()) fail("interval.empty", log);
	if (!s.empty() && (v.front() != *s.begin() || v.back() != *s.rbegin())) fail("interval.ends", log);
	for (size_t i = 0; i + 1 < v.elements.size(); ++i)
		if (!((uint64_t)v.elements[i].ub + 1 < v.elements[i + 1].lb)) fail("interval.normal-form", log);
	for (int i = 0; i < 6; ++i) {
		uint32_t q = val(mode);
		if (v.contains(q) != (s.count(q) != 0)) fail("interval.contains", cat(log, " ? ", q));
		auto f = v.find(q);
		if ((f == v.end()) != (s.count(q) == 0) || (f != v.end() && *f != q)) fail("interval.find", cat(log, " ? ", q));
		auto l = v.lower_bound(q);
		auto sl = s.lower_bound(q);
		if ((l == v.end()) != (sl == s.end()) || (sl != s.end() && *l != *sl)) fail("interval.lower_bound", cat(log, " ? ", q));
		// walk on from there
		IVT::const_iterator w;
		w = l;
		for (int m = 0; m < 5 && sl != s.end(); ++m) {
			++w; ++sl;
			if ((w == v.end()) != (sl == s.end()) || (sl != s.end() && *w != *sl)) { fail("interval.iterate", cat(log, " from ", q)); break; }
		}
	}
	// backwards over the whole set
	if (!s.empty()) {
		auto it = v.end();
		auto si = s.rbegin();
		for (size_t m = 0; m < s.size(); ++m, ++si) {
			--it;
			if (it == v.end() || *it != *si) { fail("interval.backwards", log); break; }
		}
	}
}

static void do_interval() {
	int mode = R(6);
	IVT v[2];
	std::set<uint32_t> s[2];
	std::string log;
	int n = 1 + R(50);
	for (int i = 0; i < n; ++i) {
		++evals;
		int w = R(2);
		uint32_t x = val(mode);
		switch (R(6)) {
		case 0: case 1: case 2:
			log += cat(" insert", w, " ", x);
			if (v[w].insert(x) != s[w].insert(x).second) fail("interval.insert-result", log);
			break;
		case 3:
			log += cat(" erase", w, " ", x);
			if (v[w].erase(x) != (s[w].erase(x) != 0)) fail("interval.erase-result", log);
			break;
		case 4: {
			int m = R(8);
			log += cat(" run", w, " ", x, "+", m);
			for (int k = 0; k < m; ++k) {
				bool a = v[w].insert(x + k), b = s[w].insert(x + k).second;
				if (a != b) fail("interval.insert-result", log);
			}
			break;
		}
		case 5: {
			log += " intersect";
			std::set<uint32_t> is;
			std::set_intersection(s[0].begin(), s[0].end(), s[1].begin(), s[1].end(), std::inserter(is, is.begin()));
			IVT r = v[0].intersect(v[1]);
			ivcheck(r, is, mode, log + " (result)");
			if (R(3) == 0) { v[w] = r; s[w] = is; log += cat("->", w); }
			break;
		}
		}
		ivcheck(v[w], s[w], mode, log);
		if (failed.size() > 6) return;
	}
	++distinct;
	sample(cat("interval_vector:", log));
}

static uint32_t hval(int mode) {
	uint32_t x;
	do {
		switch (mode) {
		case 0: x = R(10); break;
		case 1: x = R(12) * 16; break;
		case 2: x = R(40) * 8 + R(2); break;
		case 3: x = (uint32_t)rng(); break;
		default: x = 0xFFFFFFF0u + R(16); break;
		}
	} while (x == std::numeric_limits<uint32_t>::max() || x == std::numeric_limits<uint32_t>::max() - 1);
	return x;
}

template<typename F> static void hash_seq(const char* tag, const F& v, std::set<uint32_t>& s, int mode, const std::string& log) {
	std::set<uint32_t> seen;
	size_t cnt = 0;
	for (auto x : v) { seen.insert(x); if (++cnt > s.size() + 2) break; }
	if (seen != s || cnt != s.size()) fail(cat(tag, ".iterate"), log);
	if (v.size() != s.size() || v.empty() != s.empty()) fail(cat(tag, ".size"), log);
	for (auto x : s) if (!v.contains(x) || !v.count(x) || v.find(x) == v.end() || *v.find(x) != x) { fail(cat(tag, ".lost"), cat(log, " lost ", x)); break; }
	for (int i = 0; i < 4; ++i) {
		uint32_t q = hval(mode);
		if (v.contains(q) != (s.count(q) != 0)) fail(cat(tag, ".contains"), cat(log, " ? ", q));
	}
}

static void do_fset() {
	int mode = R(5);
	flat_unordered_set<uint32_t> v;
	std::set<uint32_t> s;
	std::string log;
	int n = 1 + R(120);
	int era = 1 + R(R(2) ? 6 : 16);
	for (int i = 0; i < n; ++i) {
		++evals;
		uint32_t x = hval(mode);
		int op = R(8 + era);
		if (op < 7) { log += cat(" insert ", x); v.insert(x); s.insert(x); }
		else if (op == 7) {
			if (R(10) == 0) { size_t m = R(3) ? 0 : (16u << R(3)); log += cat(" clear ", m); v.clear(m); s.clear(); }
			else if (R(6) == 0) { size_t m = 16; while (m < s.size() * 4 || R(4) == 0) m *= 2; log += cat(" reserve ", m); v.reserve(m); }
			else if (R(6) == 0) { flat_unordered_set<uint32_t> o; log += " swap"; o.swap(v); v = o; }
			else if (R(3) == 0) {
				std::vector<uint32_t> xs;
				for (int k = R(40); k >= 0; --k) xs.push_back(hval(mode));
				bool as = R(3) == 0;
				log += as ? " assign" : " insert-range";
				for (auto y : xs) log += cat(" ", y);
				if (as) { v.assign(xs.begin(), xs.end()); s.clear(); }
				else v.insert(xs.begin(), xs.end());
				s.insert(xs.begin(), xs.end());
			}
			else if (R(2) == 0) {
				auto it = v.find(x);
				if (it != v.end()) { log += cat(" erase-at ", x); v.erase(it); s.erase(x); }
			}
		}
		else {
			log += cat(" erase ", x);
			if (v.size_ + v.deleted + 1 >= v.capacity() && v.capacity()) cur(cat("flat_unordered_set:", log));
			v.erase(x); s.erase(x);
		}
		if (R(20) == 0) { bool a = v.find(x) != v.end(); if (a != (s.count(x) != 0)) fail("flat_set.find", cat(log, " ? ", x)); }
		hash_seq("flat_set", v, s, mode, log);
		if (failed.size() > 6) return;
	}
	++distinct;
	sample(cat("flat_unordered_set:", log));
}

static void do_fmap() {
	int mode = R(5);
	flat_unordered_map<uint32_t, uint32_t> v;
	std::map<uint32_t, uint32_t> s;
	std::string log;
	int n = 1 + R(120);
	int era = 1 + R(R(2) ? 6 : 16);
	for (int i = 0; i < n; ++i) {
		++evals;
		uint32_t x = hval(mode), y = R(100);
		int op = R(8 + era);
		if (op < 4) { log += cat(" [", x, "]=", y); v[x] = y; s[x] = y; }
		else if (op < 6) { log += cat(" insert ", x, ":", y); v.insert(std::make_pair(x, y)); s.insert({ x, y }); }
		else if (op < 7) { log += cat(" get ", x); if (v[x] != s[x]) fail("flat_map.default", log); }
		else if (op == 7) {
			if (R(10) == 0) { size_t m = R(3) ? 0 : (16u << R(3)); log += cat(" clear ", m); v.clear(m); s.clear(); }
			else if (R(6) == 0) { size_t m = 16; while (m < s.size() * 4 || R(4) == 0) m *= 2; log += cat(" reserve ", m); v.reserve(m); }
			else if (R(3) == 0) {
				std::vector<std::pair<const uint32_t, uint32_t>> xs;
				for (int k = R(40); k >= 0; --k) xs.push_back({ hval(mode), R(100) });
				bool as = R(3) == 0;
				log += as ? " assign" : " insert-range";
				for (auto& y : xs) log += cat(" ", y.first, ":", y.second);
				if (as) { v.assign(xs.begin(), xs.end()); s.clear(); }
				else v.insert(xs.begin(), xs.end());
				s.insert(xs.begin(), xs.end());
			}
			else if (R(2) == 0) {
				auto it = v.find(x);
				if (it != v.end()) { log += cat(" erase-at ", x); v.erase(it); s.erase(x); }
			}
		}
		else {
			log += cat(" erase ", x);
			if (v.size_ + v.deleted + 1 >= v.capacity() && v.capacity()) cur(cat("flat_unordered_map:", log));
			v.erase(x); s.erase(x);
		}
		std::map<uint32_t, uint32_t> seen;
		size_t cnt = 0;
		for (auto& kv : v) { seen.insert({ kv.first, kv.second }); if (++cnt > s.size() + 2) break; }
		if (seen != s || cnt != s.size()) fail("flat_map.iterate", log);
		if (v.size() != s.size() || v.empty() != s.empty()) fail("flat_map.size", log);
		const auto& cv = v;
		if (R(20) == 0) { bool a = v.find(x) != v.end(); if (a != (s.count(x) != 0)) fail("flat_map.find", cat(log, " ? ", x)); }
		for (auto& kv : s) { auto f = cv.find(kv.first); if (f == v.end() || f->first != kv.first || f->second != kv.second || !v.contains(kv.first)) { fail("flat_map.lost", cat(log, " lost ", kv.first)); break; } }
		for (int k = 0; k < 4; ++k) { uint32_t q = hval(mode); if (v.contains(q) != (s.count(q) != 0) || (cv.find(q) == v.end()) != (s.count(q) == 0)) fail("flat_map.contains", cat(log, " ? ", q)); }
		if (failed.size() > 6) return;
	}
	++distinct;
}

static void do_bloom() {
	bloomish<uint32_t> b;
	std::set<uint32_t> s;
	std::string log;
	for (int i = 0; i < 60; ++i) {
		++evals;
		uint32_t x = R(2) ? (uint32_t)rng() : R(3000);
		if (R(30) == 0) { b.clear(); s.clear(); log += " clear"; }
		b.insert(x); s.insert(x);
		log += cat(" ", x);
		for (auto y : s) if (!b.matches(y)) { fail("bloom.false-negative", cat(log, " ? ", y)); return; }
	}
	++distinct;
}

int main(int argc, char** argv) {
	init(argc, argv);
	std::string which = argc > 3 ? argv[3] : "all";
	while (now() < secs && failed.size() < 8) {
		if (which == "sorted" || which == "all") { do_sorted(); do_sorted_str(); }
		if (which == "interval" || which == "all") do_interval();
		if (which == "hash" || which == "all") { do_fset(); do_fmap(); }
		if (which == "bloom" || which == "all") do_bloom();
	}
	return finish();
}
