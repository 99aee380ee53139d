// Objects of the engine, driven directly: modes clean (recycled objects), num (numeric conditions), rel (relations), tree (dependencies), win (window and cohort lists)
#include "stdafx.hpp"
#include "Grammar.hpp"
#include "GrammarApplicator.hpp"
#include "Window.hpp"
#include "SingleWindow.hpp"
#include "Cohort.hpp"
#include "Reading.hpp"
#include "Tag.hpp"
#include "pool.hpp"
#include "drv.hpp"
namespace CG3 {
uint32_t test_tag_numerical(const Reading& reading, const Tag& tag, const Tag& itag);
extern thread_local pool<Reading> pool_readings;
extern thread_local pool<Cohort> pool_cohorts;
extern thread_local pool<SingleWindow> pool_swindows;
}
using namespace CG3;
using namespace drv;
using std::string;

static Grammar* G;
static GrammarApplicator* A;

// ---- clean
template<typename T> static string vec(const T& v) { string s = "["; for (const auto& x : v) s += cat(" ", x); return s + " ]"; }
static string s16(const UString& u) { string s; for (auto c : u) s += cat(" ", (int)c); return s; }
static string bits(const uint32Bloomish& b) { string s; for (auto x : b.value) s += cat(" ", x); return s; }
static string show(const Reading& r, bool own = true) {
	string s = cat("mapped ", r.mapped, " deleted ", r.deleted, " noprint ", r.noprint, " matched_target ", r.matched_target, " matched_tests ", r.matched_tests, " immutable ", r.immutable, " active ", r.active);
	s += cat(" baseform ", r.baseform, " hash ", r.hash, " hash_plain ", r.hash_plain, " bloom", bits(r.tags_bloom), " plain", bits(r.tags_plain_bloom), " textual", bits(r.tags_textual_bloom));
	s += cat(" mapping ", (void*)r.mapping, " next ", r.next != nullptr, " tags_list", vec(r.tags_list), " tags", vec(r.tags), " tags_plain", vec(r.tags_plain), " tags_textual", vec(r.tags_textual));
	s += " tags_numerical";
	for (auto& x : r.tags_numerical) s += cat(" ", x.first, ":", (void*)x.second);
	s += cat(" tags_string", s16(r.tags_string), " tags_string_hash ", r.tags_string_hash);
	if (own) s += cat(" number ", r.number, " hit_by", vec(r.hit_by), " parent ", (void*)r.parent);
	return s;
}
static string show(const Cohort& c) {
	string s = cat("type ", c.type, " global ", c.global_number, " local ", c.local_number, " wordform ", (void*)c.wordform, " dep_self ", c.dep_self, " dep_parent ", c.dep_parent, " pleft ", c.is_pleft, " pright ", c.is_pright);
	s += cat(" parent ", (void*)c.parent, " text", s16(c.text), " wblank", s16(c.wblank), " prev ", (void*)c.prev, " next ", (void*)c.next, " wread ", (void*)c.wread);
	s += cat(" readings", vec(c.readings), " deleted", vec(c.deleted), " delayed", vec(c.delayed), " ignored", vec(c.ignored), " children", vec(c.dep_children), " possible ", c.possible_sets.count());
	s += " max";
	for (auto& x : c.num_max) s += cat(" ", x.first, ":", x.second);
	s += " min";
	for (auto& x : c.num_min) s += cat(" ", x.first, ":", x.second);
	s += " relations";
	for (auto& x : c.relations) s += cat(" ", x.first, vec(x.second));
	s += " relations_input";
	for (auto& x : c.relations_input) s += cat(" ", x.first, vec(x.second));
	return s + cat(" line ", c.line_number, " enclosed ", c.enclosed);
}
static string show(SingleWindow& w) {
	string s = cat("number ", w.number, " enclosures ", w.has_enclosures, " flush ", w.flush_after, " next ", (void*)w.next, " previous ", (void*)w.previous, " parent ", (void*)w.parent, " text", s16(w.text), " text_post", s16(w.text_post));
	s += cat(" all_cohorts", vec(w.all_cohorts), " cohorts", vec(w.cohorts), " valid_rules", vec(w.valid_rules), " hit_external", vec(w.hit_external));
	for (auto& c : w.rule_to_cohorts) if (!c.empty()) s += " rule_to_cohorts";
	s += cat(" variables_set ", w.variables_set.size(), " rem ", w.variables_rem.size(), " output", vec(w.variables_output));
	return s + " bag: " + show(w.bag_of_tags);
}
static UString text() { UString s; for (size_t n = R(4); n; --n) s += (UChar)('a' + R(26)); return s; }
static uint32_t num() { return R(3) ? (uint32_t)R(9) : (uint32_t)rng(); }
static void dirty(Reading& r, int depth = 0) {
	r.mapped = R(2); r.deleted = R(2); r.noprint = R(2); r.matched_target = R(2); r.matched_tests = R(2); r.immutable = R(2); r.active = R(2);
	r.baseform = num(); r.hash = num(); r.hash_plain = num(); r.number = num(); r.tags_string_hash = num();
	for (int i = R(4); i; --i) { r.tags_bloom.insert(num()); r.tags_plain_bloom.insert(num()); r.tags_textual_bloom.insert(num()); }
	if (R(2)) r.mapping = G->single_tags_list[R(G->single_tags_list.size())];
	for (int i = R(4); i; --i) { r.hit_by.push_back(num()); r.tags_list.push_back(num()); r.tags.insert(num()); r.tags_plain.insert(num()); r.tags_textual.insert(num()); r.tags_numerical[num()] = G->single_tags_list[0]; }
	r.tags_string = text();
	if (depth < 2 && R(3) == 0) { r.next = alloc_reading(r.parent); dirty(*r.next, depth + 1); }
}
static void dirty(Cohort& c) {
	c.type = (uint16_t)num(); c.global_number = 1000000 + R(1000); c.local_number = num(); c.wordform = G->single_tags_list[0]; c.dep_self = num(); c.dep_parent = num(); c.is_pleft = (uint16_t)num(); c.is_pright = (uint16_t)num();
	c.text = text(); c.wblank = text(); c.line_number = num(); c.enclosed = num();
	auto rd = [&]() { auto r = alloc_reading(&c); dirty(*r); return r; };
	if (R(2)) c.wread = rd();
	for (int i = R(3); i; --i) { c.readings.push_back(rd()); c.deleted.push_back(rd()); c.delayed.push_back(rd()); c.ignored.push_back(rd()); }
	for (int i = R(4); i; --i) { c.num_max[num()] = 1; c.num_min[num()] = 2; c.dep_children.insert(num()); c.relations[num()].insert(num()); c.relations_input[num()].insert(num()); }
	c.possible_sets.resize(1 + R(70)); c.possible_sets.set();
}
static void do_clean() {
	++evals; ++distinct;
	auto w = A->gWindow->allocAppendSingleWindow();
	auto c = alloc_cohort(w);
	{
		auto r = alloc_reading(c); dirty(*r);
		for (auto x = r; x; x = x->next) x->matched_target = x->matched_tests = false; // not copied: no test has looked at the copy
		auto cp = alloc_reading(*r);
		string a = show(*r, false), b = show(*cp, false);
		auto x = r->next, y = cp->next;
		for (; x && y; x = x->next, y = y->next) { a += " sub " + show(*x, false); b += " sub " + show(*y, false); }
		if ((x == nullptr) != (y == nullptr)) b += " (sub-readings differ)";
		if (a != b) fail("clean.copy", "a reading and its copy:\n" + a + "\n" + b);
		free_reading(r);
		free_reading(cp);
	}
	dirty(*c);
	auto p = c;
	w->appendCohort(c);
	w->has_enclosures = R(2); w->flush_after = R(2); w->text = text(); w->text_post = text();
	for (int i = R(4); i; --i) { w->valid_rules.insert(num()); w->hit_external.insert(num()); w->variables_set[1 + R(50)] = 3; w->variables_rem.insert(1 + R(50)); w->variables_output.insert(num()); }
	w->rule_to_cohorts.resize(3); if (R(2)) w->rule_to_cohorts[1].insert(c);
	dirty(w->bag_of_tags);
	auto sw = w;
	std::vector<Reading*> rs(c->readings.begin(), c->readings.end());
	for (auto& n : A->gWindow->next) if (n == w) n = nullptr;
	A->gWindow->next.clear();
	A->gWindow->cohort_map.clear(); A->gWindow->dep_window.clear();
	free_swindow(w);
	auto n = alloc_swindow(nullptr);
	SingleWindow fw(nullptr);
	if (show(*n) != show(fw)) fail("clean.window", "a recycled window and a new one:\n" + show(*n) + "\n" + show(fw));
	auto nc = alloc_cohort(nullptr);
	Cohort fc(nullptr);
	if (show(*nc) != show(fc)) fail("clean.cohort", "a recycled cohort and a new one:\n" + show(*nc) + "\n" + show(fc));
	for (int i = 0; i < 4; ++i) {
		auto nr = alloc_reading();
		Reading fr(nullptr);
		if (show(*nr) != show(fr)) fail("clean.reading", "a recycled reading and a new one:\n" + show(*nr) + "\n" + show(fr));
		delete nr;
	}
	sample(show(*nc));
	delete nc;
	delete n;
}

// ---- num
static double dval() {
	static const double v[] = { 0, 1, -1, 2, 5, 1.5, NUMERIC_MIN, NUMERIC_MAX, NUMERIC_MIN + 1, NUMERIC_MAX - 1 };
	return R(3) ? (double)(int)R(5) - 1 : v[R(10)];
}
// is there a number that satisfies both?
static bool both(int p, double a, int q, double b) {
	auto ok = [](int o, double x, double v) {
		switch (o) {
		case OP_EQUALS: return x == v;
		case OP_LESSTHAN: return x < v;
		case OP_LESSEQUALS: return x <= v;
		case OP_GREATERTHAN: return x > v;
		case OP_GREATEREQUALS: return x >= v;
		default: return x != v;
		}
	};
	if (p == OP_NOTEQUALS && q == OP_NOTEQUALS) return a == b;
	for (double x : { a, b, (a + b) / 2, std::min(a, b) - 1, std::max(a, b) + 1 }) if (ok(p, x, a) && ok(q, x, b)) return true;
	return false;
}
static void do_num() {
	static const int ops[] = { OP_EQUALS, OP_LESSTHAN, OP_LESSEQUALS, OP_GREATERTHAN, OP_GREATEREQUALS, OP_NOTEQUALS };
	SingleWindow w(A->gWindow.get());
	auto c = alloc_cohort(&w);
	std::vector<Tag*> tags;
	std::vector<std::pair<Reading*, Tag*>> have;
	for (int i = 1 + R(4); i; --i) {
		auto r = c->allocateAppendReading();
		for (int j = R(3); j; --j) {
			auto t = new Tag;
			tags.push_back(t);
			t->type = T_NUMERICAL; t->comparison_op = (C_OPS)ops[R(6)]; t->comparison_val = dval(); t->comparison_hash = 7 + R(2); t->hash = 100 + tags.size();
			if (t->comparison_val <= NUMERIC_MIN) t->comparison_val = NUMERIC_MIN;
			r->tags_numerical[t->hash] = t;
		}
	}
	for (int i = 0; i < 20; ++i) {
		if (R(6) == 0 && c->readings.size() > 1) { c->readings.pop_back(); c->type &= ~CT_NUM_CURRENT; }
		if (R(6) == 0) { auto r = c->allocateAppendReading(); auto t = new Tag; tags.push_back(t); t->type = T_NUMERICAL; t->comparison_op = OP_EQUALS; t->comparison_val = dval(); t->comparison_hash = 7 + R(2); t->hash = 100 + tags.size(); r->tags_numerical[t->hash] = t; }
		double lo[2] = { 1e99, 1e99 }, hi[2] = { -1e99, -1e99 };
		for (auto r : c->readings) for (auto& t : r->tags_numerical) { auto k = t.second->comparison_hash - 7; lo[k] = std::min(lo[k], t.second->comparison_val); hi[k] = std::max(hi[k], t.second->comparison_val); }
		for (int k = 0; k < 2; ++k) { if (lo[k] > 1e98) lo[k] = NUMERIC_MIN; if (hi[k] < -1e98) hi[k] = NUMERIC_MAX; }
		string s; for (auto r : c->readings) for (auto& t : r->tags_numerical) s += cat(" <", t.second->comparison_hash, " op", t.second->comparison_op, " ", t.second->comparison_val, ">");
		for (int k = 0; k < 2; ++k) if (c->getMin(7 + k) != lo[k] || c->getMax(7 + k) != hi[k]) fail("num.minmax", cat("cohort", s, ": key ", 7 + k, " is between ", c->getMin(7 + k), " and ", c->getMax(7 + k)));
		Tag t, u;
		t.type = u.type = T_NUMERICAL;
		t.comparison_hash = 7 + R(2); u.comparison_hash = R(5) ? t.comparison_hash : 7 + R(2);
		t.comparison_op = (C_OPS)ops[R(6)]; u.comparison_op = (C_OPS)ops[R(6)];
		t.comparison_val = dval(); u.comparison_val = R(3) ? t.comparison_val : dval();
		u.hash = 55;
		++evals; ++distinct;
		double a = t.comparison_val;
		if (a <= NUMERIC_MIN) a = lo[t.comparison_hash - 7]; else if (a >= NUMERIC_MAX) a = hi[t.comparison_hash - 7];
		auto got = test_tag_numerical(*c->readings.back(), t, u);
		uint32_t want = (t.comparison_hash == u.comparison_hash && both(t.comparison_op, a, u.comparison_op, u.comparison_val)) ? 55 : 0;
		if (got != want) fail("num.match", cat("cohort", s, ": <", t.comparison_hash, " op", t.comparison_op, " ", t.comparison_val, "> against <", u.comparison_hash, " op", u.comparison_op, " ", u.comparison_val, "> gave ", got, ", not ", want));
		sample(cat("cohort", s, ": op", t.comparison_op, " ", t.comparison_val, " op", u.comparison_op, " ", u.comparison_val, " = ", got));
	}
	c->readings.clear();
	c->type = 0;
	delete c;
	for (auto t : tags) delete t;
}

// ---- rel
static void do_rel() {
	SingleWindow w(A->gWindow.get());
	auto c = alloc_cohort(&w);
	auto r = c->allocateAppendReading();
	std::map<uint32_t, std::set<uint32_t>> ref, inp;
	string log;
	for (int i = 0; i < 30; ++i) {
		uint32_t n = 1 + R(3), x = R(4);
		auto eq = [](auto& a, auto& b) {
			for (auto& p : a) { auto it = b.find(p.first); std::set<uint32_t> y(p.second.begin(), p.second.end()), z; if (it != b.end()) z.insert(it->second.begin(), it->second.end()); if (y != z) return false; }
			for (auto& p : b) if (p.second.begin() != p.second.end() && a.find(p.first) == a.end()) return false;
			return true;
		};
		++evals; ++distinct;
		bool got = false, want = false;
		switch (R(4)) {
		case 0: got = c->addRelation(n, x); want = ref[n].insert(x).second; log += cat(" add ", n, ":", x); break;
		case 1: got = c->setRelation(n, x); want = ref[n] != std::set<uint32_t>{ x }; ref[n] = { x }; inp.erase(n); log += cat(" set ", n, ":", x); break;
		case 2: got = c->remRelation(n, x); if (ref.count(n)) { want = ref[n].erase(x); if (inp.count(n)) inp[n].erase(x); } log += cat(" rem ", n, ":", x); break;
		case 3: c->relations_input[n].insert(x); inp[n].insert(x); log += cat(" in ", n, ":", x); break;
		}
		if (got != want) fail("rel.changed", log + cat(" said ", got));
		if (!eq(c->relations, ref)) fail("rel.content", log);
		if (!eq(c->relations_input, inp)) fail("rel.input", log);
		if (R(10) == 0) { r->noprint = true; c->setRelated(); if (!(c->type & CT_RELATED) || r->noprint) fail("rel.shown", log); }
	}
	sample(log);
	c->type &= ~CT_NUM_CURRENT;
	free_cohort(c);
}

// ---- tree
static void do_tree() {
	auto& W = *A->gWindow;
	W.cohort_counter = 0;
	std::vector<Cohort*> c;
	std::vector<size_t> win;
	size_t wins = 1 + (R(3) == 0);
	for (size_t i = 0; i < wins; ++i) {
		auto w = W.allocAppendSingleWindow();
		if (i) { w->previous = W.next[i - 1]; W.next[i - 1]->next = w; }
		for (size_t n = 1 + 2 + R(5); n; --n) {
			auto x = alloc_cohort(w);
			x->global_number = W.cohort_counter++;
			w->appendCohort(x);
			c.push_back(x);
			win.push_back(i);
		}
	}
	const size_t n = c.size();
	// a random forest over the cohorts that are no window starts; 0 hangs from the start
	std::vector<uint32_t> dep(n, DEP_NO_PARENT);
	auto start = [&](size_t i) { return c[i]->local_number == 0; };
	auto above = [&](size_t a, size_t x) { // is a at or above x
		for (size_t i = 0; i <= n; ++i) {
			if (a == x || dep[x] == a) return true;
			if (dep[x] == 0 || dep[x] == DEP_NO_PARENT || dep[x] >= n) return false;
			x = dep[x];
		}
		return false;
	};
	string log;
	for (size_t i = 0; i < n; ++i) {
		if (start(i) || R(5) == 0) continue;
		size_t p = R(n);
		if (p == i || above(i, p)) continue;
		dep[i] = p;
		if (R(12) == 0) { dep[i] = 900 + R(5); c[i]->dep_parent = dep[i]; continue; } // its parent is not there (any more)
		c[i]->dep_parent = dep[i];
		c[p]->addChild(i);
	}
	for (size_t i = 0; i < n; ++i) log += cat(start(i) ? " |" : " ", i, "->", (int)dep[i]);
	for (int step = 0; step < 8 && failed.size() < 3; ++step) {
		A->dep_block_loops = R(4) != 0;
		A->dep_block_crossing = R(2);
		A->dep_has_spanned = true;
		bool al = R(5) == 0, ac = R(5) == 0;
		size_t p = R(n), x = R(n);
		if (start(x)) continue;
		++evals;
		// reference
		for (size_t y = 0; y < n; ++y) {
			if (start(y)) continue;
			bool want = above(p, y), got = A->isChildOf(c[y], c[p]);
			if (want != got) fail("dep.child", log + cat(" : is ", y, " below ", p, "? said ", got));
		}
		bool loop = p == x || (dep[x] != p && dep[p] != p && above(x, p));
		bool cross = false;
		size_t mn = std::min(p, x), mx = std::max(p, x);
		auto in = [&](size_t k) { return mn < k && k < mx; };
		auto out = [&](size_t k) { return k < mn || k > mx; };
		for (size_t k = 0; k < n; ++k) if (dep[k] != DEP_NO_PARENT && ((in(k) && out(dep[k])) || (in(dep[k]) && out(k)))) cross = true;
		bool want = !((!al && A->dep_block_loops && loop) || (!ac && A->dep_block_crossing && cross));
		string what = cat(" : attach ", x, " to ", p, A->dep_block_loops ? " noloop" : "", A->dep_block_crossing ? " nocross" : "", al ? " allowloop" : "", ac ? " allowcross" : "");
		bool got = A->attachParentChild(*c[p], *c[x], al, ac);
		log += what;
		if (got != want && !ac && A->dep_block_crossing && !(!al && A->dep_block_loops && loop) && got == !A->wouldParentChildCross(c[p], c[x])) { fail("dep.crossing-test", log + cat(" said ", got)); break; }
		if (got != want) { fail("dep.attach", log + cat(" said ", got)); break; }
		if (got) { dep[x] = p; ++distinct; }
		for (size_t k = 0; k < n; ++k) {
			if (!start(k) && c[k]->dep_parent != dep[k]) fail("dep.parent", log + cat(" : cohort ", k, " hangs from ", c[k]->dep_parent));
			std::set<uint32_t> ch, is(c[k]->dep_children.begin(), c[k]->dep_children.end());
			for (size_t y = 0; y < n; ++y) if (dep[y] == k) ch.insert(y);
			if (start(k)) ch.insert(is.begin(), is.end()); // the start also lists those that hang from no other
			if (ch != is) fail("dep.children", log + cat(" : children of ", k));
		}
		// two cohorts above each other have neither an end nor a beginning: start again
		if (loop && got) break;
	}
	sample(log);
	while (!W.next.empty()) { auto w = W.next.back(); W.next.pop_back(); free_swindow(w); }
	W.cohort_map.clear();
	W.dep_window.clear();
}

// ---- win
static bool links_ok(Window& g, string& why, bool cohorts) {
	std::vector<SingleWindow*> v(g.previous.begin(), g.previous.end());
	if (g.current) v.push_back(g.current);
	v.insert(v.end(), g.next.begin(), g.next.end());
	for (size_t i = 0; i < v.size(); ++i) {
		if (v[i]->previous != (i ? v[i - 1] : nullptr)) { why = cat("window ", i, " of ", v.size(), ": previous"); return false; }
		if (v[i]->next != (i + 1 < v.size() ? v[i + 1] : nullptr)) { why = cat("window ", i, " of ", v.size(), ": next"); return false; }
	}
	std::vector<Cohort*> c;
	for (auto w : v) for (size_t i = 0; i < w->cohorts.size(); ++i) {
		if (w->cohorts[i]->local_number != i || w->cohorts[i]->parent != w) { why = "local number or parent"; return false; }
		c.push_back(w->cohorts[i]);
	}
	for (size_t i = 0; cohorts && i < c.size(); ++i) {
		if (c[i]->prev != (i ? c[i - 1] : nullptr)) { why = cat("cohort ", i, " of ", c.size(), ": prev"); return false; }
		if (c[i]->next != (i + 1 < c.size() ? c[i + 1] : nullptr)) { why = cat("cohort ", i, " of ", c.size(), ": next"); return false; }
	}
	return true;
}
static void do_win() {
	auto& W = *A->gWindow;
	string log, why;
	std::vector<SingleWindow*> order; // what the lists should say
	size_t nprev = 0;
	bool cur = false;
	auto check = [&](const char* what, bool cohorts) {
		++evals;
		std::vector<SingleWindow*> v(W.previous.begin(), W.previous.end());
		if (v.size() != nprev || (W.current != nullptr) != cur) return fail("win.lists", log + cat(" : ", what)), false;
		if (W.current) v.push_back(W.current);
		v.insert(v.end(), W.next.begin(), W.next.end());
		if (v != order) return fail("win.order", log + cat(" : ", what)), false;
		if (!links_ok(W, why, cohorts)) return fail("win.links", log + cat(" : ", what, ": ", why)), false;
		return true;
	};
	for (int step = 3 + R(20); step && failed.size() < 3; --step) {
		size_t k = R(8);
		if (k == 0 && order.size() < 7) {
			auto n = W.window_counter;
			auto w = W.allocAppendSingleWindow();
			order.push_back(w);
			log += " append";
			if (w->number != n + 1 || w->parent != &W || !w->cohorts.empty()) { fail("win.new", log); break; }
			if (W.next.size() == 1) W.rebuildSingleWindowLinks(); // the first of the waiting ones is only tied to the others here
		}
		else if (k == 1 && order.size() < 7) {
			auto w = W.allocPushSingleWindow();
			order.insert(order.begin() + nprev + cur, w);
			log += " push";
			if (!cur && nprev) W.rebuildSingleWindowLinks();
		}
		else if (k == 2 && (cur || order.size() > nprev)) {
			bool more = order.size() > nprev + cur;
			W.shuffleWindowsDown();
			nprev += cur;
			cur = more;
			log += " shuffle";
		}
		else if (k == 3) {
			// links must come back whatever they were
			for (auto w : order) { w->next = R(2) ? w : nullptr; w->previous = order[R(order.size())]; }
			W.rebuildSingleWindowLinks();
			log += " rewindow";
		}
		else if (k == 4) {
			for (auto w : order) for (auto c : w->cohorts) { c->next = R(2) ? c : nullptr; c->prev = w->cohorts[R(w->cohorts.size())]; }
			W.rebuildCohortLinks();
			log += " recohort";
			if (!check("cohorts", true)) break;
			++distinct;
		}
		else if (k == 5 && nprev && R(2)) {
			auto w = order.front();
			free_swindow(w);
			W.previous.erase(W.previous.begin());
			order.erase(order.begin());
			--nprev;
			log += " free";
		}
		else if (!order.empty()) {
			W.rebuildCohortLinks();
			auto w = order[R(order.size())];
			size_t at = w->cohorts.size();
			auto before = w->cohorts;
			if (k == 6 && at) {
				// a cohort leaves the chain: its neighbours become neighbours
				auto c = w->cohorts[R(at)];
				auto p = c->prev, n = c->next;
				c->detach();
				log += " detach";
				if (c->prev || c->next || (p && p->next != n) || (n && n->prev != p)) { fail("win.detach", log); break; }
				continue;
			}
			auto c = alloc_cohort(w);
			c->global_number = W.cohort_counter++;
			w->appendCohort(c);
			before.push_back(c);
			log += cat(" cohort", c->global_number);
			if (w->cohorts != before || c->local_number != at || c->parent != w) { fail("win.append", log); break; }
			if (W.cohort_map[c->global_number] != c && W.cohort_map[c->global_number] != w->cohorts.front()) { fail("win.number", log); break; }
		}
		if (!check("step", false)) break;
	}
	sample(log);
	for (auto w : order) free_swindow(w);
	W.next.clear();
	W.previous.clear();
	W.current = nullptr;
	W.cohort_map.clear();
	W.dep_window.clear();
}
int main(int argc, char** argv) {
	init(argc, argv);
	string m = argc > 3 ? argv[3] : "clean";
	UErrorCode st = U_ZERO_ERROR;
	u_init(&st);
	G = new Grammar;
	G->ux_stderr = &std::cerr;
	G->allocateDummySet();
	for (auto t : { u"a", u"b", u"@x" }) G->allocateTag(t);
	A = new GrammarApplicator(std::cerr);
	A->setGrammar(G);
	while (now() < secs && failed.size() < 3) {
		if (m == "clean") do_clean();
		else if (m == "num") do_num();
		else if (m == "rel") do_rel();
		else if (m == "tree") do_tree();
		else if (m == "win") do_win();
		else return 2;
	}
	return finish();
}
