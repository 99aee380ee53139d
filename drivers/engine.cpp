// Random grammars and streams through the real engine, compared with a reference or with themselves.
// modes: ref (reference interpreter), bin (text grammar = compiled grammar), stream (stream round trips),
//        short (match indexes never change a result), keep (readings are conserved, the last one stays), dep (no dependency loop),
//        pool (recycled objects are like new), rel (named relations)
#include "engine.hpp"
#include "pool.hpp"
#include <unistd.h>
namespace CG3 {
extern thread_local pool<Reading> pool_readings;
extern thread_local pool<Cohort> pool_cohorts;
extern thread_local pool<SingleWindow> pool_swindows;
}
using namespace CG3;
using namespace drv;
using std::string;
using std::vector;

#ifdef WRAP
static bool noshort = false;
#endif

// ---------------------------------------------------------------- vocabulary
static const vector<string> WF = { "<w0>", "<w1>", "<w2>", "<W3>" };
static const vector<string> BF = { "b0", "b1", "B2" };
static const vector<string> TG = { "N", "V", "A", "P", "Q", "K" };

struct Rd {
	string base;
	vector<string> tags;
	vector<Rd> subs;
	int num = -1;
};
struct Co {
	string wf;
	vector<Rd> rd;
};
typedef vector<Co> Win;

static Rd gen_reading(bool subs, bool nums) {
	Rd r;
	r.base = pick(BF);
	int n = 1 + R(3);
	for (int i = 0; i < n; ++i) {
		auto& t = pick(TG);
		if (std::find(r.tags.begin(), r.tags.end(), t) == r.tags.end()) r.tags.push_back(t);
	}
	if (nums && P(0.3)) r.num = R(6);
	if (subs) {
		int k = P(0.25) ? 1 + R(2) : 0;
		for (int i = 0; i < k; ++i) r.subs.push_back(gen_reading(false, nums));
	}
	return r;
}
static string rtext(const Rd& r, const string& ind = "\t") {
	string s = ind + "\"" + r.base + "\"";
	for (auto& t : r.tags) s += " " + t;
	if (r.num >= 0) s += cat(" <W:", r.num, ">");
	s += "\n";
	string in = ind;
	for (auto& x : r.subs) {
		in += "\t";
		s += rtext(x, in);
	}
	return s;
}
static bool same_content(Rd a, Rd b) {
	std::sort(a.tags.begin(), a.tags.end());
	std::sort(b.tags.begin(), b.tags.end());
	return a.base == b.base && a.tags == b.tags && a.num == b.num;
}
static Win gen_window(bool subs, bool nums, int maxc = 6) {
	Win w;
	int n = 1 + R(maxc);
	for (int i = 0; i < n; ++i) {
		Co c;
		c.wf = pick(WF);
		int m = 1 + R(3);
		for (int k = 0; k < m; ++k) {
			Rd r = gen_reading(subs, nums);
			bool dup = false;
			for (auto& o : c.rd) if (same_content(o, r)) dup = true;
			if (!dup) c.rd.push_back(r);
		}
		w.push_back(c);
	}
	Co d;
	d.wf = "<.>";
	Rd r;
	r.base = ".";
	r.tags = { "PU" };
	d.rd = { r };
	w.push_back(d);
	return w;
}
static string wtext(const vector<Win>& ws) {
	string s;
	for (auto& w : ws) for (auto& c : w) {
		s += "\"" + c.wf + "\"\n";
		for (auto& r : c.rd) s += rtext(r);
	}
	return s;
}

// ---------------------------------------------------------------- reference interpreter
struct TagSpec {
	int kind;   // 0 plain, 1 "base", 2 "<wf>", 3 "base"i, 4 "re"r, 5 <W op n>, 6 "<wf>"i, 7 *
	string s;
	int op = 0, n = 0;
	bool neg = false; // ^ failfast
};
struct SetDef {
	string name;
	bool list = false;
	vector<vector<TagSpec>> tags;
	vector<int> sets;
	vector<char> ops;
};
struct Ctx {
	bool neg = false, negate = false, careful = false, absolute = false;
	int off = 0;
	int scan = 0;
	int target = 0, barrier = -1, cbarrier = -1;
	std::shared_ptr<Ctx> link;
};
struct RuleDef {
	int type; // 0 SELECT 1 REMOVE 2 IFF
	int target;
	vector<Ctx> ctx;
};
static vector<SetDef> sets;
static const char* OPN[] = { "<", ">", "=", "<=", ">=", "!=" };

static string tagtext(const TagSpec& t) {
	string p = t.neg ? "^" : "";
	switch (t.kind) {
	case 0: return p + t.s;
	case 1: return p + "\"" + t.s + "\"";
	case 2: return p + "\"" + t.s + "\"";
	case 3: case 6: return p + "\"" + t.s + "\"i";
	case 4: return p + "\"" + t.s + "\"r";
	case 5: return p + cat("<W", OPN[t.op], t.n, ">");
	default: return "*";
	}
}
static string lower(string s) {
	for (auto& c : s) c = tolower(c);
	return s;
}
static bool tagmatch(const TagSpec& t, const Co& c, const Rd& r, bool first, bool last) {
	switch (t.kind) {
	case 0: return std::find(r.tags.begin(), r.tags.end(), t.s) != r.tags.end() || (t.s == ">>>" && first) || (t.s == "<<<" && last);
	case 1: return r.base == t.s;
	case 2: return c.wf == t.s;
	case 3: return lower(r.base) == lower(t.s);
	case 6: return lower(c.wf) == lower(t.s);
	case 4:
		if (t.s == "b.") return r.base.size() == 2 && r.base[0] == 'b';
		if (t.s == "[bB][02]") return r.base.size() == 2 && tolower(r.base[0]) == 'b' && (r.base[1] == '0' || r.base[1] == '2');
		if (t.s == "<w.*>") return c.wf.size() > 2 && c.wf[1] == 'w';
		return false;
	case 5: {
		if (r.num < 0) return false;
		switch (t.op) {
		case 0: return r.num < t.n;
		case 1: return r.num > t.n;
		case 2: return r.num == t.n;
		case 3: return r.num <= t.n;
		case 4: return r.num >= t.n;
		default: return r.num != t.n;
		}
	}
	default: return true;
	}
}
static bool setmatch(int s, const Co& c, const Rd& r, bool first, bool last) {
	auto& S = sets[s];
	if (S.list) {
		for (auto& cmp : S.tags) if (cmp.size() == 1 && cmp[0].neg && tagmatch(cmp[0], c, r, first, last)) return false;
		for (auto& cmp : S.tags) {
			if (cmp.size() == 1 && cmp[0].neg) continue;
			bool all = true;
			for (auto& t : cmp) all = all && tagmatch(t, c, r, first, last);
			if (all) return true;
		}
		return false;
	}
	size_t i = 0;
	for (;;) {
		bool m = setmatch(S.sets[i], c, r, first, last), ff = false;
		while (i + 1 < S.sets.size() && S.ops[i] != '|') {
			bool x = setmatch(S.sets[i + 1], c, r, first, last);
			if (S.ops[i] == '+') m = m && x;
			else if (S.ops[i] == '-') m = m && !x;
			else { if (x) { m = false; ff = true; } }
			++i;
		}
		if (m) return true;
		if (ff) return false;
		if (i + 1 >= S.sets.size()) return false;
		++i;
	}
}
static string settext(const SetDef& s) {
	string o;
	if (s.list) {
		o = "LIST " + s.name + " =";
		for (auto& c : s.tags) {
			if (c.size() == 1) o += " " + tagtext(c[0]);
			else {
				o += " (";
				for (auto& t : c) o += tagtext(t) + " ";
				o += ")";
			}
		}
	}
	else {
		o = "SET " + s.name + " = " + sets[s.sets[0]].name;
		for (size_t i = 0; i < s.ops.size(); ++i) o += string(" ") + (s.ops[i] == '|' ? "OR" : string(1, s.ops[i])) + " " + sets[s.sets[i + 1]].name;
	}
	return o + " ;\n";
}
static TagSpec gen_tag(bool special) {
	TagSpec t;
	t.kind = P(0.55) ? 0 : (special ? 1 + R(6) : 1 + R(2));
	switch (t.kind) {
	case 0: t.s = P(0.06) ? (R(2) ? ">>>" : "<<<") : pick(TG); break;
	case 1: t.s = pick(BF); break;
	case 2: t.s = pick(WF); break;
	case 3: t.s = R(2) ? lower(pick(BF)) : pick(BF); break;
	case 4: t.s = R(3) ? (R(2) ? "b." : "[bB][02]") : "<w.*>"; break;
	case 5: t.op = R(6); t.n = R(6); break;
	case 6: t.s = lower(pick(WF)); break;
	}
	return t;
}
static void gen_sets(bool special, bool ff) {
	sets.clear();
	SetDef any;
	any.name = "(*)";
	any.list = true;
	TagSpec st;
	st.kind = 7;
	any.tags = { { st } };
	sets.push_back(any);
	int nl = 3 + R(4);
	for (int i = 0; i < nl; ++i) {
		SetDef s;
		s.list = true;
		s.name = cat("L", i);
		int n = 1 + R(4);
		for (int k = 0; k < n; ++k) {
			vector<TagSpec> c;
			int m = P(0.6) ? 1 : 2 + R(2);
			for (int j = 0; j < m; ++j) {
				auto t = gen_tag(special);
				bool dup = false;
				for (auto& o : c) if (tagtext(o) == tagtext(t)) dup = true;
				if (!dup) c.push_back(t);
			}
			if (ff && c.size() == 1 && c[0].kind == 0 && P(0.15)) c[0].neg = true;
			s.tags.push_back(c);
		}
		// a list of nothing but ^ tags matches by itself never, but blocks when the parser merges it into another list: not judged
		if (all_of(s.tags.begin(), s.tags.end(), [](auto& c) { return c[0].neg; })) s.tags[0][0].neg = false;
		sets.push_back(s);
	}
	int ns = 2 + R(4);
	for (int i = 0; i < ns; ++i) {
		SetDef s;
		s.name = cat("S", i);
		int n = 2 + R(3);
		for (int k = 0; k < n; ++k) {
			s.sets.push_back(1 + R(sets.size() - 1));
			if (k) {
				double p = (rng() >> 11) * 0x1.0p-53;
				s.ops.push_back(p < 0.35 ? '|' : p < 0.6 ? '+' : p < 0.85 ? '-' : '^');
			}
		}
		sets.push_back(s);
	}
}
static Ctx gen_ctx(int depth) {
	Ctx c;
	c.off = (int)R(7) - 3;
	if (P(0.1)) c.off = 0;
	if (P(0.4)) {
		if (c.off == 0) c.off = R(2) ? 1 : -1;
		c.scan = 1 + R(2);
	}
	if (P(0.06)) {
		c.absolute = true;
		c.off = 1 + R(3);
		if (R(2)) c.off = -c.off;
		if (c.scan) c.scan = 0;
	}
	c.careful = P(0.2);
	c.target = R(12) ? 1 + R(sets.size() - 1) : 0;
	if (c.scan) {
		if (P(0.35)) c.barrier = 1 + R(sets.size() - 1);
		else if (P(0.2)) c.cbarrier = 1 + R(sets.size() - 1);
	}
	if (depth < 2 && P(0.3)) c.link = std::make_shared<Ctx>(gen_ctx(depth + 1));
	if (!c.link && !c.careful && P(0.2)) {
		c.neg = true;
		if (c.scan == 2) c.scan = 1; // NOT with ** is warned about and means nothing
	}
	if (depth == 0 && P(0.12)) c.negate = true;
	return c;
}
static string ctxtext(const Ctx& c) {
	string o;
	if (c.negate) o += "NEGATE ";
	if (c.neg) o += "NOT ";
	if (c.absolute) o += "@";
	o += cat(c.off);
	if (c.scan) o += string(c.scan, '*');
	if (c.careful) o += "C";
	o += " " + sets[c.target].name;
	if (c.barrier >= 0) o += " BARRIER " + sets[c.barrier].name;
	if (c.cbarrier >= 0) o += " CBARRIER " + sets[c.cbarrier].name;
	if (c.link) o += " LINK " + ctxtext(*c.link);
	return o;
}
static bool any_match(const Win& w, int p, int s) {
	for (auto& r : w[p].rd) if (setmatch(s, w[p], r, p == 0, p == (int)w.size() - 1)) return true;
	return false;
}
static bool all_match(const Win& w, int p, int s) {
	for (auto& r : w[p].rd) if (!setmatch(s, w[p], r, p == 0, p == (int)w.size() - 1)) return false;
	return true;
}
// w[0] is the >>> cohort
static bool test(const Win& w, int pos, const Ctx& c) {
	bool res = false;
	int n = w.size();
	auto linked = [&](int p) { return !c.link || test(w, p, *c.link); };
	if (c.scan == 0) {
		int p = c.absolute ? (c.off > 0 ? c.off : n + c.off) : pos + c.off;
		if (p < 0 || p >= n) res = c.neg;
		else if (c.neg) res = !any_match(w, p, c.target);
		else res = (c.careful ? all_match(w, p, c.target) : any_match(w, p, c.target)) && linked(p);
	}
	else {
		int d = c.off < 0 ? -1 : 1, p = pos + c.off;
		res = c.neg;
		for (; p >= 0 && p < n; p += d) {
			bool any = any_match(w, p, c.target);
			if (c.neg) {
				if (any) { res = false; break; }
			}
			else {
				bool m = c.careful ? all_match(w, p, c.target) : any;
				if (m && linked(p)) { res = true; break; }
				if (any && c.scan == 1) break;
			}
			if (c.barrier >= 0 && any_match(w, p, c.barrier)) break;
			if (c.cbarrier >= 0 && all_match(w, p, c.cbarrier)) break;
		}
	}
	return c.negate ? !res : res;
}
static bool apply_rule(Win& w, const RuleDef& r) {
	bool changed = false;
	for (int p = 1; p < (int)w.size(); ++p) {
		auto& c = w[p];
		if (c.rd.size() < 2) continue;
		bool ok = true;
		for (auto& x : r.ctx) ok = ok && test(w, p, x);
		vector<bool> m;
		int cnt = 0;
		for (auto& rd : c.rd) {
			m.push_back(setmatch(r.target, c, rd, false, p == (int)w.size() - 1));
			cnt += m.back();
		}
		if (cnt == 0 || cnt == (int)c.rd.size()) continue;
		bool keep;
		if (r.type == 2) keep = ok;
		else if (!ok) continue;
		else keep = r.type == 0;
		vector<Rd> k;
		for (size_t i = 0; i < c.rd.size(); ++i) if (m[i] == keep) k.push_back(c.rd[i]);
		c.rd = k;
		changed = true;
	}
	return changed;
}
static Win reference(const Win& in, const vector<vector<RuleDef>>& secs) {
	Win w = in;
	Co b;
	b.wf = ">>>";
	Rd r;
	r.base = ">>>";
	b.rd = { r };
	w.insert(w.begin(), b);
	for (size_t s = 0; s < secs.size();) {
		bool ch = false;
		for (size_t k = 0; k <= s; ++k) for (auto& x : secs[k]) ch |= apply_rule(w, x);
		if (!ch) ++s;
	}
	w.erase(w.begin());
	return w;
}
static string canon(const vector<eng::Coh>& v) {
	string o;
	for (auto& c : v) {
		o += c.wf + "\n";
		auto r = c.rd;
		std::sort(r.begin(), r.end());
		for (auto& x : r) o += x + "\n";
	}
	return o;
}
static const char* RT[] = { "SELECT", "REMOVE", "IFF" };
static void mode_ref() {
	gen_sets(P(0.6), P(0.3));
	vector<vector<RuleDef>> secs(1 + R(2));
	string g = "DELIMITERS = \"<.>\" ;\n";
	for (size_t i = 1; i < sets.size(); ++i) g += settext(sets[i]);
	for (auto& s : secs) {
		g += "SECTION\n";
		int n = 1 + R(4);
		for (int i = 0; i < n; ++i) {
			RuleDef r;
			r.type = R(3);
			r.target = 1 + R(sets.size() - 1);
			int k = R(3);
			for (int j = 0; j < k; ++j) r.ctx.push_back(gen_ctx(0));
			g += string(RT[r.type]) + " " + sets[r.target].name;
			if (k) {
				g += " IF";
				for (auto& x : r.ctx) g += " (" + ctxtext(x) + ")";
			}
			g += " ;\n";
			s.push_back(r);
		}
	}
	auto G = eng::load(g);
	if (!G) {
		fail("ref.grammar-refused", cat(g, "\n", eng::errs.str()));
		return;
	}
	for (int it = 0; it < 4; ++it) {
		vector<Win> ws;
		int nw = 1 + R(3);
		for (int i = 0; i < nw; ++i) ws.push_back(gen_window(false, true));
		string in = wtext(ws);
		cur(g + "---\n" + in);
		auto out = eng::parse(eng::apply(*G, in, {}));
		vector<Win> exp;
		for (auto& w : ws) exp.push_back(reference(w, secs));
		auto e = eng::parse(wtext(exp));
		++evals;
		string a = canon(out), b = canon(e);
		if (a != canon(eng::parse(in))) ++distinct;
		if (a != b) fail("ref.differs", cat("grammar:\n", g, "input:\n", in, "engine:\n", a, "reference:\n", b));
		sample(g);
	}
}

// ---------------------------------------------------------------- anything the language has
static bool W_unif = false, W_dep = false, W_rel = false, W_struct = false, W_edit = true, W_sub = false, W_var = false, W_map = false, W_tmpl = false, W_misc = false, W_del = false, W_forest = false;
static bool W_prot = true;
static bool W_regex = true;
static string wset(bool inl = true) {
	string s = sets[P(0.05) ? 0 : 1 + R(sets.size() - 1)].name;
	if (W_unif && P(0.15)) s = (R(3) ? "$$" : "&&") + sets[1 + R(sets.size() - 1)].name;
	if (s == "$$(*)" || s == "&&(*)") s = "(*)";
	if (s[0] == '&') {
		// && needs a set of sets
		s = cat("&&S", R(2));
	}
	if (inl && P(0.12)) s = "(" + pick(TG) + ")";
	if (inl && P(0.08)) s += " - (" + pick(TG) + ")";
	if (W_var && P(0.05)) s = "(VAR:v" + cat(R(2)) + ")";
	if (W_map && inl && P(0.08)) s = string("(@") + char('x' + R(3)) + ")";
	return s;
}
static string wctx(int depth) {
	string o;
	if (P(0.08)) o += "NEGATE ";
	else if (P(0.1)) o += "NOT ";
	else if (P(0.04)) o += "ALL ";
	else if (P(0.04)) o += "NONE ";
	if (W_tmpl && P(0.12)) {
		o = cat("T:T", R(2));
		if (P(0.3)) o = cat((int)R(5) - 2) + " " + o;
		return o;
	}
	string p = cat((int)R(7) - 3);
	if (P(0.45)) {
		if (p == "0") p = R(2) ? "1" : "0";
		p += R(2) ? "*" : "**";
		if (P(0.15)) p += "S";
	}
	if (W_dep && P(0.3)) {
		static const vector<string> D = { "c", "p", "s", "cc", "pp", "c*", "p*", "cS", "pS", "r", "l", "rr", "ll", "c**", "sS" };
		p = pick(D);
	}
	if (W_rel && P(0.15)) p = R(2) ? "r:x" : "r:*";
	if (P(0.15)) p += "C";
	if (P(0.08)) p += "W";
	if (P(0.05)) p += R(2) ? "<" : ">";
	if (P(0.04)) p += "X";
	if (P(0.03)) p += "x";
	if (W_del && P(0.1)) p += R(2) ? "D" : "d";
	if (W_del && P(0.05)) p += "I";
	if (W_sub && P(0.15)) p += "/" + string(R(2) ? "-1" : R(2) ? "1" : "*");
	if (W_misc && P(0.05)) p = "B";
	o += p + " " + wset();
	if (P(0.2)) o += " BARRIER " + wset(false);
	else if (P(0.1)) o += " CBARRIER " + wset(false);
	if (depth < 2 && P(0.3)) o += " LINK " + wctx(depth + 1);
	return o;
}
static string wctxs(int max) {
	string o;
	int n = R(max + 1);
	for (int i = 0; i < n; ++i) o += " (" + wctx(0) + ")";
	return o;
}
static int anchor_n;
static string wtags(bool m = false) {
	string o = "(";
	int n = 1 + R(2);
	for (int i = 0; i < n; ++i) o += (i ? " " : "") + (m ? "@" + string(1, 'x' + R(3)) : pick(TG));
	return o + ")";
}
static string wrule(int depth);
static string wcore(int depth) {
	vector<int> k = { 0, 0, 0, 1, 1, 1, 2 };
	if (W_edit) k.insert(k.end(), { 3, 3, 4, 5, 6, 7, 7 });
	if (W_map) k.insert(k.end(), { 8, 8, 9, 10 });
	if (W_dep) k.insert(k.end(), { 11, 11, 12, 12, 13, 14 });
	if (W_rel) k.insert(k.end(), { 15, 15, 16, 17 });
	if (W_struct) k.insert(k.end(), { 18, 19, 20, 21, 22, 23, 33 });
	if (W_var) k.insert(k.end(), { 24, 24, 25 });
	if (W_misc) k.insert(k.end(), { 26, 27, 28 });
	if (W_del) k.insert(k.end(), { 29, 30, 31, 31 });
	if (depth == 0 && W_misc) k.push_back(32);
	string sub = W_sub && P(0.2) ? " SUB:" + string(R(3) ? (R(2) ? "-1" : "1") : "*") : "";
	// these say themselves where the arrows go, or swap them, unchecked
	if (W_forest) k.erase(std::remove_if(k.begin(), k.end(), [](int x) { return x == 14 || (x >= 20 && x <= 23) || x == 33 || x == 28; }), k.end());
	string to = " TO (" + wctx(0) + ")";
	switch (pick(k)) {
	case 0: return "SELECT" + sub + " " + wset() + wctxs(2) + " ;\n";
	case 1: return "REMOVE" + sub + " " + wset() + wctxs(2) + " ;\n";
	case 2: return "IFF " + wset() + wctxs(2) + " ;\n";
	case 3: return "ADD" + sub + " " + wtags() + " " + wset() + wctxs(2) + " ;\n";
	case 4: return "REPLACE" + sub + " " + wtags() + " " + wset() + wctxs(2) + " ;\n";
	case 5: return "APPEND (\"" + pick(BF) + "\" " + pick(TG) + ") " + wset() + wctxs(2) + " ;\n";
	case 6: return "COPY " + wtags() + (P(0.3) ? " EXCEPT " + wtags() : "") + " " + wset() + wctxs(2) + " ;\n";
	case 7: return "SUBSTITUTE" + sub + " " + (P(0.3) ? wset() : wtags()) + " " + wtags() + " " + wset() + wctxs(2) + " ;\n";
	case 8: return "MAP " + wtags(true) + " " + wset() + wctxs(2) + " ;\n";
	case 9: return "ADD " + wtags(true) + " " + wset() + wctxs(2) + " ;\n";
	case 10: return "UNMAP " + wset() + wctxs(2) + " ;\n";
	case 11: return "SETPARENT" + string(P(0.2) ? " NEAREST" : "") + (P(0.15) ? " ALLOWCROSS" : "") + " " + wset() + wctxs(1) + to + " ;\n";
	case 12: return "SETCHILD " + wset() + wctxs(1) + to + " ;\n";
	case 13: return "REMPARENT " + wset() + wctxs(2) + " ;\n";
	case 14: return "SWITCHPARENT " + wset() + wctxs(2) + " ;\n";
	case 15: return "ADDRELATION (x) " + wset() + wctxs(1) + to + " ;\n";
	case 16: return "SETRELATIONS (x) (y) " + wset() + wctxs(1) + to + " ;\n";
	case 17: return "REMRELATION (x) " + wset() + wctxs(1) + to + " ;\n";
	case 18: return "REMCOHORT" + string(W_del && R(2) ? " IGNORED" : "") + " " + wset() + wctxs(2) + " ;\n";
	case 19: return "ADDCOHORT (\"<n>\" \"n\" N) " + string(R(2) ? "BEFORE " : "AFTER ") + wset() + wctxs(2) + " ;\n";
	case 20: return "MOVE " + string(P(0.2) ? "REVERSE " : "") + (P(0.2) ? "WITHCHILD " + wset() + " " : "") + wset() + wctxs(1) + (R(2) ? " BEFORE " : " AFTER ") + (P(0.2) ? "WITHCHILD " + wset() + " (" : "(") + wctx(0) + ") ;\n";
	case 33: return "COPYCOHORT " + string(P(0.3) ? "REVERSE " : "") + wtags() + (P(0.3) ? " EXCEPT " + wtags() : "") + (R(2) ? " BEFORE " : " AFTER ") + (P(0.2) ? "WITHCHILD " + wset() + " " : "") + wset() + wctxs(1) + " TO " + (P(0.2) ? "WITHCHILD " + wset() + " (" : "(") + wctx(0) + ") ;\n";
	case 21: return "SWITCH " + string(P(0.2) ? "REVERSE " : "") + wset() + wctxs(1) + " WITH (" + wctx(0) + ") ;\n";
	case 22: return "SPLITCOHORT (\"<s>\" \"s\" N \"<t>\" \"t\" V) (\"<w0>\")" + wctxs(1) + " ;\n";
	case 23: return "MERGECOHORTS (\"<m>\" \"m\" N) " + wset() + wctxs(1) + " WITH (" + wctx(0) + ") ;\n";
	case 24: return cat("SETVARIABLE (v", R(2), ") (", R(3), ") ", wset(), wctxs(1), " ;\n");
	case 25: return cat("REMVARIABLE (v", R(2), ") ", wset(), wctxs(1), " ;\n");
	case 26: if (!W_prot) return "MAP (@x) " + wset() + " ;\n"; return "PROTECT " + wset() + wctxs(2) + " ;\n";
	case 27: return "UNPROTECT " + wset() + wctxs(2) + " ;\n";
	case 28: return "DELIMIT " + wset() + " (0 (V)) (-1 (N))" + wctxs(1) + " ;\n";
	case 29: return "SELECT " + string(R(2) ? "DELAYED " : "IGNORED ") + wset() + wctxs(2) + " ;\n";
	case 30: return "REMOVE " + string(R(2) ? "DELAYED " : "IGNORED ") + wset() + wctxs(2) + " ;\n";
	case 31: return "RESTORE " + string(R(3) ? (R(2) ? "DELAYED " : "IGNORED ") : "") + wset() + " " + wset() + wctxs(2) + " ;\n";
	case 32: {
		string o = "WITH " + wset() + wctxs(2) + " {\n";
		int n = 1 + R(2);
		for (int i = 0; i < n; ++i) o += wrule(depth + 1);
		return o + "} ;\n";
	}
	}
	return "";
}
static bool W_flags = false;
static string wrule(int depth) {
	static const vector<string> F = { "ITERATE", "ITERATE", "ITERATE", "NOITERATE", "UNSAFE", "UNSAFE", "SAFE", "NEAREST", "KEEPORDER", "NOMAPPED", "NOPARENT", "VARYORDER", "UNMAPLAST", "REVERSE", "LOOKDELETED", "LOOKDELAYED", "IMMEDIATE", "RESETX", "REMEMBERX" };
	string r = wcore(depth);
	if (W_flags && P(0.3)) {
		auto sp = r.find(' ');
		if (sp != string::npos) r.insert(sp, " " + pick(F));
	}
	return r;
}
static string wgrammar() {
	gen_sets(W_regex && P(0.7), P(0.3));
	string g = "DELIMITERS = \"<.>\" ;\n";
	if (W_struct || W_dep) g += "OPTIONS += addcohort-attach ;\n";
	for (size_t i = 1; i < sets.size(); ++i) g += settext(sets[i]);
	if (W_tmpl) {
		bool t = W_tmpl;
		W_tmpl = false;
		g += "TEMPLATE T0 = " + wctx(0) + " ;\n";
		g += "TEMPLATE T1 = (" + wctx(0) + ") OR (" + wctx(0) + ") ;\n";
		W_tmpl = t;
	}
	int ns = 1 + R(3);
	for (int s = 0; s < ns; ++s) {
		g += s == 0 && P(0.2) ? "BEFORE-SECTIONS\n" : s == ns - 1 && P(0.2) ? "AFTER-SECTIONS\n" : "SECTION\n";
		int n = 1 + R(4);
		for (int i = 0; i < n; ++i) g += wrule(0);
	}
	return g;
}
static string winput(bool subs) {
	vector<Win> ws;
	int nw = 1 + R(4);
	for (int i = 0; i < nw; ++i) ws.push_back(gen_window(subs, true, 5));
	return wtext(ws);
}
static GrammarApplicator* watched = nullptr;
static string limited(Grammar& g, const string& in, eng::Opt o, bool watch = false) {
	return eng::apply(g, in, o, [&](FormatConverter& a) { a.section_max_count = 6; if (watch) watched = &a; });
}
static void wfeatures() {
	W_unif = P(0.3); W_dep = P(0.3); W_rel = P(0.2); W_struct = P(0.25); W_edit = P(0.6); W_sub = P(0.3);
	W_flags = P(0.5); W_var = P(0.15); W_map = P(0.3); W_tmpl = P(0.2); W_misc = P(0.3); W_del = P(0.25);
}
static eng::Opt wopt() {
	eng::Opt o;
	o.trace = P(0.4);
	o.span = P(0.2);
	o.windows = 1 + R(3);
	return o;
}
static string otext(const eng::Opt& o) { return cat("# options:", o.trace ? " -t" : "", o.span ? " --always-span" : "", o.unsafe_ ? " --unsafe" : "", " --num-windows ", o.windows, "\n"); }
// a rule set can grow the window forever; those histories are not judged
static void mode_bin() {
	wfeatures();
	string g = wgrammar();
	cur(g);
	auto G = eng::load(g);
	if (!G) { ++eng::grammars_bad; return; }
	string b = eng::compile(*G);
	auto H = eng::load(b);
	if (!H) { fail("bin.unreadable", cat(g, "\n", eng::errs.str())); return; }
	string b2 = eng::compile(*H);
	for (int it = 0; it < 2; ++it) {
		string in = winput(W_sub);
		auto o = wopt();
		cur(otext(o) + g + "---\n" + in);
		string x = limited(*G, in, o), y = limited(*H, in, o);
		++evals;
		if (x != in) ++distinct;
		if (x != y) fail("bin.differs", cat("grammar:\n", otext(o), g, "input:\n", in, "from text:\n", x, "from compiled:\n", y));
		sample(g);
	}
}
// a stream in the CG format, and the same stream carried by the binary format
static string sinput() {
	static const vector<string> X = { "N", "V", "<sem>", "\u00e6\u00f8", "\U0001f600x", "ID", "a:b", "#x", "q", "<W:7>", "R-x", "\u4e2d\u6587", "#" };
	string s;
	int nw = 1 + R(4);
	bool dep = P(0.4), rel = P(0.3), stat = P(0.3), text = P(0.5);
	int id = 1;
	for (int w = 0; w < nw; ++w) {
		int n = 1 + R(5), base = id;
		vector<int> par(n + 1);
		for (int i = 1; i <= n; ++i) par[i] = R(n + 1);
		for (int i = 1; i <= n; ++i) { // no loops
			int v = i, k = 0;
			while (v && k++ <= n) v = par[v];
			if (v) par[i] = 0;
		}
		for (int i = 1; i <= n; ++i, ++id) {
			s += "\"<" + (P(0.2) ? pick(X) : "w") + cat(R(4)) + ">\"";
			if (stat && P(0.4)) s += " stat" + cat(R(3));
			s += "\n";
			int m = P(0.1) && !dep && !rel ? 0 : 1 + R(3);
			for (int k = 0; k < m; ++k) {
				string ind = "\t";
				int depth = P(0.2) ? 1 + R(2) : 0;
				for (int q = 0; q <= depth; ++q, ind += "\t") {
					s += ind + "\"" + (P(0.2) ? pick(X) : "b") + cat(k) + "\"";
					std::set<string> had;
					int c = R(4);
					for (int z = 0; z < c; ++z) {
						auto& tg = P(0.4) ? pick(X) : pick(TG);
						if (tg != "#" && had.insert(tg).second) s += " " + tg;
					}
					if (P(0.3)) s += " @m" + cat(R(3));
					if (dep && q == 0) s += cat(" #", i, "->", par[i]);
					if (rel && q == 0) { s += cat(" ID:", id); if (P(0.4)) s += cat(" R:r", id % 3, ":", base + R(n)); }
					s += "\n";
				}
			}
			if (text && P(0.2)) s += pick(X) + " text between\n";
		}
		s += "\"<.>\"\n\t\".\" PU" + (dep ? cat(" #", n + 1, "->", R(n + 1)) : "") + (rel ? cat(" ID:", id) : "") + "\n";
		++id;
		if (text && P(0.3)) s += "\n";
		if (P(0.1)) s += "<STREAMCMD:FLUSH>\n";
		if (P(0.1)) s += cat("<STREAMCMD:SETVAR:v", R(3), "=", R(4), ",u>\n");
		if (P(0.1)) s += cat("<STREAMCMD:REMVAR:v", R(3), ">\n");
	}
	return s;
}
static void mode_stream() {
	static auto G = eng::load("DELIMITERS = \"<.>\" ;\nSETPARENT (\"zzz\") TO (1 (\"zzz\")) ;\nADDRELATION (x) (\"zzz\") TO (1 (\"zzz\")) ;\n"); // so that arrows are parsed
	string in = sinput();
	eng::Opt o;
	o.windows = 1 + R(3);
	cur(otext(o) + "DELIMITERS = \"<.>\" ;\n---\n" + in);
	string x = eng::apply(*G, in, o);
	++evals;
	if (x != in) ++distinct;
	string y = eng::apply(*G, x, o);
	if (y != x) fail("stream.cg-not-stable", cat("grammar:\n", otext(o), "input:\n", in, "first:\n", x, "out:\n", y));
	eng::Opt ob = o;
	ob.bin_out = true;
	string bz = eng::apply(*G, in, ob);
	eng::Opt oi = o;
	oi.bin_in = true;
	string z = eng::apply(*G, bz, oi);
	if (z != x) fail("stream.binary-differs", cat("grammar:\n", otext(o), "input:\n", in, "as CG:\n", x, "through binary:\n", z));
	oi.bin_out = true;
	string b2 = eng::apply(*G, bz, oi);
	if (b2 != bz) fail("stream.binary-not-stable", cat("grammar:\n", otext(o), "input:\n", in, "first:\n", eng::apply(*G, bz, ob)));
	sample(x);
}
#ifdef WRAP
using GA = GrammarApplicator;
// Every use of a hash set in runRules calls this first (-finstrument-functions): a rule that was tried on a cohort
// may be skipped there for as long as nothing a rule can see has changed.
static uint64_t seen = 0;
static unsigned long long asked = 0;
__attribute__((no_instrument_function)) static uint64_t state(GA& a) {
	uint64_t h = 1469598103934665603ull;
	auto add = [&](uint64_t x) { h = (h ^ x) * 1099511628211ull; h ^= h >> 29; };
	auto list = [&](const ReadingList& l) {
		add(l.size());
		for (auto r : l) for (auto x = r; x; x = x->next) { add((uint64_t)x); add(x->mapped); add(x->immutable); for (auto t : x->tags_list) add(t); add(1); }
	};
	if (!a.gWindow || !a.gWindow->current) return h;
	for (auto c : a.gWindow->current->cohorts) {
		add((uint64_t)c); add(c->global_number); add(c->local_number); add(c->type & (CT_REMOVED | CT_IGNORED | CT_ENCLOSED)); add(c->dep_parent); add(c->dep_self);
		list(c->readings); list(c->deleted); list(c->delayed); list(c->ignored);
		for (auto& r : c->relations) { add(r.first); for (auto x : r.second) add(x); add(2); }
	}
	for (auto& v : a.variables) { uint64_t k = (uint64_t(v.first) << 32 | v.second) * 0x9E3779B97F4A7C15ull; h += k ^ (k >> 31); }
	return h;
}
extern "C" __attribute__((no_instrument_function)) void __cyg_profile_func_enter(void*, void*) {
	if (!watched) return;
	++asked;
	auto a = watched;
	watched = nullptr;
	auto s = state(*a);
	if (s != seen) { seen = s; a->index_ruleCohort_no.clear(); }
	watched = a;
}
extern "C" __attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*) {}
// a rule that fails, and another that takes the obstacle away: the first must get another chance
static string agrammar(bool& map, bool& dep) {
	struct Pair { const char* what; const char* now; const char* no; }; // after 'what', 'now' describes a cohort it changed and 'no' what is gone
	static const vector<Pair> PS = {
		{ "ADD (p) (N)", "(p)", "" }, { "ADD (p) (N) (1 (V))", "(p)", "" }, { "MAP (@y) (N)", "(@y)", "" }, { "ADD (@y) (V)", "(@y)", "" },
		{ "REPLACE (p) (N)", "(p)", "(N)" }, { "SUBSTITUTE (N) (p) (N)", "(p)", "(N)" }, { "SUBSTITUTE (V) (*) (V)", "", "(V)" },
		{ "APPEND (\"q\" p) (N)", "(p)", "" }, { "COPY (p) (N)", "(p)", "" }, { "COPY (p) EXCEPT (A) (N)", "(p)", "" },
		{ "SELECT (N)", "", "(V)" }, { "REMOVE (V)", "", "(V)" }, { "IFF (N)", "", "(V)" }, { "REMOVE DELAYED (V)", "", "(V)" }, { "REMOVE IGNORED (V)", "", "(V)" },
		{ "UNMAP (N)", "", "(@x)" }, { "UNMAP UNSAFE (N)", "", "(@x)" }, { "UNMAP UNSAFE (*)", "", "(@x)" },
		{ "REMCOHORT (V)", "", "(V)" }, { "REMCOHORT IGNORED (V)", "", "(V)" }, { "REMCOHORT (A)", "", "(A)" },
		{ "ADDCOHORT (\"<q>\" \"q\" p) AFTER (N)", "(p)", "" }, { "ADDCOHORT (\"<q>\" \"q\" p) BEFORE (N)", "(p)", "" },
		{ "MOVE (A) AFTER (1 (V))", "(A)", "" }, { "MOVE (A) BEFORE (-1 (V))", "(A)", "" }, { "SWITCH (A) WITH (1 (V))", "(A)", "" },
		{ "SETPARENT (N) TO (1 (V))", "", "" }, { "SETCHILD (V) TO (-1 (N))", "", "" }, { "REMPARENT (N)", "", "" }, { "SETPARENT (N) TO (-1 (V))", "", "" },
		{ "ADDRELATION (x) (N) TO (1 (V))", "", "" }, { "SETRELATION (x) (N) TO (1 (V))", "", "" }, { "REMRELATION (x) (N) TO (1 (V))", "", "" }, { "ADDRELATIONS (x) (x) (N) TO (1 (V))", "", "" },
		{ "SETVARIABLE (p) (1) (N)", "(VAR:p)", "" }, { "REMVARIABLE (r) (N)", "", "(VAR:r)" }, { "SPLITCOHORT (\"<s>\" \"s\" p \"<t>\" \"t\" V) (N)", "(p)", "(N)" },
		{ "MERGECOHORTS (\"<m>\" \"m\" p) (N) WITH (1 (V))", "(p)", "" }, { "COPYCOHORT (p) AFTER (N) TO (1 (V))", "(p)", "" }, { "DELIMIT (V)", "", "" },
		{ "WITH (N) { ADD (p) (*) ; }", "(p)", "" }, { "WITH (N) { SETVARIABLE (p) (1) (*) ; }", "(VAR:p)", "" },
	};
	static const vector<string> DW = { "p", "c", "s", "pp", "cc", "r:x", "r:*", "1", "-1", "2", "-2" };
	string g = "DELIMITERS = \"<.>\" ;\n";
	vector<string> rules;
	for (int k = 1 + R(2); k; --k) {
		auto& b = pick(PS);
		string x = b.what;
		if (x.find("PARENT") != string::npos || x.find("CHILD") != string::npos) dep = true;
		if (x.find("MAP") != string::npos) map = true;
		vector<string> sets;
		if (*b.now) sets.push_back(b.now);
		if (*b.no) sets.push_back(string("!") + b.no);
		sets.push_back(R(2) ? "!(*)" : "(*)");
		for (int m = 1 + R(2); m; --m) {
			string st = sets[R(4) ? 0 : R(sets.size())], t = R(2) ? "(N)" : R(2) ? "(*)" : "(A)", ctx;
			bool neg = st[0] == '!';
			if (neg) st = st.substr(1);
			if (!R(3) && st != "(*)") t = neg ? t + " - " + st : st;
			else {
				string pos = st == "(*)" ? pick(DW) : R(4) ? cat((int)R(3) - 1) : R(2) ? "1*" : "-1*";
				ctx = cat(" (", neg ? (R(2) ? "NOT " : "NEGATE ") : "", pos, (neg || R(3)) ? " " : "C ", st, ")");
			}
			static const vector<string> A = { "ADD (hit)", "ADD (hit)", "REMOVE", "SELECT", "SUBSTITUTE (N) (hit)", "ADD (@z)", "SETVARIABLE (h) (1)", "REPLACE (hit)", "ADDRELATION (h)" };
			string a = pick(A);
			rules.push_back(a + " " + t + ctx + (a[3] == 'R' ? " TO (1 (*))" : "") + " ;\n");
		}
		rules.push_back(x + (R(4) || x.back() == '}' ? "" : " (0 (A))") + " ;\n");
	}
	if (!R(3)) rules.push_back("ADD (t2) (hit) ;\n");
	std::shuffle(rules.begin(), rules.end(), rng);
	g += "SECTION\n";
	for (size_t i = 0; i < rules.size(); ++i) { g += rules[i]; if (!R(6)) g += "SECTION\n"; }
	return g;
}
static string ainput(bool map, bool dep) {
	string in;
	for (int w = 1 + R(2); w; --w) {
		int n = 2 + R(4);
		if (!R(3)) in += "<STREAMCMD:SETVAR:r>\n";
		for (int i = 1; i <= n; ++i) {
			in += cat("\"<w", R(3), ">\"\n");
			int par = R(n + 1);
			if (par >= i) par = 0;
			for (int k = 1 + R(2); k; --k) {
				in += cat("\t\"b", k, "\" ", R(2) ? "N" : R(2) ? "V" : "A");
				if (!R(4)) in += R(2) ? " A" : " p";
				if (map && !R(3)) in += " @x";
				if (dep) in += cat(" #", i, "->", par);
				in += "\n";
			}
		}
		in += "\"<.>\"\n\t\".\" pu\n";
	}
	return in;
}
static void mode_again() {
	bool map = R(2), dep = !R(4);
	string g = agrammar(map, dep);
	cur(g);
	auto G = eng::load(g);
	if (!G) { fail("again.grammar", cat(g, "\n", eng::errs.str())); return; }
	for (int it = 0; it < 4; ++it) {
		string in = ainput(map, dep);
		eng::Opt o;
		cur(otext(o) + g + "---\n" + in);
		string x = limited(*G, in, o);
		noshort = true;
		string y = limited(*G, in, o, true);
		noshort = false;
		watched = nullptr;
		++evals;
		if (x != in) ++distinct;
		if (asked && x != y) fail("short.differs", cat("grammar:\n", otext(o), g, "input:\n", in, "with indexes:\n", x, "without:\n", y));
		sample(g);
	}
}
static void mode_short() {
	if (R(2)) return mode_again();
	wfeatures();
	W_prot = false; // a SELECT lets a protected reading win even when nothing matches, if the cohort was worth a look: not judged
	string g = wgrammar();
	cur(g);
	auto G = eng::load(g);
	if (!G) { ++eng::grammars_bad; return; }
	for (int it = 0; it < 3; ++it) {
		string in = winput(W_sub);
		auto o = wopt();
		cur(otext(o) + g + "---\n" + in);
		noshort = false;
		string x = limited(*G, in, o);
		noshort = true;
		string y = limited(*G, in, o);
		noshort = false;
		++evals;
		if (x != in) ++distinct;
		if (x != y) fail("short.differs", cat("grammar:\n", otext(o), g, "input:\n", in, "with indexes:\n", x, "without:\n", y));
		sample(g);
	}
}
#endif
// what comes out does not depend on which objects earlier runs left in the pools
static void drain() {
	for (auto x : pool_swindows.p) delete x;
	pool_swindows.p.clear();
	for (auto x : pool_cohorts.p) delete x;
	pool_cohorts.p.clear();
	for (auto x : pool_readings.p) delete x;
	pool_readings.p.clear();
}
static void mode_pool() {
	wfeatures();
	string g = wgrammar();
	cur(g);
	auto G = eng::load(g);
	if (!G) { ++eng::grammars_bad; return; }
	for (int it = 0; it < 3; ++it) {
		string in = winput(W_sub);
		auto o = wopt();
		cur(otext(o) + g + "---\n" + in);
		string x = limited(*G, in, o);
		drain();
		string y = limited(*G, in, o);
		++evals;
		if (x != in) ++distinct;
		if (x != y) fail("pool.differs", cat("grammar:\n", otext(o), g, "input:\n", in, "with recycled objects:\n", x, "with new objects:\n", y));
		sample(g);
	}
}
// named relations: rules and input tags against plain sets of (name, target)
// a relation made by a rule must not be looked up among the IDs of the input (known finding)
static void mode_rel_known() {
	string g = "DELIMITERS = \"<.>\" ;\nBEFORE-SECTIONS\nADDRELATION (r) (x) TO (1 (y)) ;\n";
	string in = "\"<a>\"\n\t\"a\" x\n\"<b>\"\n\t\"b\" y\n\"<c>\"\n\t\"c\" z ID:2\n\"<.>\"\n\t\".\" pu\n\"<d>\"\n\t\"d\" z\n\"<.>\"\n\t\".\" pu\n";
	auto G = eng::load(g);
	if (!G) { fail("rel.grammar", g); return; }
	string out = eng::apply(*G, in, eng::Opt());
	++evals;
	if (out.find("\t\"a\" x ID:1 R:r:2\n") != string::npos && out.find(":3") == out.find("ID:3") + 2) { ++distinct; return; }
	bool known = out.find("\t\"a\" x ID:1 R:r:2 R:r:3\n") != string::npos;
	fail(known ? "rel.rule-relation-read-as-input" : "rel.fixed-case", cat("grammar:\n", g, "input:\n", in, "output:\n", out));
}
static void mode_rel() {
	int nw = 1 + R(3), n = 0;
	string in, g = "DELIMITERS = \"<.>\" ;\nBEFORE-SECTIONS\n";
	std::map<int, int> id; // cohort -> ID in the input
	vector<int> win, tag;
	vector<vector<std::pair<string, int>>> inrel;
	static const vector<string> NM = { "r1", "r2", "R3" };
	bool have_in = R(2);
	vector<int> ids;
	// IDs far from the numbers the engine gives out: see mode_rel_known
	for (int i = 0; i < 40; ++i) ids.push_back(100003 + 2 * i);
	for (int w = 0; w < nw; ++w) for (int k = 1 + R(5), j = 0; j < k; ++j) { win.push_back(w); tag.push_back(R(4)); inrel.push_back({}); ++n; }
	if (have_in) for (int i = 0; i < n; ++i) { id[i] = ids[R(ids.size())]; ids.erase(std::find(ids.begin(), ids.end(), id[i])); }
	for (int i = 0; have_in && i < n; ++i) for (int k = R(3); k; --k) inrel[i].push_back({ pick(NM), (int)R(n) });
	typedef std::map<string, std::set<int>> Rel;
	vector<Rel> ref(n);
	for (int i = 0; i < n; ++i) {
		in += cat("\"<w", i, ">\"\n");
		for (int k = 1 + R(2); k; --k) {
			in += cat("\t\"b", k, "\" t", tag[i]);
			if (have_in) in += cat(" ID:", id[i]);
			for (auto& p : inrel[i]) { in += cat(" R:", p.first, ":", id[p.second]); }
			in += "\n";
		}
		for (auto& p : inrel[i]) ref[i][p.first].insert(p.second);
		if (i + 1 == n || win[i + 1] != win[i]) in += "\"<.>\"\n\t\".\" pu\n";
	}
	struct Ru { int kind, t, off, at; vector<string> a, b; };
	vector<Ru> rules;
	for (int k = 1 + R(5); k; --k) {
		Ru r{ (int)R(6), (int)R(4), (int)R(5) - 2, (int)R(4), {}, {} };
		static const char* K[] = { "ADDRELATION", "SETRELATION", "REMRELATION", "ADDRELATIONS", "SETRELATIONS", "REMRELATIONS" };
		auto names = [&]() { vector<string> v; for (auto& x : NM) if (R(2)) v.push_back(x); if (v.empty()) v.push_back(pick(NM)); return v; };
		auto list = [](const vector<string>& v) { string s = "("; for (auto& x : v) s += x + " "; return s + ")"; };
		auto or_ = [](const vector<string>& v) { string s; for (auto& x : v) s += (s.empty() ? "(" : " OR (") + x + ")"; return s; };
		r.a = names(); r.b = names();
		g += cat(K[r.kind], " ", list(r.a), " ");
		if (r.kind >= 3) g += list(r.b) + " ";
		g += cat("(t", r.t, ") TO (", r.off, " (t", r.at, ")) ;\n");
		rules.push_back(r);
		(void)or_;
	}
	cur(g + "---\n" + in);
	auto G = eng::load(g);
	if (!G) { fail("rel.grammar", g); return; }
	for (int w = 0; w < nw; ++w) for (auto& r : rules) for (int i = 0; i < n; ++i) {
		int j = i + r.off;
		if (win[i] != w || tag[i] != r.t || j < 0 || j >= n || win[j] != w || tag[j] != r.at) continue;
		auto act = [&](int x, const vector<string>& v, int y, int kind) {
			for (auto& nm : v) {
				if (kind == 0) ref[x][nm].insert(y);
				else if (kind == 1) ref[x][nm] = { y };
				else ref[x][nm].erase(y);
			}
		};
		act(i, r.a, j, r.kind % 3);
		if (r.kind >= 3) act(j, r.b, i, r.kind % 3);
	}
	eng::Opt o;
	o.windows = nw + 1;
	string out = eng::apply(*G, in, o, [](FormatConverter& a) { a.print_ids = true; });
	++evals;
	auto v = eng::parse(out);
	string why;
	std::map<int, int> at;
	vector<vector<std::set<std::pair<string, int>>>> got;
	int c = 0;
	for (auto& co : v) {
		if (co.wf == "\"<.>\"") continue;
		got.push_back({});
		for (auto& r : co.rd) {
			std::set<std::pair<string, int>> s;
			std::istringstream is(r);
			string w;
			while (is >> w) {
				if (w.rfind("ID:", 0) == 0) at[atoi(w.c_str() + 3)] = c;
				if (w.rfind("R:", 0) == 0) { auto k = w.rfind(':'); s.insert({ w.substr(2, k - 2), atoi(w.c_str() + k + 1) }); }
			}
			got.back().push_back(s);
		}
		++c;
	}
	if (c != n) why = "number of cohorts";
	for (int i = 0; i < n && why.empty(); ++i) for (auto& rd : got[i]) {
		std::set<std::pair<string, int>> want, have;
		for (auto& x : ref[i]) for (auto y : x.second) want.insert({ x.first, y });
		for (auto& x : rd) { if (!at.count(x.second)) why = cat("cohort ", i, ": relation to an unknown ID ", x.second); else have.insert({ x.first, at[x.second] }); }
		if (why.empty() && want != have) { why = cat("cohort ", i, ": expected"); for (auto& x : want) why += cat(" ", x.first, "->", x.second); }
	}
	if (!why.empty()) fail("rel.rules", cat("grammar:\n", g, "input:\n", in, "output:\n", out, "\n", why));
	else ++distinct;
	sample(g);
}
// one rule after the other on plain readings, against lists kept by hand
struct KRd { string lem; std::set<string> tg; bool map = false, magic = false; };
struct KCo { vector<KRd> rd, del, delayed, ign; };
static void keep_exact() {
	static const vector<string> T = { "N", "V", "A" };
	struct KR { int kind; int tag, test; bool neg, delayed, ign, uns, safe, last; int res; };
	vector<KR> rules;
	string g = "DELIMITERS = \"<$.>\" ;\nBEFORE-SECTIONS\n";
	int nr = 1 + R(4);
	bool uns = P(0.3);
	for (int i = 0; i < nr; ++i) {
		KR r{ int(R(4)), int(R(3)), P(0.5) ? int(R(3)) : -1, P(0.3), P(0.2), P(0.2), P(0.3), P(0.2), i == 0 && P(0.3), int(R(3)) };
		if (r.delayed) r.ign = false;
		if (r.uns) r.safe = false;
		if (r.kind == 2 && r.test < 0) r.test = R(3);
		if (r.kind == 3) r.uns = r.safe = r.last = false;
		if (r.kind != 1) r.last = false;
		if (r.last) r.safe = false;
		rules.push_back(r);
		static const char* K[] = { "SELECT", "REMOVE", "IFF", "RESTORE" };
		g += cat(K[r.kind], r.delayed ? " DELAYED" : "", r.ign ? " IGNORED" : "", r.uns ? " UNSAFE" : "", r.safe ? " SAFE" : "", r.last ? " UNMAPLAST" : "");
		if (r.kind == 3) g += cat(" (", T[r.res], ")");
		g += cat(" (", T[r.tag], ")");
		if (r.test >= 0) g += cat(" IF (", r.neg ? "NOT " : "", "0 (", T[r.test], "))");
		g += " ;\n";
	}
	cur(g);
	auto G = eng::load(g);
	if (!G) { ++eng::grammars_bad; return; }
	for (int it = 0; it < 4; ++it) {
		string in;
		vector<KCo> C;
		int nc = 1 + R(3), lem = 0;
		for (int c = 0; c < nc; ++c) {
			in += cat("\"<w", c, ">\"\n");
			C.emplace_back();
			int n = 1 + R(5);
			for (int i = 0; i < n; ++i) {
				KRd r;
				r.lem = cat("\"l", lem++, "\"");
				in += "\t" + r.lem;
				for (auto& t : T) if (R(2)) { r.tg.insert(t); in += " " + t; }
				if (P(0.3)) { r.map = true; in += " @m"; }
				in += "\n";
				C.back().rd.push_back(r);
			}
		}
		eng::Opt o;
		o.unsafe_ = uns;
		cur(otext(o) + g + "---\n" + in);
		auto outp = eng::parse(limited(*G, in, o));
		++evals;
		for (auto& c : C) {
			for (auto& r : rules) {
				auto has = [](const KRd& x, const string& t) { return x.tg.count(t) != 0; };
				size_t n = c.rd.size();
				bool test = true;
				if (r.test >= 0) {
					test = false;
					for (auto& x : c.rd) if (has(x, T[r.test])) test = true;
					if (r.neg) test = !test;
				}
				vector<KRd> hit, miss;
				for (auto& x : c.rd) (has(x, T[r.tag]) ? hit : miss).push_back(x);
				auto& dst = r.delayed ? c.delayed : r.ign ? c.ign : c.del;
				int k = r.kind;
				if (hit.empty()) continue;
				if (k == 3) {
					if (!test) continue;
					vector<KRd> stay;
					for (auto& x : dst) (has(x, T[r.res]) ? c.rd : stay).push_back(x);
					dst = stay;
					continue;
				}
				if (k == 2) k = test ? 0 : 1;
				else if (!test) continue;
				if (k == 0) {
					if (hit.size() == n) continue;
					c.rd = hit;
					dst.insert(dst.end(), miss.begin(), miss.end());
					continue;
				}
				bool may = (uns && !r.safe) || r.uns || r.last;
				if (hit.size() == n && !may) continue;
				if (r.last && hit.size() == n) {
					miss.push_back(hit.back());
					miss.back().map = false;
					hit.pop_back();
				}
				dst.insert(dst.end(), hit.begin(), hit.end());
				c.rd = miss;
				if (c.rd.empty()) {
					KRd m;
					m.magic = true;
					c.rd.push_back(m);
				}
			}
		}
		string why;
		if (outp.size() != C.size()) why = "number of cohorts";
		for (size_t i = 0; i < C.size() && why.empty(); ++i) {
			vector<string> want, got = outp[i].rd;
			C[i].rd.insert(C[i].rd.end(), C[i].ign.begin(), C[i].ign.end());
			for (auto& x : C[i].rd) {
				if (x.magic) continue;
				string s = "\t" + x.lem;
				for (auto& t : T) if (x.tg.count(t)) s += " " + t;
				if (x.map) s += " @m";
				want.push_back(s);
			}
			std::sort(want.begin(), want.end());
			std::sort(got.begin(), got.end());
			if (want != got) {
				why = cat("cohort w", i, " should have");
				for (auto& x : want) why += " [" + x.substr(1) + "]";
				why += " but has";
				for (auto& x : got) why += " [" + x.substr(1) + "]";
			}
		}
		if (!why.empty()) fail("keep.exact", cat(why, "\ngrammar:\n", otext(o), g, "input:\n", in));
		else ++distinct;
	}
	sample(g);
}

static void mode_keep() {
	if (P(0.4)) return keep_exact();
	// only rules that take readings away or move them between lists
	W_unif = P(0.3); W_dep = W_rel = W_struct = W_edit = W_map = W_var = W_misc = false;
	W_sub = P(0.3); W_tmpl = P(0.2);
	W_del = P(0.4);
	string g = wgrammar();
	cur(g);
	auto G = eng::load(g);
	if (!G) { ++eng::grammars_bad; return; }
	for (int it = 0; it < 3; ++it) {
		string in = winput(W_sub);
		auto o = wopt();
		o.trace = false;
		cur(otext(o) + g + "---\n" + in);
		string x = limited(*G, in, o);
		++evals;
		if (x != in) ++distinct;
		auto a = eng::parse(in), b = eng::parse(x);
		string why;
		if (a.size() != b.size()) why = "a cohort appeared or vanished";
		for (size_t i = 0; i < a.size() && why.empty(); ++i) {
			if (a[i].wf != b[i].wf) why = "a cohort changed its word";
			if (b[i].rd.empty()) why = "cohort " + a[i].wf + " lost its last reading";
			auto s = a[i].rd, t = b[i].rd;
			std::sort(s.begin(), s.end());
			std::sort(t.begin(), t.end());
			if (why.empty() && !std::includes(s.begin(), s.end(), t.begin(), t.end())) why = "cohort " + a[i].wf + " has a reading it did not have";
		}
		if (!why.empty()) { fail("keep.readings", cat(why, "\ngrammar:\n", g, "input:\n", in, "output:\n", x)); continue; }
		// traced: every reading of the input is still accounted for
		o.trace = true;
		string y = limited(*G, in, o);
		auto c = eng::parse(y);
		auto strip = [](string r) {
			string out;
			for (auto& l : eng::lines(r)) {
				auto p = l.find(" SELECT:"), q = l.find(" REMOVE:"), z = l.find(" IFF:"), u = l.find(" RESTORE:");
				out += l.substr(0, std::min(std::min(p, q), std::min(z, u))) + "\n";
			}
			return out;
		};
		if (c.size() != a.size()) { fail("keep.trace-cohorts", cat("grammar:\n", otext(o), g, "input:\n", in, "traced output:\n", y)); continue; }
		for (size_t i = 0; i < a.size(); ++i) {
			vector<string> s, t;
			for (auto& r : a[i].rd) s.push_back(strip(r));
			for (auto& r : c[i].rd) t.push_back(strip(r));
			for (auto& r : c[i].del) t.push_back(strip(r));
			std::sort(s.begin(), s.end());
			std::sort(t.begin(), t.end());
			if (s != t) { fail("keep.trace", cat("cohort ", a[i].wf, " does not show every reading exactly once\ngrammar:\n", g, "input:\n", in, "traced output:\n", y)); break; }
		}
		sample(g);
	}
}
// what must hold of the windows in memory whenever one is printed
static string structure(GrammarApplicator& a, bool cohorts) {
	auto& g = *a.gWindow;
	vector<SingleWindow*> v(g.previous.begin(), g.previous.end());
	if (g.current) v.push_back(g.current);
	v.insert(v.end(), g.next.begin(), g.next.end());
	std::set<Cohort*> live;
	std::set<uint32_t> numbers;
	for (size_t i = 0; i < v.size(); ++i) {
		if (v[i]->previous != (i ? v[i - 1] : nullptr)) return cat("window ", i, " of ", v.size(), " has the wrong one before it");
		if (v[i]->next != (i + 1 < v.size() ? v[i + 1] : nullptr)) return cat("window ", i, " of ", v.size(), " has the wrong one after it");
		if (v[i]->parent != &g) return "a window belongs to another list of windows";
		std::set<Cohort*> all(v[i]->all_cohorts.begin(), v[i]->all_cohorts.end());
		if (all.size() != v[i]->all_cohorts.size()) return "a cohort is owned twice";
		for (auto c : all) if (!live.insert(c).second) return "a cohort is owned by two windows";
		for (size_t j = 0; j < v[i]->cohorts.size(); ++j) {
			auto c = v[i]->cohorts[j];
			if ((j == 0) != (c->wordform == a.tag_begin)) return cat("cohort ", j, j ? " is a start" : " is no start");
			if (c->local_number != j) return cat("cohort ", j, " has the number ", c->local_number);
			if (c->parent != v[i]) return cat("cohort ", j, " is in another window");
			if (!all.count(c)) return cat("cohort ", j, " is not owned by its window");
			if (j && !numbers.insert(c->global_number).second) return cat("number ", c->global_number, " is given twice");
			if (j) {
				auto f = g.cohort_map.find(c->global_number);
				if (f == g.cohort_map.end() || f->second != c) return cat("number ", c->global_number, " does not lead to its cohort");
			}
			for (auto l : { &c->readings, &c->deleted, &c->delayed, &c->ignored })
				for (auto r : *l) for (; r; r = r->next) if (r->parent != c) return cat("a reading of cohort ", j, " belongs to another cohort");
			if (c->readings.empty()) return cat("cohort ", j, " has no reading");
		}
	}
	vector<Cohort*> c;
	for (auto w : v) c.insert(c.end(), w->cohorts.begin(), w->cohorts.end());
	// while rules run; they are made again when a window's turn comes
	for (size_t i = 0; cohorts && i + 1 < c.size(); ++i) {
		if (c[i + 1]->prev != c[i]) return cat("cohort ", i + 1, " of ", c.size(), " has the wrong one before it");
		if (c[i]->next != c[i + 1]) return cat("cohort ", i, " of ", c.size(), " has the wrong one after it");
	}
	if (!cohorts) for (auto& m : g.cohort_map) if (m.second && !live.count(m.second)) return cat("number ", m.first, " leads to a cohort that is gone");
	return "";
}
// called before a set is tested on a cohort
static std::function<void(GrammarApplicator&)> matching;
static void mode_win() {
	wfeatures();
	W_struct = true;
	string g = wgrammar();
	cur(g);
	auto G = eng::load(g);
	if (!G) { ++eng::grammars_bad; return; }
	for (int it = 0; it < 3; ++it) {
		string in = winput(W_sub);
		auto o = wopt();
		cur(otext(o) + g + "---\n" + in);
		string why;
#ifdef WRAP
		size_t asked = 0;
		matching = [&](GrammarApplicator& a) {
			if (++asked > 40 && asked % 7) return;
			auto s = structure(a, true);
			if (!s.empty() && why.empty()) why = "during rules: " + s;
			++evals;
		};
#endif
		eng::seen = [&](FormatConverter& a, SingleWindow& w) {
			auto s = structure(a, false);
			if (!s.empty() && why.empty()) why = s;
			++evals;
		};
		string x = limited(*G, in, o);
		eng::seen = nullptr;
		matching = nullptr;
		if (x != in) ++distinct;
		if (!why.empty()) { fail("win.structure", cat(why, "\ngrammar:\n", otext(o), g, "input:\n", in, "output:\n", x)); continue; }
		sample(g);
	}
}
static void mode_dep() {
	W_unif = W_rel = false;
	W_dep = W_forest = true;
	W_struct = P(0.4); W_edit = P(0.2); W_map = W_var = W_del = false;
	W_misc = P(0.2); W_sub = false; W_tmpl = P(0.2);
	string g = wgrammar();
	cur(g);
	auto G = eng::load(g);
	if (!G) { ++eng::grammars_bad; return; }
	for (int it = 0; it < 3; ++it) {
		string in = winput(false);
		auto o = wopt();
		o.trace = false;
		cur(otext(o) + g + "---\n" + in);
		// every live forest is looked at, not just the printed one
		string bad;
		string x = limited(*G, in, o);
		++evals;
		if (x != in) ++distinct;
		// printed parents: within each window, #self->parent
		std::map<int, int> par;
		auto check = [&]() {
			for (auto& kv : par) {
				std::set<int> seen;
				int v = kv.first;
				while (v != 0 && par.count(v)) {
					if (!seen.insert(v).second) return false;
					v = par[v];
				}
			}
			return true;
		};
		bool good = true;
		int last = 0;
		for (auto& c : eng::parse(x)) {
			int s = -1, p = -1;
			for (auto& r : c.rd) {
				auto at = r.find("#");
				if (at != string::npos && sscanf(r.c_str() + at, "#%d->%d", &s, &p) == 2) {
					if (s <= last) { good = good && check(); par.clear(); }
					last = s;
					break;
				}
			}
			if (s >= 0 && s != p) par[s] = p;
			if (c.wf == "\"<.>\"") { good = good && check(); par.clear(); }
		}
		good = good && check();
		if (!good) fail("dep.loop", cat("grammar:\n", otext(o), g, "input:\n", in, "output:\n", x));
		sample(g);
	}
}

#ifdef WRAP
#define GA GrammarApplicator
extern "C" {
bool __real__ZN3CG317GrammarApplicator19doesSetMatchReadingERKNS_7ReadingEjbb(GA*, const Reading&, uint32_t, bool, bool);
bool __wrap__ZN3CG317GrammarApplicator19doesSetMatchReadingERKNS_7ReadingEjbb(GA*, const Reading&, uint32_t, bool, bool);
bool __real__ZN3CG317GrammarApplicator24doesSetMatchCohortNormalERNS_6CohortEjPNS_12dSMC_ContextE(GA*, Cohort&, uint32_t, dSMC_Context*);
bool __wrap__ZN3CG317GrammarApplicator24doesSetMatchCohortNormalERNS_6CohortEjPNS_12dSMC_ContextE(GA*, Cohort&, uint32_t, dSMC_Context*);
bool __real__ZN3CG317GrammarApplicator25doesSetMatchCohortCarefulERNS_6CohortEjPNS_12dSMC_ContextE(GA*, Cohort&, uint32_t, dSMC_Context*);
bool __wrap__ZN3CG317GrammarApplicator25doesSetMatchCohortCarefulERNS_6CohortEjPNS_12dSMC_ContextE(GA*, Cohort&, uint32_t, dSMC_Context*);
}
static void forget(GA* a) {
	for (auto& s : a->index_readingSet_yes) s.clear();
	for (auto& s : a->index_readingSet_no) s.clear();
	a->index_regexp_yes.clear();
	a->index_regexp_no.clear();
	a->index_icase_yes.clear();
	a->index_icase_no.clear();
}
static void possible(GA* a, Cohort& c) {
	c.possible_sets.resize(std::max(c.possible_sets.size(), a->grammar->sets_list.size()));
	c.possible_sets.set();
}
bool __wrap__ZN3CG317GrammarApplicator19doesSetMatchReadingERKNS_7ReadingEjbb(GA* a, const Reading& r, uint32_t s, bool b, bool u) {
	if (noshort) forget(a);
	return __real__ZN3CG317GrammarApplicator19doesSetMatchReadingERKNS_7ReadingEjbb(a, r, s, b, u);
}
bool __wrap__ZN3CG317GrammarApplicator24doesSetMatchCohortNormalERNS_6CohortEjPNS_12dSMC_ContextE(GA* a, Cohort& c, uint32_t s, dSMC_Context* x) {
	if (matching && a->gWindow->current && c.parent == a->gWindow->current) matching(*a);
	if (noshort) { forget(a); possible(a, c); }
	return __real__ZN3CG317GrammarApplicator24doesSetMatchCohortNormalERNS_6CohortEjPNS_12dSMC_ContextE(a, c, s, x);
}
bool __wrap__ZN3CG317GrammarApplicator25doesSetMatchCohortCarefulERNS_6CohortEjPNS_12dSMC_ContextE(GA* a, Cohort& c, uint32_t s, dSMC_Context* x) {
	if (noshort) { forget(a); possible(a, c); }
	return __real__ZN3CG317GrammarApplicator25doesSetMatchCohortCarefulERNS_6CohortEjPNS_12dSMC_ContextE(a, c, s, x);
}
#endif

int main(int argc, char** argv) {
	init(argc, argv);
	eng::init();
	string m = argc > 3 ? argv[3] : "ref";
	if (m == "run" && argc > 5) {
		// engine 1 1 run GRAMMAR INPUT [options]: what one case prints (NOSHORT=1: without the indexes)
		auto rd = [](const char* f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); };
		eng::Opt o;
		for (int i = 6; i < argc; ++i) {
			string a = argv[i];
			if (a == "-t") o.trace = true;
			if (a == "--always-span") o.span = true;
			if (a == "--unsafe") o.unsafe_ = true;
			if (a == "--num-windows") o.windows = atoi(argv[++i]);
			if (a == "--out-binary") o.bin_out = true;
			if (a == "--in-binary") o.bin_in = true;
		}
		auto G = eng::load(getenv("RECOMPILE") ? eng::compile(*eng::load(rd(argv[4]))) : rd(argv[4]));
		if (!G) { puts(eng::errs.str().c_str()); return 3; }
#ifdef WRAP
		noshort = getenv("NOSHORT");
#endif
		if (getenv("CHECK")) {
			eng::seen = [](FormatConverter& a, SingleWindow&) { auto s = structure(a, false); if (!s.empty()) fprintf(stderr, "WRONG %s\n", s.c_str()); };
			matching = [](GrammarApplicator& a) { auto s = structure(a, true); if (!s.empty()) fprintf(stderr, "WRONG %s\n", s.c_str()); };
		}
		fputs(limited(*G, rd(argv[5]), o).c_str(), stdout);
		return 0;
	}
	if (m == "rel") { mode_rel_known(); failed.clear(); }
	int rc = parallel(8, argc > 1 ? strtoull(argv[1], 0, 10) : 1, m == "win" ? 1 : 4, [&] {
		eng::errs.str("");
		if (m == "ref") mode_ref();
		else if (m == "bin") mode_bin();
		else if (m == "stream") mode_stream();
#ifdef WRAP
		else if (m == "short") mode_short();
#endif
		else if (m == "keep") mode_keep();
		else if (m == "dep") mode_dep();
		else if (m == "win") mode_win();
		else if (m == "pool") mode_pool();
		else if (m == "rel") mode_rel();
		else exit(2);
	});
	fflush(stdout);
	_exit(rc);
}
