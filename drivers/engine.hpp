// Runs the real engine in-process: text or binary grammar over a stream, in CG or binary format.
#pragma once
#include "stdafx.hpp"
#include "Strings.hpp"
#include "Grammar.hpp"
#include "TextualParser.hpp"
#include "BinaryGrammar.hpp"
#include "GrammarApplicator.hpp"
#include "FormatConverter.hpp"
#include "Window.hpp"
#include "SingleWindow.hpp"
#include "Cohort.hpp"
#include "Reading.hpp"
#include "Tag.hpp"
#include "Set.hpp"
#include "Rule.hpp"
#include "ContextualTest.hpp"
#include "version.hpp"
#include "drv.hpp"
#include <unicode/uclean.h>
#include <unicode/uloc.h>
#include <unicode/ucnv.h>
namespace eng {
using namespace CG3;
inline std::ostringstream errs;
inline void init() {
	UErrorCode st = U_ZERO_ERROR;
	u_init(&st);
	drv::said = [] { return errs.str(); };
	ucnv_setDefaultName("UTF-8");
	uloc_setDefault("en_US_POSIX", &st);
}
struct Opt {
	bool trace = false, bin_in = false, bin_out = false, reload = false, span = false, unsafe_ = false;
	uint32_t windows = 2;
	bool dep = false;
};
inline int grammars_bad = 0;
inline std::unique_ptr<Grammar> load(const std::string& text) {
	auto g = std::make_unique<Grammar>();
	g->ux_stderr = &errs;
	g->ux_stdout = &errs;
	std::unique_ptr<IGrammarParser> p;
	if (text.size() > 4 && is_cg3b(text)) p.reset(new BinaryGrammar(*g, errs));
	else p.reset(new TextualParser(*g, errs));
	p->setCompatible(false);
	p->setVerbosity(0);
	if (p->parse_grammar(text.data(), text.size())) return nullptr;
	g->reindex(false, false);
	return g;
}
inline std::string compile(Grammar& g) {
	std::ostringstream out;
	BinaryGrammar w(g, errs);
	w.writeBinaryGrammar(out);
	return out.str();
}
// applies the grammar; `after` sees the applicator once everything has been printed
// called before each window is printed
inline std::function<void(FormatConverter&, SingleWindow&)> seen;
struct Applicator : FormatConverter {
	Applicator(std::ostream& e) : GrammarApplicator(e), FormatConverter(e) {}
	void printSingleWindow(SingleWindow* w, std::ostream& o, bool profiling = false) override {
		if (seen) seen(*this, *w);
		FormatConverter::printSingleWindow(w, o, profiling);
	}
};
inline std::string apply(Grammar& g, const std::string& in, const Opt& o, const std::function<void(FormatConverter&)>& before = nullptr) {
	Applicator a(errs);
	a.fmt_input = o.bin_in ? CG3SF_BINARY : CG3SF_CG;
	a.fmt_output = o.bin_out ? CG3SF_BINARY : CG3SF_CG;
	a.setGrammar(&g);
	a.trace = o.trace;
	a.always_span = o.span;
	a.unsafe = o.unsafe_;
	a.num_windows = o.windows;
	if (before) before(a);
	std::stringstream is(in);
	std::ostringstream os;
	a.runGrammarOnText(is, os);
	return os.str();
}
inline std::vector<std::string> lines(const std::string& s) {
	std::vector<std::string> v;
	std::string l;
	for (char c : s) {
		if (c == '\n') { v.push_back(l); l.clear(); }
		else l += c;
	}
	if (!l.empty()) v.push_back(l);
	return v;
}
// cohort = wordform + its readings, each a main line with its sub-reading lines
struct Coh {
	std::string wf;
	std::vector<std::string> rd;
	std::vector<std::string> del;
};
inline std::vector<Coh> parse(const std::string& out) {
	std::vector<Coh> v;
	for (auto& l : lines(out)) {
		if (l.size() > 1 && l[0] == '"' && l[1] == '<') {
			v.push_back({ l, {}, {} });
			continue;
		}
		if (v.empty() || l.empty()) continue;
		bool d = l[0] == ';';
		std::string b = d ? l.substr(1) : l;
		if (b.empty() || b[0] != '\t') continue;
		auto& t = d ? v.back().del : v.back().rd;
		if (b.size() > 1 && b[1] == '\t' && !t.empty()) t.back() += "\n" + b;
		else t.push_back(b);
	}
	return v;
}
}
