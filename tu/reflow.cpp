#include "GrammarApplicator_reflow.cpp"
#include "offs.hpp"
OFF(Tag, comparison_op) OFF(Tag, comparison_val) OFF(Tag, type) OFF(Tag, comparison_hash) OFF(Tag, comparison_offset) OFF(Tag, hash) OFF(Tag, plain_hash) OFF(Tag, tag)
OFF(Reading, parent) OFF(Reading, hash) OFF(Reading, tags_plain) OFF(Reading, next)
OFF(Set, type) OFF(Set, number) OFF(Set, sets) OFF(Set, set_ops) OFF(Set, trie) OFF(Set, trie_special) OFF(Set, ff_tags)
OFF(Cohort, readings) OFF(Cohort, deleted) OFF(Cohort, delayed) OFF(Cohort, ignored) OFF(Cohort, possible_sets)
CST(T_NUMERIC_MATH) CST(OP_EQUALS) CST(OP_NOTEQUALS) CST(OP_LESSTHAN) CST(OP_LESSEQUALS) CST(OP_GREATERTHAN) CST(OP_GREATEREQUALS)
CST(S_OR) CST(S_PLUS) CST(S_MINUS) CST(S_FAILFAST) CST(S_SET_DIFF) CST(S_SET_ISECT_U) CST(S_SET_SYMDIFF_U)
CST(ST_ANY) CST(ST_SPECIAL) CST(ST_TAG_UNIFY) CST(ST_SET_UNIFY) CST(ST_CHILD_UNIFY) CST(ST_MAPPING)
OFF(GrammarApplicator, index_readingSet_yes) OFF(GrammarApplicator, index_readingSet_no) OFF(GrammarApplicator, grammar) OFF(GrammarApplicator, context_stack) OFF(GrammarApplicator, match_sub) OFF(GrammarApplicator, match_single)
OFF(Grammar, sets_list) OFF(Grammar, single_tags) OFF(Grammar, sets_any)
OFF(Reading, mapping)
OFF(Reading, hash_plain)
OFF(Reading, tags_string) OFF(Reading, tags_string_hash)
OFF(GrammarApplicator, index_regexp_yes) OFF(GrammarApplicator, index_regexp_no) OFF(GrammarApplicator, index_icase_yes) OFF(GrammarApplicator, index_icase_no)
OFF(Cohort, global_number) OFF(Cohort, dep_parent) OFF(Cohort, dep_self) OFF(Cohort, type) OFF(Cohort, parent) OFF(Cohort, dep_children)
OFF(Cohort, local_number) OFF(GrammarApplicator, gWindow) OFF(GrammarApplicator, dep_block_loops) OFF(GrammarApplicator, dep_block_crossing) OFF(GrammarApplicator, dep_has_spanned) OFF(GrammarApplicator, verbosity_level)
OFF(Window, cohort_map) CST(DEP_NO_PARENT) CST(CT_DEP_DONE)
