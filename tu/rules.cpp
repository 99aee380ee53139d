#include "GrammarApplicator_runRules.cpp"
#include "offs.hpp"
OFF(Reading, parent) OFF(Reading, next) OFF(Reading, hit_by)
OFF(Cohort, readings) OFF(Cohort, deleted) OFF(Cohort, delayed) OFF(Cohort, ignored) OFF(Cohort, type)
OFF(Rule, type) OFF(Rule, flags) OFF(Rule, sub_reading) OFF(Rule, number) OFF(Rule, maplist)
OFF(ReadingSpec, cohort) OFF(ReadingSpec, reading) OFF(ReadingSpec, subreading)
CST(RF_DELAYED) CST(RF_IGNORED) CST(RF_SAFE) CST(RF_UNSAFE) CST(RF_UNMAPLAST) CST(K_SELECT) CST(K_REMOVE) CST(K_IFF) CST(K_RESTORE)
OFF(GrammarApplicator, unsafe) OFF(GrammarApplicator, debug_level)
