#include "Reading.cpp"
#include "Cohort.cpp"
#include "SingleWindow.cpp"
#include "Window.cpp"
#include "offs.hpp"
#include <new>
using namespace CG3;
// the object a pool hands out again next to a new one
extern "C" void h_reading(Reading* fresh, Reading* used) { new (fresh) Reading(nullptr); used->clear(); }
extern "C" void h_cohort(Cohort* fresh, Cohort* used) { new (fresh) Cohort(nullptr); used->clear(); }
extern "C" void h_swindow(SingleWindow* fresh, SingleWindow* used) { new (fresh) SingleWindow(nullptr); used->clear(); }
extern "C" void h_copy(const Reading* from, Reading* fresh) { new (fresh) Reading(*from); }
OFF(Reading, baseform) OFF(Reading, hash) OFF(Reading, hash_plain) OFF(Reading, number) OFF(Reading, tags_string_hash) OFF(Reading, mapping) OFF(Reading, parent) OFF(Reading, next) OFF(Reading, hit_by) OFF(Reading, tags_list) OFF(Reading, tags) OFF(Reading, tags_plain) OFF(Reading, tags_textual) OFF(Reading, tags_bloom) OFF(Reading, tags_plain_bloom) OFF(Reading, tags_textual_bloom) OFF(Reading, tags_numerical) OFF(Reading, tags_string)
OFF(Cohort, type) OFF(Cohort, global_number) OFF(Cohort, local_number) OFF(Cohort, is_pleft) OFF(Cohort, is_pright) OFF(Cohort, dep_self) OFF(Cohort, dep_parent) OFF(Cohort, line_number) OFF(Cohort, wordform) OFF(Cohort, parent) OFF(Cohort, prev) OFF(Cohort, next) OFF(Cohort, wread) OFF(Cohort, enclosed) OFF(Cohort, readings) OFF(Cohort, deleted) OFF(Cohort, delayed) OFF(Cohort, ignored) OFF(Cohort, dep_children) OFF(Cohort, num_max) OFF(Cohort, num_min) OFF(Cohort, text) OFF(Cohort, wblank) OFF(Cohort, possible_sets) OFF(Cohort, relations) OFF(Cohort, relations_input)
OFF(SingleWindow, number) OFF(SingleWindow, has_enclosures) OFF(SingleWindow, flush_after) OFF(SingleWindow, next) OFF(SingleWindow, previous) OFF(SingleWindow, parent) OFF(SingleWindow, all_cohorts) OFF(SingleWindow, cohorts) OFF(SingleWindow, valid_rules) OFF(SingleWindow, hit_external) OFF(SingleWindow, variables_output) OFF(SingleWindow, text) OFF(SingleWindow, text_post) OFF(SingleWindow, variables_set) OFF(SingleWindow, variables_rem) OFF(SingleWindow, rule_to_cohorts) OFF(SingleWindow, nested_rule_to_cohorts) OFF(SingleWindow, bag_of_tags)
OFF(GrammarApplicator, dep_highest_seen) OFF(Window, current) OFF(Window, next) OFF(Window, previous) OFF(Window, parent) OFF(Window, window_counter) OFF(Window, cohort_map) OFF(Window, dep_window)
SZ(Reading) SZ(Cohort) SZ(SingleWindow)
