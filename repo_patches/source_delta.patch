From b5246c4dc2613768cd2ca13aee05af95b46663cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 01/45] fix: interval_vector: count insertions at the front in
 size()

---
 src/interval_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/interval_vector.hpp b/src/interval_vector.hpp
index 3089415..ff0a00a 100644
--- a/src/interval_vector.hpp
+++ b/src/interval_vector.hpp
@@ -174,6 +174,7 @@ public:
 	bool insert(T t) {
 		if (elements.empty()) {
 			elements.emplace_back(interval(t));
+			++_size;
 			return true;
 		}
 		auto it = std::lower_bound(elements.begin(), elements.end(), t);
@@ -190,6 +191,7 @@ public:
 			else {
 				elements.insert(it, interval(t));
 			}
+			++_size;
 			return true;
 		}
 		auto pr = it - 1;
-- 
2.43.0


From f96ee4ef655c7e3901ab1d65ef1d11d95e17760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 02/45] fix: interval_vector: inserting 0 before an interval
 ending at the maximum value corrupted it

---
 src/interval_vector.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/interval_vector.hpp b/src/interval_vector.hpp
index ff0a00a..8df2d98 100644
--- a/src/interval_vector.hpp
+++ b/src/interval_vector.hpp
@@ -182,10 +182,7 @@ public:
 			return false;
 		}
 		if (it == elements.begin()) {
-			if (it->ub + 1 == t) {
-				++it->ub;
-			}
-			else if (it->lb - 1 == t) {
+			if (it->lb - 1 == t) {
 				--it->lb;
 			}
 			else {
-- 
2.43.0


From 003467454c70deb431b56a8e8c4691e412c3d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 03/45] fix: interval_vector: assigning an iterator must also
 take over its container

---
 src/interval_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interval_vector.hpp b/src/interval_vector.hpp
index 8df2d98..736e888 100644
--- a/src/interval_vector.hpp
+++ b/src/interval_vector.hpp
@@ -97,6 +97,7 @@ public:
 		}
 
 		const_iterator& operator=(const const_iterator& o) {
+			elements = o.elements;
 			it = o.it;
 			t = o.t;
 			return *this;
-- 
2.43.0


From e5ae7ff4ad1bc9d6fa66bd274f36584772065311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 04/45] fix: interval_vector: erase wrote through an iterator
 that insert may have invalidated

---
 src/interval_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interval_vector.hpp b/src/interval_vector.hpp
index 736e888..878dc46 100644
--- a/src/interval_vector.hpp
+++ b/src/interval_vector.hpp
@@ -249,8 +249,9 @@ public:
 			return true;
 		}
 		if (it->lb < t && it->ub > t) {
-			elements.insert(it + 1, interval(t + 1, it->ub));
+			const T ub = it->ub;
 			it->ub = t - 1;
+			elements.insert(it + 1, interval(t + 1, ub));
 			--_size;
 			return true;
 		}
-- 
2.43.0


From 9a328642db9c38c6ecfc90e1113c6fb99a42a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 05/45] fix: flat_unordered_set/map: erase of an absent key
 never returned when no free slot was left

---
 src/flat_unordered_map.hpp | 5 +++++
 src/flat_unordered_set.hpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/flat_unordered_map.hpp b/src/flat_unordered_map.hpp
index f4ef313..4a51122 100644
--- a/src/flat_unordered_map.hpp
+++ b/src/flat_unordered_map.hpp
@@ -171,6 +171,11 @@ public:
 		if (size_ == 0) {
 			return;
 		}
+
+		if (deleted && size_ + deleted == capacity()) {
+			reserve(capacity());
+		}
+
 		size_t max = capacity() - 1;
 		size_t spot = hash_value(t) & max;
 		while (elements[spot].first != res_empty && elements[spot].first != t) {
diff --git a/src/flat_unordered_set.hpp b/src/flat_unordered_set.hpp
index 8f68cb9..52bc419 100644
--- a/src/flat_unordered_set.hpp
+++ b/src/flat_unordered_set.hpp
@@ -167,6 +167,11 @@ public:
 		if (size_ == 0) {
 			return;
 		}
+
+		if (deleted && size_ + deleted == capacity()) {
+			reserve(capacity());
+		}
+
 		size_t max = capacity() - 1;
 		size_t spot = hash_value(t) & max;
 		while (elements[spot] != res_empty && elements[spot] != t) {
-- 
2.43.0


From af6db57c1d791115f08753b1701b94e137e38164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 06/45] fix: flat_unordered_set/map: growing an emptied
 container left a deleted slot uncounted

---
 src/flat_unordered_map.hpp | 3 +--
 src/flat_unordered_set.hpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/flat_unordered_map.hpp b/src/flat_unordered_map.hpp
index 4a51122..68ab5d2 100644
--- a/src/flat_unordered_map.hpp
+++ b/src/flat_unordered_map.hpp
@@ -295,8 +295,7 @@ public:
 
 	void reserve(size_type n) {
 		if (size_ == 0) {
-			elements.resize(n, std::make_pair(res_empty, V()));
-			deleted = 0;
+			clear(n);
 			return;
 		}
 
diff --git a/src/flat_unordered_set.hpp b/src/flat_unordered_set.hpp
index 52bc419..d348c8b 100644
--- a/src/flat_unordered_set.hpp
+++ b/src/flat_unordered_set.hpp
@@ -264,8 +264,7 @@ public:
 
 	void reserve(size_type n) {
 		if (size_ == 0) {
-			elements.resize(n, res_empty);
-			deleted = 0;
+			clear(n);
 			return;
 		}
 
-- 
2.43.0


From 9dc1d346cca919888f72fbc6f7c9a1512c646eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 07/45] fix: matches found during tag unification must not
 enter the set match index

---
 src/GrammarApplicator_matchSet.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 7b6e5d9..deb3813 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -833,11 +833,12 @@ bool GrammarApplicator::doesSetMatchReading(const Reading& reading, const uint32
 	}
 
 	// Store the result in the indexes in hopes that later runs can pull it directly from them.
-	if (retval) {
-		index_readingSet_yes[set].insert(reading.hash);
-	}
-	else {
-		if (!(theset.type & ST_TAG_UNIFY) && !unif_mode) {
+	// Results obtained during unification depend on what was unified so far, so those must not be stored.
+	if (!(theset.type & ST_TAG_UNIFY) && !unif_mode) {
+		if (retval) {
+			index_readingSet_yes[set].insert(reading.hash);
+		}
+		else {
 			index_readingSet_no[set].insert(reading.hash);
 		}
 	}
-- 
2.43.0


From 8b6b14f0d8735d5c0f57f797a568157e03ed50aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 08/45] fix: a recycled cohort kept the ignored readings of its
 previous life

---
 src/Cohort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Cohort.cpp b/src/Cohort.cpp
index b515dc6..111f4e1 100644
--- a/src/Cohort.cpp
+++ b/src/Cohort.cpp
@@ -129,6 +129,7 @@ void Cohort::clear() {
 	readings.clear();
 	deleted.clear();
 	delayed.clear();
+	ignored.clear();
 	wread = nullptr;
 }
 
-- 
2.43.0


From 7db257c2ff444da1f08c941c8f6bc856de85661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 09/45] fix: RESTORE matched its set through the index even
 when the set depends on context

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index faaff84..6ff359c 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1858,7 +1858,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				bool did_restore = false;
 				auto move_rs = [&](ReadingList& rl) {
 					for (size_t i = 0; i < rl.size();) {
-						if (doesSetMatchReading(*rl[i], rule->maplist->number)) {
+						if (doesSetMatchReading(*rl[i], rule->maplist->number, (rule->maplist->type & (ST_CHILD_UNIFY | ST_SPECIAL)) != 0)) {
 							rl[i]->deleted = false;
 							rl[i]->hit_by.push_back(rule->number);
 							get_apply_to().cohort->readings.push_back(rl[i]);
-- 
2.43.0


From 2b5479af468c3694c001f93127655b2406fa623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 10/45] fix: tests of sub-readings were skipped once the main
 readings had failed the same set

---
 src/GrammarApplicator_matchSet.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index deb3813..b1efa1b 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -946,7 +946,10 @@ inline bool GrammarApplicator::doesSetMatchCohort_helper(Cohort& cohort, Reading
 bool GrammarApplicator::doesSetMatchCohortNormal(Cohort& cohort, const uint32_t set, dSMC_Context* context) {
 	bool retval = false;
 
-	if (!(!context || (context->options & (POS_LOOK_DELETED | POS_LOOK_DELAYED | POS_LOOK_IGNORED | POS_NOT))) && (set >= cohort.possible_sets.size() || !cohort.possible_sets.test(set))) {
+	// possible_sets only speaks for the main readings, so it cannot rule out sub-readings
+	bool is_sub = (context && context->test && (context->test->offset_sub != 0));
+
+	if (!is_sub && !(!context || (context->options & (POS_LOOK_DELETED | POS_LOOK_DELAYED | POS_LOOK_IGNORED | POS_NOT))) && (set >= cohort.possible_sets.size() || !cohort.possible_sets.test(set))) {
 		return retval;
 	}
 
@@ -1012,8 +1015,7 @@ bool GrammarApplicator::doesSetMatchCohortNormal(Cohort& cohort, const uint32_t
 
 	if (context && !context->matched_target && !(context->options & (POS_ACTIVE | POS_INACTIVE))) {
 		if (!grammar->sets_any || set >= grammar->sets_any->size() || !grammar->sets_any->test(set)) {
-			bool was_sub = (context->test && (context->test->offset_sub != 0));
-			if (!was_sub && set < cohort.possible_sets.size()) {
+			if (!is_sub && set < cohort.possible_sets.size()) {
 				cohort.possible_sets.reset(set);
 			}
 		}
@@ -1025,7 +1027,10 @@ bool GrammarApplicator::doesSetMatchCohortNormal(Cohort& cohort, const uint32_t
 bool GrammarApplicator::doesSetMatchCohortCareful(Cohort& cohort, const uint32_t set, dSMC_Context* context) {
 	bool retval = false;
 
-	if (!(!context || (context->options & (POS_LOOK_DELETED | POS_LOOK_DELAYED | POS_LOOK_IGNORED | POS_NOT))) && (set >= cohort.possible_sets.size() || !cohort.possible_sets.test(set))) {
+	// possible_sets only speaks for the main readings, so it cannot rule out sub-readings
+	bool is_sub = (context && context->test && (context->test->offset_sub != 0));
+
+	if (!is_sub && !(!context || (context->options & (POS_LOOK_DELETED | POS_LOOK_DELAYED | POS_LOOK_IGNORED | POS_NOT))) && (set >= cohort.possible_sets.size() || !cohort.possible_sets.test(set))) {
 		return retval;
 	}
 
-- 
2.43.0


From 232c0a8c682baf4e121f5d504b1d344658db18e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 11/45] fix: a barrier that failed on the readings made later
 tests miss the cohort's static tags

---
 src/GrammarApplicator_matchSet.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index b1efa1b..f1de693 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -1013,7 +1013,10 @@ bool GrammarApplicator::doesSetMatchCohortNormal(Cohort& cohort, const uint32_t
 		retval = doesSetMatchCohort_testLinked(cohort, *theset, context);
 	}
 
-	if (context && !context->matched_target && !(context->options & (POS_ACTIVE | POS_INACTIVE))) {
+	// Barriers don't look at the cohort's static tags, so the set may still match those
+	bool saw_all = !(cohort.wread && context && context->in_barrier);
+
+	if (context && saw_all && !context->matched_target && !(context->options & (POS_ACTIVE | POS_INACTIVE))) {
 		if (!grammar->sets_any || set >= grammar->sets_any->size() || !grammar->sets_any->test(set)) {
 			if (!is_sub && set < cohort.possible_sets.size()) {
 				cohort.possible_sets.reset(set);
-- 
2.43.0


From 5d343edda1e647d64021abed36970d188612d091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 12/45] fix: restored readings stayed invisible to sets and
 rules that had been ruled out without them

---
 src/GrammarApplicator_runRules.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 6ff359c..8391b83 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1862,6 +1862,14 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							rl[i]->deleted = false;
 							rl[i]->hit_by.push_back(rule->number);
 							get_apply_to().cohort->readings.push_back(rl[i]);
+							// The cohort may have been ruled out for sets and rules while this reading was gone
+							reflowReading(*rl[i]);
+							for (auto tter : rl[i]->tags_list) {
+								if (updateValidRules(rules, intersects, tter, *rl[i])) {
+									iter_rules = intersects.find(rule->number);
+									iter_rules_end = intersects.end();
+								}
+							}
 							rl.erase(rl.begin() + i);
 							did_restore = true;
 						}
@@ -1882,6 +1890,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				}
 
 				if (did_restore) {
+					index_ruleCohort_no.clear();
 					TRACE;
 				}
 				finish_reading_loop = false;
-- 
2.43.0


From 38ef332e14068467d1c0b920c626dad604897856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 13/45] fix: an IFF rule that could not remove anything removed
 the readings in the next cohort instead

---
 src/GrammarApplicator_runRules.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 8391b83..3d6f9a5 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1367,6 +1367,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					readings_changed = true;
 				}
 				selected.clear();
+				removed.clear();
 			}
 			else if (rule->type == K_REMOVE || rule->type == K_IFF) {
 				if (!removed.empty() && (removed.size() < get_apply_to().cohort->readings.size() || (unsafe && !(rule->flags & RF_SAFE)) || (rule->flags & RF_UNSAFE))) {
@@ -1400,6 +1401,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					initEmptyCohort(*get_apply_to().cohort);
 				}
 				selected.clear();
+				removed.clear();
 			}
 			else if (rule->type == K_JUMP) {
 				auto to = getTagList(*rule->maplist).front();
-- 
2.43.0


From c6f6b418f1a3beafe0d6f5e3474288f3fe12a5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:49 +0000
Subject: [PATCH 14/45] fix: barriers of NOT tests were tested inverted

---
 src/GrammarApplicator_runContextualTest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index 55e0417..cd4ae4a 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -97,7 +97,7 @@ Cohort* GrammarApplicator::runSingleTest(Cohort* cohort, const ContextualTest* t
 	context.origin = nullptr;
 	context.did_test = true;
 	if (test->barrier && cohort) {
-		dSMC_Context context = { nullptr, nullptr, nullptr, test->pos & ~POS_CAREFUL, false, false, false, true };
+		dSMC_Context context = { nullptr, nullptr, nullptr, test->pos & ~(POS_CAREFUL | POS_NOT), false, false, false, true };
 		bool barrier = doesSetMatchCohortNormal(*cohort, test->barrier, &context);
 		if (barrier) {
 			seen_barrier = true;
@@ -106,7 +106,7 @@ Cohort* GrammarApplicator::runSingleTest(Cohort* cohort, const ContextualTest* t
 		}
 	}
 	if (test->cbarrier && cohort) {
-		dSMC_Context context = { nullptr, nullptr, nullptr, test->pos | POS_CAREFUL, false, false, false, true };
+		dSMC_Context context = { nullptr, nullptr, nullptr, (test->pos | POS_CAREFUL) & ~POS_NOT, false, false, false, true };
 		bool cbarrier = doesSetMatchCohortCareful(*cohort, test->cbarrier, &context);
 		if (cbarrier) {
 			seen_barrier = true;
-- 
2.43.0


From c05e786822c0b180f13ab349c39bba760d3e22fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 15/45] fix: appending to or splitting a set lost and mangled
 compound tags below the second trie level

---
 src/TagTrie.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/TagTrie.hpp b/src/TagTrie.hpp
index 79d5f97..b08f3fa 100644
--- a/src/TagTrie.hpp
+++ b/src/TagTrie.hpp
@@ -176,14 +176,16 @@ inline void trie_getTags(const trie_t& trie, TagVectorSet& rv, TagVector& tv) {
 	for (auto& kv : trie) {
 		tv.push_back(kv.first);
 		if (kv.second.terminal) {
-			std::sort(tv.begin(), tv.end(), compare_Tag());
-			rv.insert(tv);
+			TagVector sorted(tv);
+			std::sort(sorted.begin(), sorted.end(), compare_Tag());
+			rv.insert(std::move(sorted));
 			tv.pop_back();
 			continue;
 		}
 		if (kv.second.trie) {
 			trie_getTags(*kv.second.trie, rv, tv);
 		}
+		tv.pop_back();
 	}
 }
 
@@ -216,6 +218,7 @@ inline void trie_getTagsOrdered(const trie_t& trie, TagVectorSet& rv, TagVector&
 		if (kv.second.trie) {
 			trie_getTagsOrdered(*kv.second.trie, rv, tv);
 		}
+		tv.pop_back();
 	}
 }
 
-- 
2.43.0


From 40a8d78203ac5d9e5bb4dee016c54a9970d618ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 16/45] fix: adding a single tag to a set left the compound
 tags it subsumes behind, to be picked over it when sets merge

---
 src/Grammar.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Grammar.cpp b/src/Grammar.cpp
index 1dc50f4..83e56d9 100644
--- a/src/Grammar.cpp
+++ b/src/Grammar.cpp
@@ -591,10 +591,14 @@ void Grammar::addTagToSet(Tag* rtag, Set* set) {
 	}
 	if (rtag->type & T_SPECIAL) {
 		set->type |= ST_SPECIAL;
-		set->trie_special[rtag].terminal = true;
+		auto& node = set->trie_special[rtag];
+		node.terminal = true;
+		node.trie.reset();
 	}
 	else {
-		set->trie[rtag].terminal = true;
+		auto& node = set->trie[rtag];
+		node.terminal = true;
+		node.trie.reset();
 	}
 }
 
-- 
2.43.0


From 5692a55954c8e73ff59187779fbc762856569965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 17/45] fix: REPLACE crashed on a reading whose baseform had
 been substituted away

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 3d6f9a5..e9cc007 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1925,7 +1925,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				for (auto tter : *excepts) {
 					addTagToReading(reading, tter);
 				}
-				if (!reading.baseform) {
+				if (!reading.baseform && bform) {
 					addTagToReading(reading, bform);
 				}
 
-- 
2.43.0


From 6101b8bcc7db8d0a5390d9991bb8a52401debec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 18/45] fix: rule targets past the last cohort were looked up
 after that cohort was removed

---
 src/GrammarApplicator_runRules.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index e9cc007..1def8c0 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -531,7 +531,11 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 			override_cohortset();
 			cohortsets.back() = cohortset;
 			auto gac = get_apply_to().cohort;
-			auto lb = cohortset->lower_bound(current.cohorts[gac->local_number]);
+			auto lb = cohortset->end();
+			if (gac->local_number < current.cohorts.size()) {
+				// Otherwise it was the last cohort of the window and is gone
+				lb = cohortset->lower_bound(current.cohorts[gac->local_number]);
+			}
 			if (lb == cohortset->end()) {
 				rocit = cohortset->size();
 			} else {
-- 
2.43.0


From 256848ee8a6b6639ab3f2a0b212071fac5201701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 19/45] fix: tests of self after a jump looked in the window of
 the rule instead of the window jumped to

---
 src/GrammarApplicator_runContextualTest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runContextualTest.cpp b/src/GrammarApplicator_runContextualTest.cpp
index cd4ae4a..4270434 100644
--- a/src/GrammarApplicator_runContextualTest.cpp
+++ b/src/GrammarApplicator_runContextualTest.cpp
@@ -307,7 +307,7 @@ Cohort* GrammarApplicator::runContextualTest(SingleWindow* sWindow, size_t posit
 			}
 		}
 		if (j) {
-			sWindow = j->parent;
+			orgSWin = sWindow = j->parent;
 			position = j->local_number;
 		}
 		else {
-- 
2.43.0


From e0761328c675c2def67ba68a177bdf9e0543e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 20/45] fix: SUBSTITUTE removed a leftover tag of an earlier
 rule when none of its own tags were present

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 1def8c0..badd76d 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1958,7 +1958,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				for (size_t i = 0; i < get_apply_to().subreading->tags_list.size();) {
 					auto& remter = get_apply_to().subreading->tags_list[i];
 
-					if (plain && remter == (*theTags->begin())->hash) {
+					if (plain && !theTags->empty() && remter == (*theTags->begin())->hash) {
 						if (get_apply_to().subreading->baseform == remter) {
 							get_apply_to().subreading->baseform = 0;
 						}
-- 
2.43.0


From d6c682eb13e2aba443df0371ae1b33fb76d36742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 21/45] fix: MERGECOHORTS removed the window's start marker
 when a NOT or NEGATE test matched no cohort

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index badd76d..477ed6a 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2252,7 +2252,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 					profileRuleContext(test_good, rule, it);
 
-					if (!test_good) {
+					if (!test_good || attach->local_number == 0 || (merge_with && merge_with->local_number == 0)) {
 						finish_reading_loop = false;
 						return;
 					}
-- 
2.43.0


From 0e93c208c5204c814c75079676ad4b2d7f13bd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 22/45] fix: variable tags crashed when tested in a bag of tags

---
 src/GrammarApplicator_matchSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index f1de693..6ffbe6d 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -483,7 +483,7 @@ uint32_t GrammarApplicator::doesTagMatchReading(const Reading& reading, const Ta
 	else if (tag.type & (T_VARIABLE|T_LOCAL_VARIABLE)) {
 		match = 0;
 		auto& vars = [&]() -> auto& {
-			if (reading.parent->parent == gWindow->current || !(tag.type & T_LOCAL_VARIABLE)) {
+			if (!(tag.type & T_LOCAL_VARIABLE) || !reading.parent || reading.parent->parent == gWindow->current) {
 				return variables;
 			}
 			return reading.parent->parent->variables_set;
-- 
2.43.0


From 9ef1fb2c38cc9a94c4feff8943e126fbb728b84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 23/45] fix: removing, splitting, and switching cohorts crashed
 if their dependency parent or child was in a window already gone

---
 src/GrammarApplicator_runRules.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 477ed6a..1ce090b 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1192,11 +1192,14 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			// ToDo: Named relations must be erased
 			while (!cohort->dep_children.empty()) {
 				uint32_t ch = cohort->dep_children.back();
-				if (cohort->dep_parent == DEP_NO_PARENT) {
-					attachParentChild(*gWindow->cohort_map[0], *gWindow->cohort_map[ch], true, true);
-				}
-				else {
-					attachParentChild(*gWindow->cohort_map[cohort->dep_parent], *gWindow->cohort_map[ch], true, true);
+				// Either end may have left with an earlier window
+				auto child = gWindow->cohort_map.find(ch);
+				if (child != gWindow->cohort_map.end()) {
+					auto parent = gWindow->cohort_map.find(cohort->dep_parent);
+					if (parent == gWindow->cohort_map.end()) {
+						parent = gWindow->cohort_map.find(0);
+					}
+					attachParentChild(*parent->second, *child->second, true, true);
 				}
 				cohort->dep_children.erase(ch);
 			}
@@ -1746,7 +1749,10 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					if (cohort_dep[i].first == DEP_NO_PARENT) {
 						while (!get_apply_to().cohort->dep_children.empty()) {
 							uint32_t ch = get_apply_to().cohort->dep_children.back();
-							attachParentChild(*cCohort, *current.parent->cohort_map[ch], true, true);
+							auto child = current.parent->cohort_map.find(ch);
+							if (child != current.parent->cohort_map.end()) {
+								attachParentChild(*cCohort, *child->second, true, true);
+							}
 							get_apply_to().cohort->dep_children.erase(ch); // Just in case the attachment can't be made for some reason
 						}
 					}
@@ -2678,11 +2684,16 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			else if (rule->type == K_SWITCHPARENT) {
 				// this is a per-cohort rule
 				finish_reading_loop = false;
-				TRACE;
 
 				// collect cohorts
 				Cohort* child = get_apply_to().cohort;
-				Cohort* parent = current.parent->cohort_map[child->dep_parent];
+				auto pit = current.parent->cohort_map.find(child->dep_parent);
+				if (pit == current.parent->cohort_map.end()) {
+					// There is no parent to switch places with
+					return;
+				}
+				TRACE;
+				Cohort* parent = pit->second;
 				auto grandparent_number = parent->dep_parent;
 				CohortSet siblings;
 				for (auto iter : current.cohorts) {
-- 
2.43.0


From e9f510b73cc536a3428efe8218a6778c37040479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 24/45] fix: after MERGECOHORTS the next target was skipped
 when the merged cohort is itself no target

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 1ce090b..8262472 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -541,7 +541,7 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 			} else {
 				rocit = cohortset->find_n(*lb);
 			}
-			if (!(gac->type & (CT_REMOVED | CT_IGNORED)) && rocit < cohortset->size()) {
+			if (!(gac->type & (CT_REMOVED | CT_IGNORED)) && rocit < cohortset->size() && cohortset->at(rocit) == gac) {
 				++rocit;
 			}
 		};
-- 
2.43.0


From 6613137dfee5b8fc18918407fd5936ae12da2855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 25/45] fix: readings that only differed in a tag moved to or
 from the sub-reading were dropped as duplicates

---
 src/GrammarApplicator_reflow.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index aa9c194..36750bc 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -709,14 +709,10 @@ void GrammarApplicator::mergeReadings(ReadingList& readings) {
 		}
 		Reading* sub = r->next;
 		while (sub) {
-			if (ordered) {
-				hp = hash_value(sub->tags_string_hash, hp);
-				hplain = hash_value(sub->tags_string_hash, hplain);
-			}
-			else {
-				hp = hash_value(sub->hash_plain, hp);
-				hplain = hash_value(sub->hash_plain, hplain);
-			}
+			// The 32 bit hash_value() is linear, so with it moving a tag between a reading and its sub-reading could yield the same hash
+			uint64_t hs = UI64(ordered ? sub->tags_string_hash : sub->hash_plain) << 32;
+			hp = hash_value(hs | hp);
+			hplain = hash_value(hs | hplain);
 			if (trace) {
 				for (auto iter_hb : sub->hit_by) {
 					hp = hash_value(iter_hb, hp);
-- 
2.43.0


From 8317ffd2c8c3bc14da993096570fee6274ac040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 26/45] fix: the set match index confused readings that only
 differed in a tag moved to or from the sub-reading

---
 src/GrammarApplicator_matchSet.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 6ffbe6d..3bb97cf 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -715,15 +715,18 @@ bool GrammarApplicator::doesSetMatchReading_tags(const Reading& reading, const S
  * @param[in] unif_mode Used to signal that a parent set was a $$unified set
  */
 bool GrammarApplicator::doesSetMatchReading(const Reading& reading, const uint32_t set, bool bypass_index, bool unif_mode) {
+	// Sub-readings take no part in the test, and must be kept out of the key as a tag moved between a reading and its sub-reading could yield the same hash
+	const uint32_t key = (reading.mapping ? hash_value(reading.mapping->hash, reading.hash_plain) : reading.hash_plain);
+
 	// Check whether we have previously seen that this set matches or doesn't match this reading.
 	// These indexes are cleared every ((num_windows+4)*2+1) windows to avoid memory ballooning.
 	// Only 30% of tests get past this.
 	// ToDo: This is not good enough...while numeric tags are special, their failures can be indexed.
 	if (!bypass_index && !unif_mode) {
-		if (index_readingSet_no[set].contains(reading.hash)) {
+		if (index_readingSet_no[set].contains(key)) {
 			return false;
 		}
-		if (index_readingSet_yes[set].contains(reading.hash)) {
+		if (index_readingSet_yes[set].contains(key)) {
 			return true;
 		}
 	}
@@ -836,10 +839,10 @@ bool GrammarApplicator::doesSetMatchReading(const Reading& reading, const uint32
 	// Results obtained during unification depend on what was unified so far, so those must not be stored.
 	if (!(theset.type & ST_TAG_UNIFY) && !unif_mode) {
 		if (retval) {
-			index_readingSet_yes[set].insert(reading.hash);
+			index_readingSet_yes[set].insert(key);
 		}
 		else {
-			index_readingSet_no[set].insert(reading.hash);
+			index_readingSet_no[set].insert(key);
 		}
 	}
 
-- 
2.43.0


From b1fb10e486ddc404787cf9ac6931c8824fa5db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 27/45] fix: rules for sub-readings were not run on cohorts
 whose main readings had failed their set in an earlier test

---
 src/GrammarApplicator_matchSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_matchSet.cpp b/src/GrammarApplicator_matchSet.cpp
index 3bb97cf..dea6008 100644
--- a/src/GrammarApplicator_matchSet.cpp
+++ b/src/GrammarApplicator_matchSet.cpp
@@ -1021,7 +1021,9 @@ bool GrammarApplicator::doesSetMatchCohortNormal(Cohort& cohort, const uint32_t
 
 	if (context && saw_all && !context->matched_target && !(context->options & (POS_ACTIVE | POS_INACTIVE))) {
 		if (!grammar->sets_any || set >= grammar->sets_any->size() || !grammar->sets_any->test(set)) {
-			if (!is_sub && set < cohort.possible_sets.size()) {
+			// Which rules will run at all is read from possible_sets too, so sub-readings that were not looked at must keep their sets
+			bool has_sub = std::any_of(cohort.readings.begin(), cohort.readings.end(), [](const Reading* r) { return r->next != nullptr; });
+			if (!is_sub && !has_sub && set < cohort.possible_sets.size()) {
 				cohort.possible_sets.reset(set);
 			}
 		}
-- 
2.43.0


From 33127ccd7998bd3f56db2ffc49ec4e72c0da2a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 28/45] fix: relations crashed on a window without cohorts, as
 at the end of input with pending variables

---
 src/GrammarApplicator_reflow.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_reflow.cpp b/src/GrammarApplicator_reflow.cpp
index 36750bc..5b6c12c 100644
--- a/src/GrammarApplicator_reflow.cpp
+++ b/src/GrammarApplicator_reflow.cpp
@@ -295,7 +295,8 @@ void GrammarApplicator::reflowRelationWindow(uint32_t max) {
 		max = gWindow->next.back()->cohorts[0]->global_number;
 	}
 
-	Cohort* cohort = gWindow->current->cohorts[1];
+	// A window can be empty, e.g. if the input ends with a stream command that sets variables
+	Cohort* cohort = gWindow->current->cohorts.back();
 	while (cohort->prev) {
 		cohort = cohort->prev;
 	}
-- 
2.43.0


From a187003b3b6c99cf4002c316c8a69ff4302ff4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:47 +0000
Subject: [PATCH 29/45] fix: whether a copied sub-reading stayed protected
 depended on the object pool

---
 src/Reading.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Reading.cpp b/src/Reading.cpp
index a0dad37..83b85b3 100644
--- a/src/Reading.cpp
+++ b/src/Reading.cpp
@@ -48,8 +48,8 @@ Reading* alloc_reading(const Reading& o) {
 		r->noprint = o.noprint;
 		r->matched_target = false;
 		r->matched_tests = false;
-		r->immutable = false;
-		r->active = false;
+		r->immutable = o.immutable;
+		r->active = o.active;
 		r->baseform = o.baseform;
 		r->hash = o.hash;
 		r->hash_plain = o.hash_plain;
-- 
2.43.0


From 6cecc1b3c6c0f8aae9f61568054474fd012bf737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 30/45] fix: after WITH changed one cohort but not a later one,
 the remaining rules of the section were not run

---
 src/GrammarApplicator_runRules.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 8262472..6059f71 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2887,7 +2887,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			}
 			else if (rule->type == K_WITH) {
 				TRACE;
-				bool any_readings_changed = false;
+				// May already be set from running this rule on earlier cohorts
+				bool any_readings_changed = readings_changed;
 				readings_changed = false;
 				in_nested = true;
 				for (auto& sr : rule->sub_rules) {
-- 
2.43.0


From fbda486612b680616d9d9cbe18ee0e666de84b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 31/45] fix: rules following a WITH nested in a WITH were run
 on every cohort of the window

---
 src/GrammarApplicator_runRules.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 6059f71..07632b9 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2890,6 +2890,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				// May already be set from running this rule on earlier cohorts
 				bool any_readings_changed = readings_changed;
 				readings_changed = false;
+				bool was_nested = in_nested;
 				in_nested = true;
 				for (auto& sr : rule->sub_rules) {
 					Rule* cur_was = current_rule;
@@ -2905,7 +2906,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					current_rule = cur_was;
 					rule = rule_was;
 				}
-				in_nested = false;
+				in_nested = was_nested;
 				readings_changed = any_readings_changed;
 				finish_reading_loop = false;
 			}
-- 
2.43.0


From 10b1c7fe3bace499e6319aabc5f2204100768c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 32/45] fix: rules stayed ruled out for a cohort when their set
 came to match by a tag being removed

---
 src/Grammar.cpp                    | 7 +++++++
 src/GrammarApplicator_runRules.cpp | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Grammar.cpp b/src/Grammar.cpp
index 83e56d9..bcb177f 100644
--- a/src/Grammar.cpp
+++ b/src/Grammar.cpp
@@ -1151,6 +1151,13 @@ void Grammar::indexSets(uint32_t r, Set* s) {
 		indexTagToSet(tag_any, r);
 		return;
 	}
+	// Sets with a negated part may start matching when a tag is removed, so no lack of tags can rule them out
+	for (auto op : s->set_ops) {
+		if (op == S_MINUS || op == S_FAILFAST) {
+			indexTagToSet(tag_any, r);
+			return;
+		}
+	}
 
 	trie_indexToSet(s->trie, *this, r);
 	trie_indexToSet(s->trie_special, *this, r);
diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 07632b9..2866ed7 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -797,7 +797,9 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 
 		// If none of the readings were valid targets, remove this cohort from the rule's possible cohorts.
 		if (num_active == 0 && (num_iff == 0 || rule.type != K_IFF)) {
-			if (num_immutable == 0 && !matched_target) {
+			// ...except if the target could come to match without any tags being added.
+			bool may_match_later = (grammar->sets_any && rule.target < grammar->sets_any->size() && grammar->sets_any->test(rule.target));
+			if (num_immutable == 0 && !matched_target && !may_match_later) {
 				--rocit;                         // We have already incremented rocit earlier, so take one step back...
 				cohortset->erase_n(rocit); // ...and one step forward again
 			}
-- 
2.43.0


From 2760a0dee91767c645a99ba8f52b084b833f1b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:15 +0000
Subject: [PATCH 33/45] fix: a rule was run on the current cohort again when
 its cohort list grew before it

---
 src/GrammarApplicator_runRules.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 2866ed7..49d5ed0 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -78,7 +78,6 @@ bool GrammarApplicator::updateRuleToCohorts(Cohort& c, const uint32_t& rsit) {
 		csi.push_back(i);
 	}
 	if (!csi.empty()) {
-		auto cap = cohortset.capacity();
 		std::vector<size_t*> ends;
 		std::vector<std::pair<size_t*,Cohort*>> chs;
 		for (size_t i = 0; i < csi.size(); ++i) {
@@ -93,10 +92,8 @@ bool GrammarApplicator::updateRuleToCohorts(Cohort& c, const uint32_t& rsit) {
 		for (auto it : ends) {
 			*it = cohortset.size();
 		}
-		if (cap != cohortset.capacity()) {
-			for (auto& it : chs) {
-				*it.first = cohortset.find_n(it.second);
-			}
+		for (auto& it : chs) {
+			*it.first = cohortset.find_n(it.second);
 		}
 	}
 	else {
-- 
2.43.0


From 5fe5c739630e1b15fc2f20e151a48d0334d7eced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 34/45] fix: IFF UNSAFE skipped a cohort with one reading when
 it had matched on an earlier cohort

---
 src/GrammarApplicator_runRules.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 49d5ed0..43dda24 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -425,10 +425,10 @@ bool GrammarApplicator::runSingleRule(SingleWindow& current, const Rule& rule, R
 
 		// If there is only 1 reading left and it is a Select or safe Remove rule, skip it.
 		if (cohort->readings.size() == 1) {
-			if (type == K_SELECT) {
+			if (rule.type == K_SELECT) {
 				continue;
 			}
-			if (type == K_REMOVE || type == K_IFF) {
+			if (rule.type == K_REMOVE || rule.type == K_IFF) {
 				if (cohort->readings.front()->noprint) {
 					continue;
 				}
-- 
2.43.0


From 745082eae1b50d1ffbf100c20be031df83e410e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:48 +0000
Subject: [PATCH 35/45] fix: a relation tag with a name over 255 characters
 overran a buffer

---
 src/Tag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tag.cpp b/src/Tag.cpp
index 1096516..28b4285 100644
--- a/src/Tag.cpp
+++ b/src/Tag.cpp
@@ -126,7 +126,7 @@ void Tag::parseTagRaw(const UChar* to, Grammar* grammar) {
 	if (tag[0] == 'R' && tag[1] == ':') {
 		UChar relname[256];
 		dep_parent = std::numeric_limits<uint32_t>::max();
-		if (u_sscanf(tag.data(), "R:%[^:]:%i", &relname, &dep_parent) == 2 && dep_parent != std::numeric_limits<uint32_t>::max()) {
+		if (u_sscanf(tag.data(), "R:%255[^:]:%i", &relname, &dep_parent) == 2 && dep_parent != std::numeric_limits<uint32_t>::max()) {
 			type |= T_RELATION;
 			Tag* reltag = grammar->allocateTag(relname);
 			comparison_hash = reltag->hash;
-- 
2.43.0


From 91cccccd4f65136405550f37ca58ebfd79bf6946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 36/45] fix: relation rules with a long relation name overran a
 buffer

---
 src/GrammarApplicator_runRules.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 43dda24..c5d6043 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1274,9 +1274,9 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 		};
 
 		auto make_relation_rtag = [&](Tag* tag, uint32_t id) {
-			UChar tmp[256] = { 0 };
-			u_sprintf(tmp, "R:%S:%u", tag->tag.data(), id);
-			auto nt = addTag(tmp);
+			UString tmp(tag->tag.size() + 16, 0);
+			u_snprintf(&tmp[0], SI32(tmp.size()), "R:%S:%u", tag->tag.data(), id);
+			auto nt = addTag(tmp.data());
 			return nt;
 		};
 
-- 
2.43.0


From e8e83ddac57b01b4c648c4017312f57661c9c007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 37/45] fix: SPLITCOHORT with long numbers in its dependency
 mapping overran a buffer

---
 src/GrammarApplicator_runRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index c5d6043..b161118 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1647,7 +1647,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 					UChar dep_self[12] = {};
 					UChar dep_parent[12] = {};
-					if (u_sscanf(tter->tag.data(), "%[0-9cd]->%[0-9pm]", &dep_self, &dep_parent) == 2) {
+					if (u_sscanf(tter->tag.data(), "%11[0-9cd]->%11[0-9pm]", &dep_self, &dep_parent) == 2) {
 						if (dep_self[0] == 'c' || dep_self[0] == 'd') {
 							cohort_dep[i - 1].first = DEP_NO_PARENT;
 							if (rel_trg == DEP_NO_PARENT) {
-- 
2.43.0


From dbccf09781498e11c81cc23e41453794368a93fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 38/45] fix: long numbers in a numeric expression overran a
 buffer, and an error from earlier made it fail

---
 src/MathParser.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/MathParser.hpp b/src/MathParser.hpp
index 4733aa8..3ed5376 100644
--- a/src/MathParser.hpp
+++ b/src/MathParser.hpp
@@ -242,10 +242,9 @@ inline void MathParser::eval_func(double& result) {
 			get_token();
 			return;
 		case NUMBER: {
-			char num[128];
-			std::copy(token.begin(), token.end(), num);
-			num[token.size()] = 0;
-			result = strtod(num, nullptr);
+			std::string num(token.begin(), token.end());
+			errno = 0;
+			result = strtod(num.c_str(), nullptr);
 			if (errno == ERANGE) {
 				throw std::runtime_error("Result did not fit in a double");
 			}
-- 
2.43.0


From 9ace8970b6543ecd3554f8d52017a2dae7e972e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 39/45] fix: long names of numbered unified sets overran a
 buffer

---
 src/parser_helpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser_helpers.hpp b/src/parser_helpers.hpp
index 4667978..2d79d80 100644
--- a/src/parser_helpers.hpp
+++ b/src/parser_helpers.hpp
@@ -442,8 +442,8 @@ Set* parseSet(const UChar* name, const UChar* p, State& state) {
 	      (name[0] == '$' && name[1] == '$') || (name[0] == '&' && name[1] == '&')) &&
 	    name[2]) {
 		const UChar* wname = &(name[2]);
-		const UChar wname2[1024]{};
-		if (u_sscanf(wname, "%*u:%S", &wname2) == 1) {
+		UChar wname2[1024]{};
+		if (u_sscanf(wname, "%*u:%1023S", &wname2) == 1) {
 			wname = wname2;
 		}
 		uint32_t wrap = hash_value(wname);
-- 
2.43.0


From eff1742dd29fa152faf3813c75f25e0dbd6a7f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 40/45] fix: large weights in FST input overran a buffer

---
 src/FSTApplicator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FSTApplicator.cpp b/src/FSTApplicator.cpp
index 475b2f0..e9b1943 100644
--- a/src/FSTApplicator.cpp
+++ b/src/FSTApplicator.cpp
@@ -155,7 +155,7 @@ void FSTApplicator::runGrammarOnText(std::istream& input, std::ostream& output)
 					if (comma) {
 						comma[0] = '.';
 					}
-					char buf[32];
+					char buf[512];
 					size_t i = 0;
 					for (; i < 31 && tab[i]; ++i) {
 						buf[i] = static_cast<char>(tab[i]);
-- 
2.43.0


From ebc00671117a7113fc66ee11d068b93d19dec87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 41/45] fix: some rules changed the window or a variable
 without forgetting which rules had already been tried in vain

---
 src/GrammarApplicator_runRules.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index b161118..c2492b5 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1441,6 +1441,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							current.variables_output.insert(it->first);
 						}
 						variables.erase(it);
+						index_ruleCohort_no.clear();
 						//u_fprintf(ux_stderr, "Info: RemVariable fired for %S.\n", tag->tag.data());
 					}
 				}
@@ -1450,7 +1451,11 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				auto values = getTagList(*rule->sublist);
 				VARSTRINGIFY(names.front());
 				VARSTRINGIFY(values.front());
-				variables[names.front()->hash] = values.front()->hash;
+				auto& value = variables[names.front()->hash];
+				if (value != values.front()->hash) {
+					value = values.front()->hash;
+					index_ruleCohort_no.clear();
+				}
 				if (rule->flags & RF_OUTPUT) {
 					current.variables_output.insert(names.front()->hash);
 				}
@@ -1522,8 +1527,8 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 							iter_rules_end = intersects.end();
 						}
 					}
-					index_ruleCohort_no.clear();
 				}
+				index_ruleCohort_no.clear();
 				readings_changed = true;
 				reset_cohorts_for_loop = true;
 			}
@@ -1548,11 +1553,17 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 			}
 			else if (rule->type == K_PROTECT) {
 				TRACE;
-				get_apply_to().subreading->immutable = true;
+				if (!get_apply_to().subreading->immutable) {
+					get_apply_to().subreading->immutable = true;
+					index_ruleCohort_no.clear();
+				}
 			}
 			else if (rule->type == K_UNPROTECT) {
 				TRACE;
-				get_apply_to().subreading->immutable = false;
+				if (get_apply_to().subreading->immutable) {
+					get_apply_to().subreading->immutable = false;
+					index_ruleCohort_no.clear();
+				}
 			}
 			else if (rule->type == K_UNMAP) {
 				if (unmapReading(*get_apply_to().subreading, rule->number)) {
@@ -2467,6 +2478,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 					reindex(attach->parent);
 					indexSingleWindow(*attach->parent);
+					index_ruleCohort_no.clear();
 					readings_changed = true;
 					reset_cohorts_for_loop = true;
 				}
@@ -2679,6 +2691,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				finish_reading_loop = false;
 				TRACE;
 				get_apply_to().cohort->dep_parent = DEP_NO_PARENT;
+				index_ruleCohort_no.clear();
 			}
 			else if (rule->type == K_SWITCHPARENT) {
 				// this is a per-cohort rule
@@ -2692,6 +2705,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					return;
 				}
 				TRACE;
+				index_ruleCohort_no.clear();
 				Cohort* parent = pit->second;
 				auto grandparent_number = parent->dep_parent;
 				CohortSet siblings;
@@ -2879,6 +2893,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 								iter->hit_by.push_back(rule->number);
 							}
 						}
+						index_ruleCohort_no.clear();
 						readings_changed = true;
 						sorter.do_sort = true;
 					}
-- 
2.43.0


From aebb25b6dcd5021a53e985b58c557e9d65df8d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:06 +0000
Subject: [PATCH 42/45] fix: reading input crashed if a rule had removed the
 only cohort so far of the window being read

---
 src/GrammarApplicator_runRules.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index c2492b5..48719c9 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -1213,7 +1213,9 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 				(*iter)->local_number = UI32(std::distance(current.cohorts.begin(), iter));
 			}
 
-			if (current.cohorts.size() == 1 && &current != gWindow->current) {
+			// The last window may still be receiving cohorts from the input
+			bool is_last = !gWindow->next.empty() && gWindow->next.back() == &current;
+			if (current.cohorts.size() == 1 && &current != gWindow->current && (input_eof || !is_last)) {
 				// This window is now empty, so remove it entirely from consideration so rules can look past it
 				cohort = current.cohorts[0];
 
-- 
2.43.0


From 26475d1a21e15dde7d49df24cecddb83979a372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 43/45] fix: MOVE REVERSE and SWITCH REVERSE moved the window's
 start marker

---
 src/GrammarApplicator_runRules.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index 48719c9..d3736f5 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -2781,6 +2781,9 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					}
 
 					swapper<Cohort*> sw((rule->flags & RF_REVERSE) != 0, attach, cohort);
+					if (cohort->local_number == 0) {
+						return;
+					}
 					CohortSet cohorts;
 
 					if (rule->type == K_SWITCH) {
-- 
2.43.0


From edbf5988bc0ef362d33265d61748526a12046500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 44/45] fix: COPYCOHORT put copies before the window's start
 marker, copied the marker itself, and crashed when copying with children to
 another window

---
 src/GrammarApplicator_runRules.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/GrammarApplicator_runRules.cpp b/src/GrammarApplicator_runRules.cpp
index d3736f5..87c5269 100644
--- a/src/GrammarApplicator_runRules.cpp
+++ b/src/GrammarApplicator_runRules.cpp
@@ -956,7 +956,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 
 		auto collect_subtree = [&](CohortSet& cs, Cohort* head, uint32_t cset) {
 			if (cset) {
-				for (auto iter : current.cohorts) {
+				for (auto iter : head->parent->cohorts) {
 					// Always consider the initial cohort a match
 					if (iter->global_number == head->global_number) {
 						cs.insert(iter);
@@ -966,7 +966,7 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					}
 				}
 				CohortSet more;
-				for (auto iter : current.cohorts) {
+				for (auto iter : head->parent->cohorts) {
 					for (auto cht : cs) {
 						// Do not grab the whole tree from the root, in case WithChild is not (*)
 						if (cht->global_number == head->global_number) {
@@ -2359,6 +2359,9 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 						std::swap(cohort, attach);
 						childset = rule->childset1;
 					}
+					if (cohort->local_number == 0) {
+						return;
+					}
 
 					Cohort* cCohort = alloc_cohort(attach->parent);
 					cCohort->global_number = gWindow->cohort_counter++;
@@ -2467,16 +2470,16 @@ uint32_t GrammarApplicator::runRulesOnSingleWindow(SingleWindow& current, const
 					CohortSet edges;
 					collect_subtree(edges, attach, childset);
 
+					auto edge = edges.back();
+					bool after = true;
 					if (rule->flags & RF_BEFORE) {
-						attach->parent->cohorts.insert(attach->parent->cohorts.begin() + edges.front()->local_number, cCohort);
-						attach->parent->all_cohorts.insert(std::find(attach->parent->all_cohorts.begin() + edges.front()->local_number, attach->parent->all_cohorts.end(), edges.front()), cCohort);
-						attachParentChild(*edges.front(), *cCohort);
-					}
-					else {
-						attach->parent->cohorts.insert(attach->parent->cohorts.begin() + edges.back()->local_number + 1, cCohort);
-						attach->parent->all_cohorts.insert(std::find(attach->parent->all_cohorts.begin() + edges.back()->local_number, attach->parent->all_cohorts.end(), edges.back()) + 1, cCohort);
-						attachParentChild(*edges.back(), *cCohort);
+						edge = edges.front();
+						// Nothing can be before the window's start marker
+						after = (edge->local_number == 0);
 					}
+					attach->parent->cohorts.insert(attach->parent->cohorts.begin() + edge->local_number + after, cCohort);
+					attach->parent->all_cohorts.insert(std::find(attach->parent->all_cohorts.begin() + edge->local_number, attach->parent->all_cohorts.end(), edge) + after, cCohort);
+					attachParentChild(*edge, *cCohort);
 
 					reindex(attach->parent);
 					indexSingleWindow(*attach->parent);
-- 
2.43.0


From 73ac9f0e8f54556d13bbda4ce930222f0f37866b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 45/45] fix: different lists with tags swapped across trie
 levels got the same hash and were merged or rejected

---
 src/TagTrie.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TagTrie.hpp b/src/TagTrie.hpp
index b08f3fa..e28ad2f 100644
--- a/src/TagTrie.hpp
+++ b/src/TagTrie.hpp
@@ -100,7 +100,8 @@ inline uint32_t trie_rehash(const trie_t& trie) {
 	for (auto& kv : trie) {
 		retval = hash_value(kv.first->hash, retval);
 		if (kv.second.trie) {
-			retval = hash_value(trie_rehash(*kv.second.trie), retval);
+			// The 32 bit hash_value() is linear, so with it swapping a tag with one in its sub-trie could yield the same hash
+			retval = hash_value(UI64(trie_rehash(*kv.second.trie)) << 32 | retval);
 		}
 	}
 	return retval;
-- 
2.43.0

