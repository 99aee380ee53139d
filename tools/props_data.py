NOTE = ('Every obligation generated from the current sources must be discharged, for all inputs and all iterations. '
        'Trusted: clang -O0-level IR generation, the VC generator in dv/, the std/boost container contracts in dv/stdlib.py, z3, cvc5. ')

prop('C01', 'Sorted sets behave as mathematical sets',
     'The sorted set container used for rule lists, cohort sets, tag lists and relations always holds its elements strictly ascending and without duplicates. '
     'Insert, erase, membership, lower bound, and conversion agree with a mathematical set, and insert/erase report truthfully whether they changed it.',
     ['inputs', 'histories'], 'every sequence of operations on every content, of any length',
     'Unit tests only reach the container through whole grammars; they never see every position of insertion or removal.',
     ['src/sorted_vector.hpp'], [('binary search plus ordered insertion', 'sorted_vector::insert/erase/find')],
     NOTE + 'Range insert, iterator erase and non-integer comparators: bounded execution against std::set.')

prop('C02', 'Interval sets behave as mathematical sets',
     'The interval-compressed integer set behaves as a mathematical set of 32-bit numbers for every sequence of insert, erase, membership, intersection and iteration, including at 0 and the maximum value. '
     'Its intervals stay sorted, disjoint and non-adjacent, its size is exact, and insert/erase report truthfully whether they changed it.',
     ['inputs', 'histories'], 'every content and every inserted or erased value, including the ends of the 32-bit range',
     'The regression suite inserts rule numbers in the few orders its grammars have; merging and splitting at the ends is never reached.',
     ['src/interval_vector.hpp'], [('interval merge on insert, split on erase, two-pointer intersection', 'interval_vector::insert/erase/intersect')],
     NOTE + 'Iterators, find and lower_bound: bounded execution against std::set.')

prop('C03', 'Numeric tag conditions match exactly when both can hold',
     'A numeric condition in a rule (such as <W>5>) matches a numeric tag of a reading exactly when both concern the same key and some number satisfies both comparisons; two != conditions match only when they exclude the same number. '
     'MIN and MAX stand for the least and greatest value of that key in the cohort, and a match reports the tag that matched.',
     ['inputs'], 'all pairs of comparison operators, all 64-bit floating point values including infinities, NaN and equal bounds, every cohort',
     'Tests sample a few operator pairs and values; the matrix of six by six operators with boundary equality is not covered.',
     ['src/GrammarApplicator_matchSet.cpp', 'src/Cohort.cpp', 'src/Tag.cpp'], [('case analysis over both comparison operators', 'test_tag_numerical')],
     NOTE + 'MathParser::eval is an uninterpreted function of its arguments here.')

prop('C04', 'A set matches exactly the readings its definition describes',
     'Whether a reading belongs to a set is decided by the definition alone: a LIST by its tags and tag combinations, a SET by its operators (OR, +, -, ^ and unification) applied from left to right in OR-separated groups, (*) by everything. '
     'NOT, NEGATE, careful (C) positions, barriers and linked tests combine those answers as documented. No earlier test in the run changes the answer.',
     ['inputs', 'histories'], 'every set structure (any depth, any operators), every reading, every content of the match index that earlier tests may have left',
     'The regression suite has fixed grammars with fixed expected output; the operator combinations, the tries of long tag lists, and the state earlier tests leave behind are sampled at a handful of points.',
     ['src/GrammarApplicator_matchSet.cpp', 'src/Set.cpp', 'src/Set.hpp', 'src/TagTrie.hpp', 'src/GrammarApplicator_runContextualTest.cpp'],
     [('operator fold with index lookup', 'GrammarApplicator::doesSetMatchReading'), ('tag lists and tries', 'doesSetMatchReading_tags, doesSetMatchReading_trie'), ('cohort level', 'doesSetMatchCohortNormal/Careful')],
     NOTE + 'Proved: the operator fold and the match index of doesSetMatchReading. Bounded: whole rule sets on the real engine against a reference evaluator.')

prop('C05', 'Shortcuts never change a match',
     'The engine keeps shortcuts so that it need not test everything again: Bloom filters, remembered regular expression and case-insensitive answers, the set match index, lists of sets a cohort can belong to, lists of cohorts per rule. '
     'With them, every test has the answer it would have without them, at every point of every run.',
     ['inputs', 'histories'], 'every tag, text and filter content; every history of tests and changes that filled the shortcuts',
     'A shortcut that is wrong once in a while only shows when a particular test follows a particular change; fixed expected outputs do not contain those sequences.',
     ['src/bloomish.hpp', 'src/GrammarApplicator_matchSet.cpp', 'src/GrammarApplicator_runRules.cpp', 'src/GrammarApplicator_reflow.cpp'],
     [('Bloom filter', 'bloomish::insert/matches'), ('answer tables', 'doesTagMatchRegexp, doesTagMatchIcase, doesRegexpMatchLine'), ('indexes', 'index_readingSet_yes/no, possible_sets, index_ruleCohort_no, rule_to_cohorts')],
     NOTE + 'Proved: Bloom filter, the three answer tables. Distinct tags and lines are assumed to have distinct 32-bit hashes. Bounded: whole runs on the real engine with the shortcuts emptied before every test, and the list of rules tried in vain emptied after every change, against runs that use them.')

prop('C07', 'The dependency tree stays a forest',
     'With loop blocking on, attaching a cohort to a parent is refused exactly when the child is the parent or an ancestor of it (an arc that is already there, and a parent that is its own parent, excepted), and what is attached never puts a cohort above itself. '
     'Attaching changes the parent of that child only, enters it with the new parent and takes it from the former one; a refusal changes nothing. A test for descendants is true exactly for what lies below.',
     ['inputs', 'histories'], 'every forest of any shape over any windows, every pair of cohorts, all option combinations; the documented limit of 1000 steps is part of the contract',
     'The regression suite attaches in a dozen fixed sentences; deep, spanning and half-gone trees are never reached.',
     ['src/GrammarApplicator_reflow.cpp', 'src/Cohort.cpp', 'src/GrammarApplicator_runRules.cpp'],
     [('walk up the parents', 'isChildOf, wouldParentChildLoop'), ('both ends of an arc', 'attachParentChild, Cohort::addChild/remChild')],
     NOTE + 'Assumed: cohort_map gives for each number the cohort with that number. Proved: the functions above, and that the forest stays a forest. Bounded: rules and input on the real engine. One known finding: the crossing test (--dep-no-crossing) does not decide crossing.')

prop('C13', 'Named relations are exactly what the input and the rules say',
     'Every cohort has, per relation name, a set of target cohorts. Adding inserts one target, setting replaces the set by one target, removing takes one target away; each reports truthfully whether it changed anything, and touches no other name and no other cohort. '
     'What is printed is what the input gave and the rules made of it, with every target shown under the ID that the target itself carries.',
     ['inputs', 'histories'], 'every content of a relation table, every name and target; every sequence of the six kinds of relation rules over several windows',
     'The regression suite has a few fixed relation grammars; repeated adding, setting and removing across windows with input IDs is not covered.',
     ['src/Cohort.cpp', 'src/GrammarApplicator_runRules.cpp', 'src/GrammarApplicator_reflow.cpp', 'src/GrammarApplicator.cpp'],
     [('table of sorted sets', 'Cohort::addRelation/setRelation/remRelation'), ('resolving input IDs', 'reflowRelationWindow'), ('printing', 'printReading')],
     NOTE + 'Proved: the three table operations against mathematical maps of sets. Bounded: whole runs against plain sets. One known finding: a relation made by a rule is looked up again among the IDs of the input.')

prop('C15', 'Recycled objects are like new',
     'Windows, cohorts and readings that are freed go to pools and are handed out again. What is handed out is indistinguishable from a newly constructed object, whatever its previous life was, '
     'and a copy of a reading is the same whether its memory is new or recycled. So a run never depends on what was processed before.',
     ['inputs', 'histories'], 'every state of an object when it is freed; every pool content',
     'A leftover field shows only when a recycled object is next used in a way that reads that field before it is set; the regression suite recycles few objects, all alike.',
     ['src/Reading.cpp', 'src/Cohort.cpp', 'src/SingleWindow.cpp', 'src/pool.hpp'],
     [('clear on release', 'Reading::clear, Cohort::clear, SingleWindow::clear'), ('copying', 'alloc_reading(const Reading&), Reading::Reading(const Reading&)'), ('pools', 'pool::get, pool::put')],
     NOTE + 'Proved: every field after clear() equals the field after construction (containers: their contents), for every earlier state; copies take every field; pools hand back what was put. '
     'Contracts on the nested objects and containers are listed as assumptions. Bounded: whole runs with and without recycled objects.')

prop('C08', 'The text in memory is one chain of words',
     'At any time while rules run, the windows in memory and their cohorts form one doubly linked chain in text order: each cohort knows its place in its window, its neighbours (across window borders too) and its window, '
     'each window begins with its start marker and has no other, each number leads to its cohort, and no cohort is in two places or lost. '
     'Adding, moving, copying, merging, splitting and removing cohorts and delimiting windows keep it so; only the intended cohorts come and go.',
     ['inputs', 'histories'], 'every text, every window layout, every sequence of rules that change the window',
     'Windows, their two lists, the cohort lists, four kinds of links and the number maps are kept in step by hand in every rule type; a slip shows only in a later test or window.',
     ['src/Window.cpp', 'src/SingleWindow.cpp', 'src/Cohort.cpp', 'src/GrammarApplicator_runRules.cpp', 'src/GrammarApplicator_reflow.cpp'],
     [('cohort chain', 'SingleWindow::appendCohort, Cohort::detach, Window::rebuildCohortLinks'), ('window chain', 'Window::alloc*SingleWindow, Window::shuffleWindowsDown, Window::rebuildSingleWindowLinks')],
     NOTE + 'Proved: the eight functions that make and mend the links, for any number of windows and cohorts. Bounded: the rules that call them, by whole runs with the structure inspected.')

prop('C06', 'Selecting and removing readings does exactly that',
     'When SELECT, REMOVE or IFF acts on a cohort, the readings that the target and tests picked are kept or taken away, and no other reading is: SELECT leaves exactly the picked ones in their order, REMOVE takes exactly the picked ones, '
     'IFF does the one or the other as its tests say. Readings taken away go, each once, to the list the rule names (deleted, delayed or ignored) and are marked as deleted; RESTORE moves the matching ones back in order and leaves the others. '
     'No reading is lost, doubled or changed, and unless the rule or the run is unsafe a cohort never loses its last reading.',
     ['inputs', 'histories'], 'every cohort with any number of readings, every rule of these four types with every flag, every sequence of them',
     'This is what Constraint Grammar is for: a disambiguator that removes a wrong reading, or the last one, gives wrong or empty analyses without any error.',
     ['src/GrammarApplicator_runRules.cpp', 'src/GrammarApplicator_runGrammar.cpp', 'src/Cohort.cpp'],
     [('kept and removed lists', 'GrammarApplicator::runRulesOnSingleWindow: the function objects reading_cb and cohort_cb, and move_rs for RESTORE'), ('no cohort without reading', 'GrammarApplicator::initEmptyCohort')],
     NOTE + 'Proved: the code that notes picked readings, keeps or removes them and restores them, for any number of readings. Bounded: which readings are picked (see C04), and whole runs.')

prop('C12', 'Hash tables behave as mathematical sets and maps',
     'The open-addressing hash sets and maps used for indexes, variables, anchors, names and number maps behave as mathematical sets and maps of numbers for every sequence of insert, look-up, erase, clear and growing: '
     'a look-up finds exactly the members with their values, whatever was inserted and erased before; size() counts them; iterating meets each once; no operation loses another member or runs forever.',
     ['inputs', 'histories'], 'every key but the two reserved ones, every table content reachable or not by the operations that satisfies the stated invariant, every sequence of operations',
     'A lost member or an endless probe needs a particular order of inserts and erases that fills a table with deleted slots; no test controls that.',
     ['src/flat_unordered_set.hpp', 'src/flat_unordered_map.hpp'],
     [('open addressing', 'insert, erase, find, operator[]'), ('growing', 'reserve, clear'), ('iterating', 'begin, operator++')],
     NOTE + 'Proved for the uint32_t instances (the uint64_t set is the same template): every member but the range inserts, assign, swap, get and operator--, which are bounded. '
     'Used as axioms: a step t -> a t + c with a = 1 modulo 4 and c odd visits all slots of a table of size a power of two (Hull and Dobell; that the code has such a step is proved), and what counting slots means.')
