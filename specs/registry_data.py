ENG = dict(flags='-O1', san=False, lib=True)
WRAP = ('_ZN3CG317GrammarApplicator19doesSetMatchReadingERKNS_7ReadingEjbb',
        '_ZN3CG317GrammarApplicator24doesSetMatchCohortNormalERNS_6CohortEjPNS_12dSMC_ContextE',
        '_ZN3CG317GrammarApplicator25doesSetMatchCohortCarefulERNS_6CohortEjPNS_12dSMC_ContextE')

# functions of the flat hash sets used in runRules report every use to the driver; all others stay as they are
INSTR = {'GrammarApplicator_runRules.cpp': '-finstrument-functions -finstrument-functions-exclude-file-list=/usr/,GrammarApplicator,Cohort,Reading,SingleWindow,Window,sorted_vector,interval_vector,bloomish,inlines,Grammar,Set.,Tag,Rule,Contextual,stdafx,scoped_stack,istream,filesystem,include/,Strings,MathParser,process.,uextras,cg3.h,Profiler'}


def fill(P, Prop, D):
    def eng(mode, secs=(25, 300)):
        return D('engine.cpp', args=[mode], seconds=secs, wrap=WRAP, needs_wrap=mode in ('short', 'win'), instr=INSTR if mode == 'short' else None, **ENG)

    P['C01'] = Prop('Sorted sets behave as mathematical sets', [('c_sorted', 'containers')],
                    [D('containers.cpp', args=['sorted'])],
                    bounded=['sorted_vector::insert(range), assign, erase(iterator), upper_bound and non-integer comparators: executed against std::set on random operation sequences of up to 60 steps'])
    P['C02'] = Prop('Interval sets behave as mathematical sets', [('c_interval', 'containers')],
                    [D('containers.cpp', args=['interval'])],
                    bounded=['interval_vector iterators, find, lower_bound: executed against std::set on random operation sequences of up to 50 steps'])
    P['C03'] = Prop('Numeric tag conditions', [('m_num', 'matchset')], [D('objects.cpp', args=['num'], seconds=(8, 60), **ENG)],
                    bounded=['lowest and highest value of a key in a cohort: the real Cohort against a direct computation on random cohorts'])
    P['C04'] = Prop('Set matching', [('m_sets', 'matchset')], [eng('ref')],
                    bounded=['tag-list tries, tag kinds, parsing of set definitions, contextual tests: random grammars and texts (1-4 windows, up to 6 cohorts, up to 3 readings with sub-readings) run through the real engine against a reference evaluator'])
    P['C05'] = Prop('Shortcuts never change a match', [('c_bloom', 'containers'), ('m_cache', 'matchset')], [eng('short')],
                    bounded=['possible_sets, the set match index across rules, and rule-by-cohort bookkeeping: random grammars and texts run twice on the real engine, with and without shortcuts'])
    P['C15'] = Prop('Recycled objects are like new', [('m_pool', 'core')], [eng('pool'), D('objects.cpp', args=['clean'], seconds=(8, 60), **ENG)],
                    bounded=['whole runs whose output must not depend on the pools: random grammars and texts on the real engine, with the pools emptied or not'])
    P['C13'] = Prop('Named relations are exactly what the input and the rules say', [('m_rel', 'core')], [eng('rel'), D('objects.cpp', args=['rel'], seconds=(6, 60), **ENG)],
                    bounded=['relations from input tags to printed relations: random texts with IDs and relation tags, random rules of all six kinds, on the real engine against plain sets of (name, target)'])
    P['C07'] = Prop('The dependency tree stays a forest', [('m_dep', 'reflow'), ('m_kids', 'core')], [eng('dep'), D('objects.cpp', args=['tree'], seconds=(6, 60), **ENG)],
                    bounded=['SETPARENT, SETCHILD and the other rules that attach, and input dependencies: random grammars and dependency texts on the real engine; the printed parents must form a forest',
                             'the four functions under contract also run against a plain forest of up to 14 cohorts in two windows'])
    P['C08'] = Prop('The text in memory is one chain of words', [('m_win', 'core')], [eng('win'), D('objects.cpp', args=['win'], seconds=(6, 60), **ENG)],
                    bounded=['rules that add, remove, move, split, merge and copy cohorts or delimit windows: random grammars and texts on the real engine, with the windows in memory inspected while rules run and before each window is printed',
                             'the functions under contract also run in random order against a plain list of windows'])
    P['C12'] = Prop('Hash tables behave as mathematical sets and maps', [('c_hash', 'containers')], [D('containers.cpp', args=['hash'])],
                    assumptions=['Hull and Dobell: t -> a t + c with a = 1 modulo 4 and c odd goes through all remainders modulo a power of two (that hash_value_sz is such a step is proved)',
                                 'axioms for the number of live and of empty slots of an array', 'the keys given are not the two reserved values; reserve(n) and clear(n) from outside are given powers of two (no code outside the containers calls them with an argument)'],
                    bounded=['range insert, assign, swap: random sequences of up to 120 operations against std::set and std::map'])
    P['C06'] = Prop('Selecting and removing readings does exactly that', [('m_keep', 'rules')], [eng('keep')],
                    assumptions=['REMOVE and IFF are verified with debug_level 0 (the debug output is not judged)', 'the matching readings noted for a cohort are distinct readings of that cohort, in order (runSingleRule calls the block once per reading, in order)'],
                    bounded=['runSingleRule, which picks the readings: up to four rules with every combination of flags against reading lists kept by hand, and random grammars whose output may only lose readings'])
