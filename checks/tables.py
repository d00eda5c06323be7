import random

import vlib

TECH = ('TLA+ state machine of the table and its incremental indexes, model '
        'checked with TLC; TLC-generated histories replayed on the code and '
        'the recorded traces validated against the same actions')


def classify(scn, tr):
    for e in tr['events']:
        yield e['op'] + ':' + e['out']


def shipped(walks):
    """The same walks on record types of the library, where they fit"""
    fit = {'[[1], [2, 3]]': 'Location'}
    return [dict(w, type=fit[str(w['uniq'])]) for w in walks
            if str(w['uniq']) in fit]


POOL = ['', ' ', '1', '1.0', '01', '-1', '0', 'a', 'A', 'a,b', 'a b', '"', "'",
        'None', '%s', u'\xe9', u'\xe8', '1 ', ' 1', 'pkey', 'x' * 50, ';', '\n']


def renamed(run, walks):
    """The same histories with other texts in place of the few ones of the
    specification (a consistent one-to-one renaming)"""
    rnd = random.Random(run.seed)
    res = []
    for n, w in enumerate(walks):
        if n % 2:
            pool = rnd.sample(POOL, 3)
            new = lambda r: [pool[int(c) - 1] for c in r]
            w = dict(w, ops=[dict(op) for op in w['ops']])
            for op in w['ops']:
                if 'rec' in op:
                    op['rec'] = new(op['rec'])
                if 'recs' in op:
                    op['recs'] = [dict(r, rec=new(r['rec']))
                                  if isinstance(r, dict) else new(r)
                                  for r in op['recs']]
        if n % 4 >= 2:      # a record equal to a previous one is that one
            w = dict(w, reuse=1)
        res.append(w)
    return res


def run_t01(run):
    vlib.design_check(run, 'TablesMC', 'TablesMC.cfg',
                      consts={'MaxLen': 4 if run.thorough else 2})

    def exhaustive():
        enum = vlib.tlc_scenarios(
            run, 'TablesMC', 'TablesEnum.cfg',
            consts={'Depth': 4 if run.thorough else 3}, workers=2)
        enum = sorted(enum, key=str)[run.seed % 3::3]
        vlib.section(run, 'histories-exhaustive', 'tables', 'TablesTrace',
                     enum, classify=classify,
                     shards=6 if run.thorough else 1)

    def randomly():
        walks = vlib.tlc_scenarios(
            run, 'TablesMC', 'TablesSim.cfg', consts={'Depth': 16}, depth=18,
            simulate=4000 if run.thorough else 500)
        walks = renamed(run, walks + shipped(walks))
        vlib.section(run, 'histories-random', 'tables', 'TablesTrace', walks,
                     classify=classify, shards=4 if run.thorough else 2)
    vlib.together(exhaustive, randomly)


def run_t02(run):
    n = 3000 if run.thorough else 350

    def design():
        vlib.design_check(run, 'TablesMC', 'TablesMC.cfg',
                          consts={'MaxLen': 4 if run.thorough else 2})
        vlib.design_check(run, 'TableSetsMC', 'TableSetsMC.cfg',
                          consts={'MaxLen': 2 if run.thorough else 1})

    def table():
        walks = vlib.tlc_scenarios(
            run, 'TablesMC', 'TablesSim.cfg', consts={'Depth': 12}, depth=14,
            simulate=n)
        walks = renamed(run, walks + shipped(walks))
        vlib.section(run, 'refusals-table', 'tables', 'RefusalTrace',
                     [dict(w, twin=1) for w in walks], classify=classify,
                     shards=4 if run.thorough else 1)

    def tableset():
        walks = vlib.tlc_scenarios(
            run, 'TableSetsMC', 'TableSetsSim.cfg', consts={'Depth': 12},
            depth=14, simulate=n)
        walks = renamed(run, walks)
        vlib.section(run, 'refusals-tableset', 'tables', 'RefusalTrace',
                     [dict(w, twin=1) for w in walks], classify=classify,
                     shards=4 if run.thorough else 2)
    vlib.together(design, table, tableset)


def run_t03(run):
    vlib.design_check(run, 'TableSetsMC', 'TableSetsMC.cfg',
                      consts={'MaxLen': 2 if run.thorough else 1})

    def exhaustive():
        enum = vlib.tlc_scenarios(
            run, 'TableSetsMC', 'TableSetsEnum.cfg',
            consts={'Depth': 6 if run.thorough else 4}, workers=2)
        if not run.thorough:
            enum = sorted(enum, key=str)[run.seed % 2::2]
        vlib.section(run, 'histories-exhaustive', 'tables', 'TableSetsTrace',
                     enum, classify=classify,
                     shards=6 if run.thorough else 1)

    def randomly():
        walks = vlib.tlc_scenarios(
            run, 'TableSetsMC', 'TableSetsSim.cfg', consts={'Depth': 20},
            depth=22, simulate=5000 if run.thorough else 700)
        walks = renamed(run, walks)
        vlib.section(run, 'histories-random', 'tables', 'TableSetsTrace',
                     walks, classify=classify,
                     shards=4 if run.thorough else 2)
    vlib.together(exhaustive, randomly)

CHECKS = {
    'T01': dict(run=run_t01, level='model_checking', technique=TECH),
    'T02': dict(run=run_t02, level='model_checking', technique=TECH),
    'T03': dict(run=run_t03, level='model_checking', technique=TECH),
}
