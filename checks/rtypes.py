import vlib

TECH = ('TLA+ state machine of the record types defined by a user, their '
        'records and tables; TLC-generated histories of definitions replayed '
        'with real types, everything observable judged by TLC')


def classify(scn, tr):
    for op, e in zip(scn['ops'], tr['events']):
        yield e['op'] + ':' + e['out']
        if op['op'] == 'define':
            yield 'bases:%d:%s' % (len(op['body']['bases']), e['out'])
    for ty in tr['events'][-1]['types']:
        yield 'table:%s' % ty['table']


def run_r03(run):
    vlib.design_check(run, 'RecordTypesMC', 'RecordTypesMC.cfg',
                      consts={'Depth': 6 if run.thorough else 4})

    def enum():
        scns = vlib.tlc_scenarios(run, 'RecordTypesMC', 'RecordTypesEnum.cfg',
                                  workers=2, consts={'Depth': 3})
        scns = sorted(scns, key=str)
        k = 1 if run.thorough else 4
        vlib.section(run, 'histories-exhaustive', 'rtypes',
                     'RecordTypesTrace', scns[run.seed % k::k],
                     classify=classify, shards=3 if run.thorough else 1)

    def walk():
        scns = vlib.tlc_scenarios(
            run, 'RecordTypesMC', 'RecordTypesSim.cfg', depth=20,
            simulate=6000 if run.thorough else 450,
            consts={'Depth': 14 if run.thorough else 10})
        vlib.section(run, 'histories-random', 'rtypes', 'RecordTypesTrace',
                     scns, classify=classify, shards=4 if run.thorough else 2)
    vlib.together(enum, walk)


CHECKS = {'R03': dict(run=run_r03, level='model_checking', technique=TECH)}
