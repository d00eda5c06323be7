import random
import re
import vlib
from texts import GOOD, WORDS

TECH = ('TLA+ state machine of a record over the validator languages; '
        'TLC-generated histories replayed on the record types of the library '
        'and on made-up ones, everything observable judged by TLC')


def classify(scn, tr):
    for e in tr['events']:
        yield e['op'] + ':' + e['out'] + ':' + ('valid' if e['valid'] else
                                                'invalid')


def spiced(run, walks):
    """Some of the texts replaced by unusual ones"""
    rnd = random.Random(run.seed)
    # (what int() makes of a sign before a blank or a sign is not decided)
    words = [w for w in GOOD + WORDS if len(w) < 16 and
             not re.search(r'[+-]\s*[+-]|[+-]\s', w)]
    out = []
    for w in walks:
        ops = []
        for op in w['ops']:
            if op['op'] == 'set' and rnd.random() < .3:
                op = dict(op, value=rnd.choice(words))
            elif op['op'] == 'new' and rnd.random() < .3:
                # the same text in several columns
                text = rnd.choice([w for w in words + ['x', '', '-1']
                                   if all(ord(c) < 128 for c in w)])
                op = dict(op, row=[text if rnd.random() < .6 else c
                                   for c in op['row']])
            ops.append(op)
        out.append(dict(w, ops=ops))
    return out


def run_r01(run):
    vlib.design_check(run, 'RecordsMC', 'RecordsMC.cfg',
                      consts={'Depth': 6 if run.thorough else 4})

    def enum():
        scns = vlib.tlc_scenarios(run, 'RecordsMC', 'RecordsEnum.cfg',
                                  workers=2, consts={
                                      'Depth': 4 if run.thorough else 3})
        scns = sorted(scns, key=str)
        k = 5 if run.thorough else 8
        vlib.section(run, 'histories-exhaustive', 'recs', 'RecordsTrace',
                     scns[run.seed % k::k], classify=classify,
                     shards=3 if run.thorough else 1)

    def walk():
        scns = vlib.tlc_scenarios(
            run, 'RecordsMC', 'RecordsSim.cfg', depth=12,
            simulate=5000 if run.thorough else 450)
        vlib.section(run, 'histories-random', 'recs', 'RecordsTrace',
                     spiced(run, scns), classify=classify,
                     shards=4 if run.thorough else 2)
    vlib.together(enum, walk)


def pairs(run, seqs):
    rnd = random.Random(run.seed)
    for n, s in enumerate(seqs):
        a, b = s['a'], s['b']
        yield 'record', a, 'record', b
        yield 'record', a, 'list', b
        yield 'record', a, 'record2', b
        yield 'record', a, 'tuple', b
        yield 'wseq', a, 'wseq', b
        # rows of different widths, made unique
        ra = [[x, str(i)] for i, x in enumerate(a)]
        rb = [[x, str(i)] for i, x in enumerate(b)]
        yield 'table', ra, 'table', rb
        yield 'table', ra, 'table2', rb
        yield 'table', ra, 'rows', rb
        yield 'table', ra, 'list', rb
        if n % 3 == 0:
            rb = [r if rnd.random() < .7 else r + ['9'] for r in rb]
            yield 'table', ra, 'rows', rb
            yield 'table', ra, 'list', rb
            yield 'table', ra, 'table', [r[:1] + r for r in ra]


def run_r02(run):
    seqs = vlib.tlc_scenarios(run, 'EqualityMC', 'EqualityMC.cfg', workers=2,
                              consts={'MaxLen': 5 if run.thorough else 3})
    seqs = sorted(seqs, key=str)
    rnd = random.Random(run.seed)
    for _ in range(3000 if run.thorough else 150):    # longer ones
        a = [rnd.choice(['', 'x', 'y', u'\xe9']) for _ in range(
            rnd.randrange(4, 12))]
        b = list(a)
        c = rnd.randrange(5)
        if c == 0:
            b[rnd.randrange(len(b))] += 'z'
        elif c == 1:
            b.append(b[-1])
        elif c == 2:
            b.pop(rnd.randrange(len(b)))
        elif c == 3:
            rnd.shuffle(b)
        seqs.append(dict(a=a, b=b))
    # the same characters, cut into items at different places
    for _ in range(1500 if run.thorough else 120):
        sep = rnd.choice([',', '', ' ', '\n', '|', '\t', ';', '\0'])
        parts = [rnd.choice(['a', 'b', '', '1']) for _ in range(
            rnd.randrange(3, 7))]
        n = rnd.randrange(2, len(parts))
        cut = lambda: sorted(rnd.sample(range(1, len(parts)), n - 1))
        join = lambda cs: [sep.join(parts[i:j]) for i, j in zip(
            [0] + cs, cs + [len(parts)])]
        seqs.append(dict(a=join(cut()), b=join(cut())))
    # items that only some comparisons confuse
    for x, y in [('1', '1.0'), ('a', 'A'), ('', ' '), ('1', '01'), ('a', 'a '),
                 (u'e', u'\xe9'), ('True', '1'), ('None', ''), ('0', '')]:
        for pre, post in [([], []), (['z'], []), ([], ['z'])]:
            seqs.append(dict(a=pre + [x] + post, b=pre + [y] + post))
    scns = []
    for ka, a, kb, b in pairs(run, seqs):
        if 'record' in (ka, kb) and (not a or (
                kb in ('record', 'record2') and not b)):
            continue
        scn = dict(a=dict(kind=ka, items=a), b=dict(kind=kb, items=b))
        for x in scn.values():
            if x['kind'] == 'wseq':
                x['weights'] = [rnd.choice([0, 1, 2]) for _ in x['items']]
        scns.append(scn)
    vlib.section(run, 'comparisons', 'equality', 'Equality', scns, shards=2,
                 classify=lambda s, t: [
                     '%s/%s:%s' % (s['a']['kind'], s['b']['kind'], t['eq'])])

CHECKS = {
    'R01': dict(run=run_r01, level='model_checking', technique=TECH),
    'R02': dict(run=run_r02, level='model_checking', technique=(
        'TLA+ definition of equality of sequences; all pairs of short '
        'sequences enumerated by TLC, compared by the code as records, '
        'tables and weighted sequences, answers judged by TLC')),
}
