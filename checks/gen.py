import random
import vlib


def variants(rnd, scns):
    for s in scns:
        s['src'] = rnd.choice(['list', 'tuple', 'gen', 'iter'])
        s['unit'] = (1 if s['call'] == 'hint' else
                     rnd.choice([1, 1, .5, 10, 2.5, 2. ** -40, 2. ** 20]))
        if s['call'] == 'hint' and rnd.random() < .4 and any(
                i['w'] > 1 for i in s['items']):
            s['q'] = rnd.choice([2, 4, 8])
        if rnd.random() < .4:
            s['alike'] = 1
        if all(i['w'] == 1 for i in s['items']) and rnd.random() < .5:
            s['unit'] = 1
            s['noweight'] = 1
        if len(set(i['k'] for i in s['items'])) == 1 and rnd.random() < .5:
            s['nokind'] = 1
    return scns


def rnd_items(rnd, n, kinds, ws, neg=0):
    items, k = [], rnd.choice(kinds)
    for i in range(n):
        if rnd.random() < .3:
            k = rnd.choice(kinds)
        w = rnd.choice(ws)
        if rnd.random() < neg:
            w = -w - 1
        items.append(dict(n=i + 1, w=w, k=k))
    return items

KINDS = [['a'], ['a', 'b'], ['a', 'b', 'Unspecified'], ['', 'a', 'A'],
         ['Unspecified', 'x']]
WS = [[1], [0, 1], [1, 2, 3], [0, 0, 1, 5], [1, 1, 20], [3], range(12)]


def long_ones(rnd, n):
    for _ in range(n):
        ws = rnd.choice(WS)
        items = rnd_items(rnd, rnd.randrange(0, 25), rnd.choice(KINDS), ws,
                          rnd.choice([0, 0, 0, .05]))
        yield dict(call='split', items=items,
                   max=rnd.choice([1, 2, 3, 4, 5, 7, 10, 30, 0, -1]))


def hints(rnd, n):
    for _ in range(n):
        ws = rnd.choice(WS)
        m = rnd.randrange(1, 30)
        items = rnd_items(rnd, m, rnd.choice(KINDS[:1] * 3 + KINDS), ws)
        if not sum(i['w'] for i in items):
            items[0]['w'] = 1
        yield dict(call='hint', items=items, hint=rnd.choice(
            [1, 2, 3, m, m + 1, 2 * m, 7, max(1, m // 2), max(1, m - 1)]))


def cls_blocks(scn, tr):
    yield '%s:%s' % (scn['call'], tr['out'])
    yield 'blocks:%s' % min(len(tr['blocks']), 5)


def run_g01(run):
    big = run.thorough
    rnd = random.Random(run.seed)
    vlib.design_check(run, 'BlocksMC', 'BlocksMC.cfg',
                      consts={'MaxItems': 5 if big else 4})

    def enum():
        scns = vlib.tlc_scenarios(run, 'BlocksMC', 'BlocksEnum.cfg',
                                  workers=2, consts={'MaxW': 4 if big else 3})
        scns = sorted(scns, key=str)
        if not big:
            ok = [s for s in scns if s['max'] > 0 and
                  all(i['w'] >= 0 for i in s['items'])]
            bad = [s for s in scns if not (s['max'] > 0 and all(
                i['w'] >= 0 for i in s['items']))]
            scns = ok[run.seed % 2::2] + bad[run.seed % 11::11]
        vlib.section(run, 'all-short-inputs', 'gen', 'BlocksTrace',
                     variants(rnd, [dict(s, call='split') for s in scns]),
                     shards=2, classify=cls_blocks)

    def rand():
        r = random.Random(run.seed + 1)
        vlib.section(run, 'long-inputs', 'gen', 'BlocksTrace', variants(
            r, list(long_ones(r, 20000 if big else 1500))), shards=2,
            classify=cls_blocks)
    vlib.together(enum, rand)


def run_g02(run):
    big = run.thorough
    vlib.design_check(run, 'BlocksMC', 'BlocksMC.cfg',
                      consts={'MaxItems': 6 if big else 5,
                              'Weights': '<- WOne', 'MaxW': 6})
    rnd = random.Random(run.seed)
    # every length and hint with unit weights
    unit = [dict(call='hint', hint=h, items=rnd_items(rnd, n, ['a'], [1]))
            for n in range(1, 40 if big else 25)
            for h in range(1, 45 if big else 28)]
    scns = unit + list(hints(rnd, 20000 if big else 1500))
    vlib.section(run, 'hints', 'gen', 'BlocksTrace', variants(rnd, scns),
                 shards=2, classify=cls_blocks)


def run_g03(run):
    big = run.thorough
    vlib.design_check(run, 'WSeqsMC', 'WSeqsMC.cfg',
                      consts={'MaxSeqs': 4 if big else 3})
    rnd = random.Random(run.seed)

    def enum():
        scns = sorted(vlib.tlc_scenarios(run, 'WSeqsMC', 'WSeqsEnum.cfg',
                                         workers=2), key=str)
        k = 1 if big else 5
        vlib.section(run, 'histories-exhaustive', 'gen', 'WSeqsTrace',
                     [dict(s, call='wseqs') for s in scns[run.seed % k::k]],
                     shards=2)

    def walk():
        scns = vlib.tlc_scenarios(run, 'WSeqsMC', 'WSeqsSim.cfg', depth=14,
                                  simulate=6000 if big else 700)
        vlib.section(run, 'histories-random', 'gen', 'WSeqsTrace', [
            dict(s, call='wseqs', unit=rnd.choice([1, 1, .5, 2.25,
                                                        2. ** -40]))
            for s in scns], shards=2,
            classify=lambda s, t: ['%s:%s' % (e['op'], e['out'])
                                   for e in t['events']])
    vlib.together(enum, walk)


# the attributes an object with slots may have
SLOTS = dict(SA=['x', 'y'], SB=['x', 'y'], SC=['x', 'y', 'z'],
             SD=['x', 'y', 'w'], SE=['x'])


def rnd_value(rnd, depth):
    k = rnd.randrange(7 if depth == 0 else 14)
    if k <= 2:
        num = dict(t='num', m=rnd.choice([0, 0, 1, 1, 2, 2, 12345]),
                   u=rnd.choice([0, 0, 3, 25, -25]))
        c = rnd.random()
        if c < .1:
            return dict(t='inf', v=rnd.choice(['inf', '-inf']))
        elif c < .2:
            return dict(t='cplx', of=[num, dict(t='num', m=rnd.randrange(
                2), u=rnd.choice([0, 3, 25]))])
        elif c < .4:
            num.update(long=1, int=1)
        return num
    elif k <= 4:
        return dict(t='str', v=rnd.choice(['', 'a', 'b', u'\xe9', '1']))
    elif k == 5:
        return dict(t='none', v='')
    elif k == 6:
        return dict(t='unicode', v=rnd.choice(['', 'a', u'\xe9']))
    n = rnd.randrange(4)
    of = [rnd_value(rnd, depth - 1) for _ in range(n)]
    if k <= 8:
        return dict(t='iter' if rnd.random() < .15 else 'list', of=of)
    elif k == 9:
        return dict(t='tuple', of=of)
    if k == 13:
        cls = rnd.choice(sorted(SLOTS))
        keys = [x for x in SLOTS[cls] if rnd.random() < .8]
        return dict(t='slots', cls=cls, keys=keys,
                    of=[rnd_value(rnd, depth - 1) for _ in keys])
    keys = rnd.sample(['x', 'y', 'z', 'w'], n)
    if k <= 11:
        if n and rnd.random() < .25:
            keys[0] = rnd.choice(['#1', '1', '#0', ''])
        return dict(t='dict', keys=keys, of=of)
    return dict(t='obj', cls=rnd.choice(['A', 'B', 'A2']), keys=keys, of=of)


def change(rnd, v, ex):
    """A copy of v, changed somewhere (perhaps only below an excluded key)"""
    v = dict(v)
    if v['t'] == 'cplx':
        return dict(v, of=[v['of'][0], dict(v['of'][1], m=1 - v['of'][1]['m'])])
    if v.get('of') and rnd.random() < .75:
        i = rnd.randrange(len(v['of']))
        of = list(v['of'])
        of[i] = change(rnd, of[i], ex)
        v['of'] = of
        return v
    c = rnd.randrange(6)
    if v['t'] in ('dict', 'obj', 'slots') and c < 3:
        free = [k for k in SLOTS.get(v.get('cls'), ['x', 'y', 'z', 'w'])
                if k not in v['keys']]
        if v['t'] == 'dict' and rnd.random() < .3:
            free = [k for k in ['#1', '1'] if k not in v['keys']]
        if c == 0 and v['keys']:
            v['keys'], v['of'] = v['keys'][1:], v['of'][1:]
        elif free:
            if c == 1 and v['keys']:
                v['keys'] = [rnd.choice(free)] + v['keys'][1:]
            else:
                v['keys'] = v['keys'] + [rnd.choice(free)]
                v['of'] = v['of'] + [rnd_value(rnd, 0)]
        return v
    if v['t'] == 'num' and c < 4:
        return dict(v, u=v['u'] + rnd.choice([1, 3, -4, 20, 50, -25, 100000]))
    if v['t'] in ('obj', 'slots') and c < 5:
        return dict(v, cls=rnd.choice(
            ['A', 'B', 'A2'] if v['t'] == 'obj' else
            [x for x in sorted(SLOTS) if set(v['keys']) <= set(SLOTS[x])]))
    if v['t'] in ('list', 'tuple', 'iter') and c == 5 and len(v['of']) > 1:
        return dict(v, of=v['of'][::-1])
    if v['t'] in ('list', 'tuple', 'iter') and c < 4:
        of = list(v['of'])
        if c < 2 and of:
            of.pop()
        else:
            of.append(rnd_value(rnd, 0))
        return dict(v, of=of)
    return rnd_value(rnd, 1)


def run_g04(run):
    big = run.thorough
    vlib.design_check(run, 'DeepEqMC', 'DeepEqMC.cfg')
    cl = lambda s, t: ['eq' if t['ab']['eq'] else 'ne']

    def enum():
        scns = sorted(vlib.tlc_scenarios(run, 'DeepEqMC', 'DeepEqEnum.cfg',
                                         workers=2), key=str)
        k = 1 if big else 6
        vlib.section(run, 'small-structures', 'gen', 'DeepEqTrace',
                     [dict(s, call='deep') for s in scns[run.seed % k::k]],
                     shards=2, classify=cl)

    def rand():
        rnd = random.Random(run.seed)
        scns = []
        for _ in range(20000 if big else 2000):
            a = rnd_value(rnd, rnd.choice([1, 2, 3, 3]))
            ex = rnd.choice([[], [], ['x'], ['y', 'z']])
            b = a
            for _ in range(rnd.choice([0, 1, 1, 1, 2])):
                b = change(rnd, b, ex)
            scns.append(dict(call='deep', a=a, b=b, ex=ex,
                             dec=rnd.choice([7, 7, 2, 4, 1])))
        vlib.section(run, 'changed-structures', 'gen', 'DeepEqTrace', scns,
                     shards=2, classify=cl)
    vlib.together(enum, rand)


def run_g05(run):
    big = run.thorough
    rnd = random.Random(run.seed)
    scns = sorted(vlib.tlc_scenarios(run, 'MiscMC', 'MiscMC.cfg', workers=2),
                  key=str)
    if not big:
        scns = scns[run.seed % 2::2]
    for s in scns:
        if s['call'] == 'ceil':
            s['eps'] = 0
        if s['call'] == 'distinct':
            s['src'] = rnd.choice(['list', 'gen'])
        else:
            s['unit'] = rnd.choice([1, 1, .5, .25])
    for _ in range(3000 if big else 300):
        scns.append(dict(call='ceil', a=rnd.randrange(-10 ** 6, 10 ** 6),
                         b=rnd.choice([1, 2, 3, 7, 10, 100, 999, 1000]),
                         eps=0))
        scns.append(dict(call='ceil', a=rnd.randrange(-1000, 1000),
                         b=rnd.choice([1, 2, 3, 4, 8]),
                         eps=rnd.choice([-1, 1])))
        scns.append(dict(call='ceil', a=rnd.choice([-1, 0, 1, 2, 10 ** 9]),
                         b=rnd.choice([10 ** 9, 2 * 10 ** 9, 10 ** 9 - 1]),
                         eps=0))
        scns.append(dict(call='distinct', src='list', keys=[
            rnd.choice(['', 'a', 'A', 'b', 'aa', u'\xe9', ' ', '#1', '1', '#0',
                        '0', '(a,b)', '(b,a)', 'None', '#-1'])
            for _ in range(rnd.randrange(15))]))
    words = ['true', 'yes', 't', '1', 'false', 'no', 'f', '0', '', ' ', 'y',
             'on', 'tr', 'truee', 'yess', '11', 'tt', 'none', 'true ', ' 1',
             '2', 'ye', 'rue', u'\xe9', '1.0', 'not', 'to', 'true,yes', ',']
    for w in words:
        for f in (str.lower, str.upper, str.title, str.swapcase,
                  lambda w: ''.join(rnd.choice([c.lower(), c.upper()])
                                    for c in w)):
            scns.append(dict(call='str2bool', text=f(w)))
    contents = ['', 'a', 'line\n', 'a\r\nb\n', ' ', u'\xe9\n', 'x' * 5000,
                '0', '%s', '\n', 'no newline', '\ttab', 'a\nb\nc', '\0',
                'a\0', ' a ', 'a\n\n', u'\ufeffa', '\r', 'a\r', '\x1a', 'a' * 70000]
    for c in contents:
        for p, x in [('tmp', 'tmp'), ('pre_', '.ini'), ('', ''), ('', '.x'),
                     ('a.b', ''), ('job', '.xml')]:
            scns.append(dict(call='writetmp', content=c, prefix=p, suffix=x,
                             nested=rnd.choice([True, False]),
                             exists=rnd.choice([True, False]),
                             pass_empty=rnd.choice([True, False])))
    vlib.section(run, 'utilities', 'gen', 'Misc', scns, shards=2,
                 classify=lambda s, t: ['%s:%s' % (s['call'], t['out'])])

LV = 'model_checking'
CHECKS = {
    'G01': dict(run=run_g01, level=LV, technique=(
        'TLA+ block splitting machine, model checked; blocks yielded by the '
        'code on TLC-enumerated and random inputs validated by TLC')),
    'G02': dict(run=run_g02, level=LV, technique=(
        'TLA+ block splitting machine with the hint bound, model checked; '
        'blocks yielded by the code validated by TLC')),
    'G03': dict(run=run_g03, level=LV, technique=(
        'TLA+ state machine of a pool of weighted sequences, model checked; '
        'TLC-generated histories replayed and validated by TLC')),
    'G04': dict(run=run_g04, level=LV, technique=(
        'TLA+ three-valued deep comparison, its laws model checked; '
        'TLC-enumerated and mutated structures compared by the code and '
        'judged by TLC')),
    'G05': dict(run=run_g05, level=LV, technique=(
        'TLA+ definitions of the utilities; TLC-enumerated inputs run on the '
        'code and judged by TLC')),
}
