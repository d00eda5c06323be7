import copy
import random
import vlib

IDS = ['1', '2', 's1', 's1-0', 'A', 'a', ' 1', '10', 'x y', 'src_3']


def rnd_src(rnd, root, trts):
    t = rnd.choice(['point', 'area', 'simple', 'complex', 'char'])
    gr = rnd.random() < .4
    lo = rnd.randrange(10, 20) * 2 + (1 if gr else rnd.choice([0, 1]))
    if not gr and rnd.random() < .1:
        lo = rnd.choice([0, 2])
    n = rnd.randrange(1, 5)
    hi = lo + 2 * (n - 1)
    mags = list(range(lo, hi + 1, 2))
    if not gr:
        z = rnd.choice([0, 0, .3, .6])
        mags = [m for m in mags if rnd.random() >= z]
        if rnd.random() < .05:
            mags = []
    planes, depths = rnd.randrange(1, 4), rnd.randrange(1, 3)
    rect = [rnd.randrange(-50, 50), rnd.randrange(-50, 50),
            rnd.randrange(1, 5), rnd.randrange(1, 4)]
    s = dict(root=root, t=t, trt=rnd.choice(trts), lo=lo, hi=hi, mags=mags,
             k=planes * depths,
             loc=[rnd.randrange(-999, 999), rnd.randrange(-999, 999)]
             if t == 'point' else [],
             rect=rect if t == 'area' else [])
    return s, dict(gr=gr, planes=planes)


def rnd_file(rnd, root0, n, trts, dup=0):
    items, ids = [], rnd.sample(IDS, len(IDS))
    for j in range(n):
        s, extra = rnd_src(rnd, root0 + j, trts)
        if j < len(ids):
            i = ids[j]
        else:
            i = 'id%d' % j
        if items and rnd.random() < dup:
            i = rnd.choice(items)['id']
        items.append(dict(id=i, s=s, extra=extra))
    return items


def parse_op(rnd, root0, n, dup=0):
    trts = rnd.choice([[1], [1, 2], [1, 2, 3, 4], [2, 4], [3, 1, 3]])
    f = rnd_file(rnd, root0, n, trts, dup)
    unc = [dict(root=x['s']['root'], shift=rnd.choice(
        [0, 2, 4, 10, -2 if x['s']['lo'] else 0]),
                trt=rnd.choice([-1, -1, -1, -1, 1, 3]))
           for x in f if rnd.random() < .4]
    return dict(op='parse', file=f, unc=unc, reread=int(rnd.random() < .3))


def history(rnd, maxlen, focus):
    ops = []
    roots = []
    npool = 0
    for k in range(rnd.randrange(1, 3)):
        n = rnd.choice([0, 1, 2, 3, 5, 8, 12] if focus == 'parse'
                       else [1, 2, 3, 5, 8])
        op = parse_op(rnd, 1 + len(roots), n,
                      rnd.choice([0, 0, .2]) if focus == 'parse' else 0)
        roots += [x['s']['root'] for x in op['file']]
        ops.append(op)
        npool += 2
    for k in range(rnd.randrange(1, maxlen)):
        c = rnd.random()
        acc = rnd.choice([roots, [], None, None, None])
        if acc is None:
            p = rnd.choice([.2, .5, .8])
            acc = [r for r in roots if rnd.random() < p]
        i = rnd.randrange(1, npool + 1)
        how = rnd.choice(['list', 'true', 'src', 'obj'])
        if focus == 'parse':
            ops.append(dict(op='less', i=i, j=rnd.randrange(1, npool + 1)))
        elif c < .25:
            ops.append(dict(op='filter', i=i, acc=acc, how=how))
            npool += 1
        elif c < .6:
            ops.append(dict(op='gen', i=i, acc=acc, how=how,
                            max=rnd.choice([1, 50, 99, 100, 101, 300, 1000,
                                            5000]), d=rnd.choice([1, 2])))
        elif c < .7:
            ops.append(dict(op='abandon', i=i, acc=acc, how=how,
                            n=rnd.randrange(3), max=rnd.choice(
                                [1, 50, 200, 1000]), d=rnd.choice([1, 2])))
        elif c < .8:
            ops.append(dict(op='new', i=i, at=[rnd.randrange(9) for _ in
                                               range(rnd.randrange(1, 4))]))
            npool += 1
        elif c < .9:
            ops.append(dict(op='update', i=i, j=rnd.randrange(1, npool + 1),
                            p=rnd.randrange(9)))
        else:
            ops.append(dict(op='less', i=i, j=rnd.randrange(1, npool + 1)))
    return dict(call='groups', ops=ops,
                unit=rnd.choice([.25, .25, .5, 1. / 4096]))


def from_enum(s, focus):
    """A scenario printed by TLC as a history"""
    f = [dict(id=x['id'], s=x['s'], extra={}) for x in s['file']]
    ops = [dict(op='parse', file=f, reread=0, unc=[
        dict(root=x['s']['root'], shift=s['shift'], trt=-1) for x in f])]
    if s['sel'] and focus == 'gen':
        ops.append(dict(op='gen', i=s['sel'], acc=s['acc'], max=s['max'],
                        d=s['disc']))
    return dict(call='groups', ops=ops)


def cls_groups(scn, tr):
    for e in tr['events']:
        yield '%s:%s' % (e['op'], e['out'])
        if e['op'] == 'gen':
            yield 'blocks:%d' % min(len(e['blocks']), 4)


def groups(run, focus):
    big = run.thorough
    vlib.design_check(run, 'SourceGroupsMC', 'SourceGroupsMC.cfg',
                      consts={'Kinds': '<- KindsAll'} if big else None)

    def enum():
        scns = sorted(vlib.tlc_scenarios(
            run, 'SourceGroupsMC', 'SourceGroupsEnum.cfg', workers=2), key=str)
        if focus == 'parse':    # the blocks do not matter here
            seen, keep = set(), []
            for s in scns:
                key = str(s['file'])
                if key not in seen:
                    seen.add(key)
                    keep.append(s)
            scns = keep
        n = 40000 if big else 1200
        k = max(1, len(scns) // n)
        vlib.section(run, 'small-models-exhaustive', 'sources',
                     'SourceGroupsTrace',
                     [from_enum(s, focus) for s in scns[run.seed % k::k]],
                     shards=3, classify=cls_groups)

    def walk():
        rnd = random.Random(run.seed)
        vlib.section(run, 'histories-random', 'sources', 'SourceGroupsTrace',
                     [history(rnd, 4 if focus == 'parse' else 7, focus)
                      for _ in range(20000 if big else 1000)],
                     shards=3, classify=cls_groups)
    vlib.together(enum, walk)


def run_s01(run):
    groups(run, 'parse')


def run_s03(run):
    groups(run, 'gen')


# ------------------------------------------------------------ splitting

def mfd_of(rnd, rates=None):
    bw = rnd.choice([.1, .25, .5, 1., .2])
    lo = rnd.choice([4., 4.55, 5., 5.1, 6.3])
    if rates is None and rnd.random() < .4:
        return dict(t='gr', a=rnd.uniform(-4, 4), b=rnd.choice(
            [.5, 1., 1.2, .87]), min=lo, max=lo + bw * rnd.randrange(1, 6)
            + 1e-9, bin=bw)
    if rates is None:
        rates = [rnd.choice([0., 0., 1., rnd.random(), rnd.random() * 1e-5])
                 for _ in range(rnd.randrange(1, 8))]
    return dict(t='inc', min=lo, bin=bw, rates=rates)


def split_src(rnd, t, dist, box=None):
    n = rnd.randrange(1, 4)
    w, h = box or (rnd.uniform(.01, .05), rnd.uniform(.01, .04))
    x, y = rnd.uniform(-170, 170), rnd.uniform(-80, 80)
    pts = [[x, y]] if t == 'point' else [[x, y], [x + w, y + h]]
    if t == 'area':
        pts = [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
        if rnd.random() < .3:
            pts.append([x, y + h / 2])
    return dict(t=t, id=rnd.choice(IDS), name=rnd.choice(['n', 'A b', 'x-0']),
                trt=rnd.choice(['A', 'Volcanic']), mfd=dist,
                tom=rnd.choice([1., 50.]), rms=rnd.choice([1., 2.5]),
                rar=rnd.choice([.5, 1., 2.]), pts=pts, usd=rnd.choice(
                    [0., 3.5]), lsd=rnd.choice([10., 12.5]),
                dip=rnd.choice([30., 90.]), rake=rnd.choice([-90., 0., 45.]),
                disc=rnd.choice([1., 2., 5.]),
                npd=[[1. / n, 10. * i, 45., 5. * i] for i in range(n)],
                hdd=[[1., 7.]] if rnd.random() < .5 else
                [[.25, 2.], [.75, 4.]])


def rnd_split(rnd, s):
    s['call'] = 'split'
    s['disc'] = s.get('disc') or rnd.choice([1., 1., 2., .9, 5.])
    s['how'] = rnd.choice(['once', 'once', 'twice', 'again'])
    if rnd.random() < .2:
        s['nth'] = rnd.randrange(1, 4)
    return s


def run_s02(run):
    big = run.thorough
    vlib.design_check(run, 'SplittingMC', 'SplittingMC.cfg',
                      consts={'MaxBins': 7 if big else 5})

    def enum():
        rnd = random.Random(run.seed)
        scns = []
        for e in sorted(vlib.tlc_scenarios(run, 'SplittingMC',
                                           'SplittingEnum.cfg'), key=str):
            rates = [r * rnd.choice([.5, .1]) for r in e['rates']]
            kinds = {'fault': ['simple', 'complex'], 'area': ['area'],
                     'other': ['char', 'point']}[e['kind']]
            for t in kinds:
                # a row of grid points
                src = split_src(rnd, t, mfd_of(rnd, rates), (
                    .01 * (e['points'] - 1) + .001, .005))
                scns.append(rnd_split(rnd, dict(src=src, disc=1.)))
        vlib.section(run, 'rate-patterns-exhaustive', 'sources',
                     'SplittingTrace', scns, shards=2,
                     classify=lambda s, t: [t['kind'] + ':' + t['out']])

    def rand():
        rnd = random.Random(run.seed + 1)
        scns = []
        for _ in range(20000 if big else 1500):
            t = rnd.choice(['point', 'area', 'area', 'simple', 'simple',
                            'complex', 'char'])
            scns.append(rnd_split(rnd, dict(src=split_src(
                rnd, t, mfd_of(rnd)))))
        vlib.section(run, 'sources-random', 'sources', 'SplittingTrace', scns,
                     shards=3,
                     classify=lambda s, t: [t['kind'] + ':' + t['out']])
    vlib.together(enum, rand)


# --------------------------------------------------------- conversion

def num(rnd, lo, hi):
    """1/1024ths: often round numbers"""
    if lo <= 0 and rnd.random() < .1:
        return 0
    x = rnd.randrange(lo * 1024, hi * 1024 + 1)
    return x if rnd.random() < .5 else x // 1024 * 1024


def probs(rnd, n):
    cuts = sorted(rnd.sample(range(1, 1024), n - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [1024])]


def rnd_point(rnd, dim):
    return [num(rnd, -180, 180), num(rnd, -90, 90),
            num(rnd, 0, 99)][:dim]


def rnd_desc(rnd):
    t = rnd.choice(['point', 'area', 'simple', 'complex', 'char', 'char',
                    'char', 'srup', 'crup'])
    surf = rnd.choice(['simple', 'complex', 'planar'])
    dim = rnd.choice([2, 2, 3])
    shape = surf if t == 'char' else t
    if shape == 'point':
        lines = [[rnd_point(rnd, dim)]]
    elif shape == 'area':
        lines = [[rnd_point(rnd, dim) for _ in range(rnd.randrange(3, 7))]]
    elif shape in ('complex', 'crup'):
        lines = [[rnd_point(rnd, dim) for _ in range(rnd.randrange(2, 5))]
                 for _ in range(rnd.randrange(2, 6))]
    else:
        lines = [[rnd_point(rnd, dim) for _ in range(rnd.randrange(2, 6))]]
    for ln in lines:
        if len(ln) > 1 and rnd.random() < .3:   # passes twice by a point
            ln.insert(rnd.randrange(len(ln) + 1), list(rnd.choice(ln)))
    if len(lines) > 1 and rnd.random() < .2:
        lines.insert(rnd.randrange(len(lines)), copy.deepcopy(
            rnd.choice(lines)))
    usd = num(rnd, 0, 20)
    mn = num(rnd, 4, 6)
    d = dict(
        t=t, id=rnd.choice(IDS + ['Z9', 'id=7', 'x%s']),
        name=rnd.choice(['A', 'fault (1)', "it's", 'Some name', '50%']),
        trt=rnd.choice(['Volcanic', 'Active Shallow Crust', '']),
        msr=rnd.choice(['WC1994', 'PeerMSR', 'PointMSR']),
        rar=num(rnd, 1, 3), usd=usd, lsd=usd + 1 + num(rnd, 0, 30),
        dip=max(1, num(rnd, 0, 90)), rake=num(rnd, -180, 180), lines=lines,
        surf=surf, planes=[dict(
            strike=num(rnd, 0, 360), dip=num(rnd, 1, 90),
            c=[rnd_point(rnd, 3) for _ in range(4)])
            for _ in range(rnd.randrange(1, 4))],
        mfd=dict(t=rnd.choice(['gr', 'inc']), a=num(rnd, -4, 5),
                 b=1 + num(rnd, 0, 2), min=mn, max=mn + 2048 + num(rnd, 0, 2),
                 bin=1 + num(rnd, 0, 1), rates=[
                     rnd.choice([0, 1, num(rnd, 0, 2)])
                     for _ in range(rnd.randrange(1, 6))]),
        npd=[[p, num(rnd, 0, 360), max(1, num(rnd, 0, 90)),
              num(rnd, -180, 180)] for p in probs(rnd, rnd.randrange(1, 4))],
        hdd=[[p, num(rnd, 0, 30)] for p in probs(rnd, rnd.randrange(1, 4))],
        mag=num(rnd, 5, 8) + 1, hypo=rnd_point(rnd, 3), bad=False)
    for key in ('npd', 'hdd'):
        if len(d[key]) > 1 and rnd.random() < .2:   # equal up to probability
            d[key][-1][1:] = d[key][0][1:]
    if rnd.random() < .2:
        d['planes'].append(copy.deepcopy(d['planes'][0]))
    if rnd.random() < .2:
        k = rnd.randrange(12)
        if k == 0:
            d['bad'] = True
        elif k == 1:
            rnd.choice(rnd.choice(d['lines']))[0] = rnd.choice(
                [-184321, 184321])
        elif k == 2:
            rnd.choice(rnd.choice(d['lines']))[1] = rnd.choice(
                [-92161, 92161])
        elif k == 3:
            d['msr'] = rnd.choice(['', 'wc1994'])
        elif k == 4:
            d['rar'] = rnd.choice([0, -1])
        elif k == 5:
            d['lsd'] = d['usd'] - rnd.choice([0, 1])
        elif k == 6:
            d['dip'] = rnd.choice([0, 92161, -1])
        elif k == 7:
            d['mfd'].update(rnd.choice([
                dict(t='inc', rates=[]), dict(t='inc', bin=0),
                dict(t='inc', rates=[1, -1]), dict(t='gr', b=0),
                dict(t='gr', max=mn), dict(min=-1)]))
        elif k == 8:
            d['npd'][0][0] += rnd.choice([1, -1])
        elif k == 9:
            d['hdd'][-1][0] += rnd.choice([1, -1])
        elif k == 10:
            d['npd'][-1][2] = rnd.choice([0, 92161])
        else:
            d['mag'] = 0
    return d


def rnd_pars(rnd):
    return dict(inv=rnd.choice([0, 1024, 51200, 512, 1]), rms=rnd.choice(
        [1024, 2560, 5120, 0] if rnd.random() < .1 else [1024, 2560, 7]),
        bin=rnd.choice([-1] if rnd.random() < .1 else [512, 1024, 103]),
        disc=rnd.choice([1024, 10240]))


def run_s04(run):
    big = run.thorough
    vlib.design_check(run, 'ConversionMC', 'ConversionMC.cfg',
                      consts={'MaxSteps': 6 if big else 2})
    out = lambda s, t: ['%s:%s' % (s['descs'][e['d'] - 1]['t'], e['out'])
                        for e in t['events']]

    def enum():
        rnd = random.Random(run.seed)
        scns = []
        for e in sorted(vlib.tlc_scenarios(run, 'ConversionMC',
                                           'ConversionEnum.cfg'), key=str):
            steps = [[1, 1]] + [[1, rnd.randrange(1, 3)] for _ in
                                range(rnd.randrange(0, 3))]
            scns.append(dict(call='convert', descs=[e['desc']],
                             pars=[e['par'], rnd_pars(rnd)], steps=steps))
        vlib.section(run, 'features-exhaustive', 'sources', 'ConversionTrace',
                     scns, shards=2, classify=out)

    def rand():
        rnd = random.Random(run.seed + 1)
        scns = []
        for _ in range(15000 if big else 900):
            descs = [rnd_desc(rnd) for _ in range(rnd.randrange(1, 4))]
            pars = [rnd_pars(rnd) for _ in range(rnd.randrange(1, 3))]
            scns.append(dict(
                call='convert', descs=descs, pars=pars,
                steps=[[rnd.randrange(1, len(descs) + 1),
                        rnd.randrange(1, len(pars) + 1)]
                       for _ in range(rnd.randrange(1, 6))]))
        vlib.section(run, 'histories-random', 'sources', 'ConversionTrace',
                     scns, shards=3, classify=out)
    vlib.together(enum, rand)


TECH = 'model-checked TLA+ specification; models and histories printed by ' \
    'TLC and random ones run on the real code, every step validated by TLC'
CHECKS = dict((i, dict(run=f, level='model_checking', technique=TECH))
              for i, f in [('S01', run_s01), ('S02', run_s02), ('S03', run_s03),
                           ('S04', run_s04)])
