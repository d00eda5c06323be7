import copy
import random
import vlib

TRTS = ['Shield', 'Volcanic', 'Active Shallow Crust', 'Stable Shallow Crust',
        'Subduction IntraSlab', 'Subduction', u'R\xe9gion \u03b1']
TYPES = ['point', 'area', 'simpleFault', 'complexFault',
         'characteristicFault']
GSIMS = ['AkkarBommer2010', 'ChiouYoungs2008', 'SadighEtAl1997',
         'BooreAtkinson2008', 'FaccioliEtAl2010']
SRC_IDS = ['s1', 's10', '1', 's2', 'S1', 's', 'src-7']
GOOD = ['+0.5', '-0.5', '1', '0', '.5', '+7', '10.25', '-3.0', '007']
BAD = ['x', '--1', '1.2.3', '1 2', '+', '.', '0x1', '1,5', 'one']
PAIRS = ['1 2', '-0.5 +1.25', ' 3   .5', '4.5 1']
BADPAIRS = ['1', '1 2 3', 'a b', '1 b', '1,2', 'x 2', '1;2']
RELATIVE = ['bGRRelative', 'maxMagGRRelative']
ABSOLUTE = ['abGRAbsolute', 'maxMagGRAbsolute']


def shapes(run, n, extra=0):
    """Document shapes: enumerated by TLC, and larger ones at random"""
    rnd = random.Random(run.seed + extra)
    small = sorted(vlib.tlc_scenarios(run, 'LogicTreeMC', 'LogicTreeEnum.cfg',
                                      workers=2), key=str)
    if run.thorough:
        n *= 6
    sim = vlib.tlc_scenarios(run, 'LogicTreeMC', 'LogicTreeSim.cfg',
                             simulate=n, depth=12, seed=run.seed + extra)
    sim += vlib.tlc_scenarios(run, 'LogicTreeMC', 'LogicTreeSim.cfg',
                              consts=dict(MaxLevels=3), simulate=n // 2,
                              depth=12, seed=run.seed + extra + 1)
    rnd.shuffle(small)
    small = small[:n * 2]
    out = [(s['doc'], 10) for s in small] + [(s['doc'], 100) for s in sim]
    return out


def design(run):
    vlib.design_check(run, 'LogicTreeMC', 'LogicTreeMC.cfg', consts=dict(
        MaxLevels=3, Zero='TRUE' if run.thorough else 'FALSE'))
    if not run.thorough:
        vlib.design_check(run, 'LogicTreeMC', 'LogicTreeMC.cfg', consts=dict(
            MaxLevels=2, MaxBranches=3, Zero='TRUE'), workers=2)


def files_for(rnd, names, all_types=False):
    out = []
    for name in names:
        srcs = []
        for i in rnd.sample(SRC_IDS, rnd.randrange(1, 5)):
            srcs.append(dict(id=i, type=rnd.choice(TYPES),
                             trt=rnd.choice(TRTS)))
        out.append(dict(name=name, state='ok', sources=srcs))
    return out


def rename(rnd, doc, letters=None):
    """Identifiers in no particular order"""
    ids = [br['id'] for lev in doc for b in lev for br in b['branches']]
    new = list(ids)
    if rnd.random() < .6:
        pool = ['b%d' % i for i in range(len(ids))] + ['b', 'B1', 'b-1',
                                                       'a', 'zz', '10', '1',
                                                       u'\xe9']
        new = rnd.sample(pool, len(ids))
    m = dict(zip(ids, new))
    for lev in doc:
        for b in lev:
            b['apply'] = [m[x] for x in b['apply']]
            rnd.shuffle(b['apply'])
            for br in b['branches']:
                br['id'] = m[br['id']]


def dress_source(rnd, doc, loose=False):
    """A valid source model logic tree of the given shape.  loose: filters
    are combined as the rules do not allow"""
    doc = copy.deepcopy(doc)
    rename(rnd, doc)
    root = doc[0][0]
    names = ['sm%d.xml' % i for i in range(len(root['branches']))]
    if rnd.random() < .4:
        names = [rnd.choice(['', '', './', 'sub/', 'sub/../', 'a b/',
                             'sub/deep/']) + nm
                 for nm in names]
    if rnd.random() < .3:
        names = [rnd.choice(names) for _ in names]
    for br, nm in zip(root['branches'], names):
        br['val'] = nm
    files = files_for(rnd, sorted(set(names)))
    known = [s for f in files for s in f['sources']]
    for lev in doc[1:]:
        for b in lev:
            b['type'] = rnd.choice(RELATIVE + ABSOLUTE)
            s = rnd.choice(known)
            if b['type'] in ABSOLUTE and not loose:
                b['srcs'] = [s['id']]
            else:
                k = rnd.randrange(5)
                if loose and k == 4:
                    k = rnd.choice([1, 2, 3])
                    b['trt'] = s['trt']
                if k == 1:
                    b['trt'] = s['trt']
                elif k == 2:
                    b['styp'] = s['type']
                elif k == 3:
                    b['srcs'] = sorted(set(
                        rnd.choice(known)['id']
                        for _ in range(rnd.randrange(1, 4))))
                    rnd.shuffle(b['srcs'])
            for br in b['branches']:
                br['val'] = rnd.choice(PAIRS if b['type'] == 'abGRAbsolute'
                                       else GOOD)
    return doc, files


def common(rnd, scn):
    scn.setdefault('known', [])
    scn.update(fmt=rnd.randrange(4), gap=rnd.choice([0, 0, 1, 2]),
               unicode=rnd.random() < .3)
    return scn


# ------------------------------------------------------------------- L01

def cls_paths(scn, tr):
    yield 'levels-%d' % len(scn['doc'])
    n = len(tr.get('rlzs', []))
    yield 'paths-%s' % ('1' if n == 1 else '2-9' if n < 10 else '10+')
    if any(len(lev) > 1 for lev in scn['doc']):
        yield 'several-sets-in-a-level'
    if any(b['apply'] for lev in scn['doc'] for b in lev):
        yield 'attached-by-name'


def run_l01(run):
    design(run)
    rnd = random.Random(run.seed)
    scns = []
    for doc, units in shapes(run, 250):
        doc, files = dress_source(rnd, doc)
        scns.append(common(rnd, dict(
            call='paths', doc=doc, units=units, files=files,
            validate=rnd.random() < .5, from_hc=rnd.random() < .2)))
    for s in scns:
        if s['from_hc']:
            s['validate'] = False
    vlib.section(run, 'enumeration', 'trees', 'LogicTreeTrace', scns,
                 shards=4, classify=cls_paths)


# ------------------------------------------------------------------- L02

def fine(doc, factor):
    """The same weights, in smaller units"""
    for lev in doc:
        for b in lev:
            for br in b['branches']:
                br['w'] *= factor


def tiny(rnd, doc, balanced=True):
    """Weights off by digits far below the unit"""
    scale = rnd.choice([9, 10, 12, 12, 17, 22])
    l, n = rnd.choice(keys(doc))
    brs = [br for br in doc[l][n]['branches'] if br['w'] > 0]
    rnd.shuffle(brs)
    for br in brs:
        br['scale'] = scale
    if balanced and len(brs) > 1 and rnd.random() < .5:
        e = rnd.randrange(1, 5)
        brs[0]['e'], brs[1]['e'] = e, -e
    elif brs:
        brs[0]['e'] = rnd.choice([-2, -1, 1, 3])


def keys(doc):
    return [(l, n) for l in range(len(doc)) for n in range(len(doc[l]))]


def break_source(rnd, doc, files):
    """Break (perhaps) a rule somewhere"""
    ks = keys(doc)
    l, n = rnd.choice(ks)
    if rnd.random() < .6 and len(ks) > 1:
        l, n = rnd.choice(ks[1:])
    b = doc[l][n]
    br = rnd.choice(b['branches'])
    ids = [x['id'] for i, j in ks for x in doc[i][j]['branches']]
    k = rnd.randrange(17)
    if k == 0:
        br['w'] += rnd.choice([-1, 1, 3])
        br['w'] = max(br['w'], 0)
    elif k == 1:
        br['id'] = rnd.choice(ids)
    elif k == 2:
        br['val'] = rnd.choice(BADPAIRS if b['type'] == 'abGRAbsolute'
                               else BAD) if l else rnd.choice(
            [files[0]['name'], 'nowhere.xml', 'sub/nowhere.xml'])
    elif k == 3:
        b['trt'] = rnd.choice(TRTS + ['Shiel', 'shield'])
    elif k == 4:
        b['styp'] = rnd.choice(TYPES + ['pointSource'])
    elif k == 5:
        b['srcs'] = [rnd.choice(SRC_IDS) for _ in
                     range(rnd.randrange(1, 3))]
    elif k == 6:
        b['srcs'] = b['srcs'] + [rnd.choice(SRC_IDS + ['nosuch'])]
    elif k == 7:
        b['type'] = rnd.choice(['sourceModel', 'gmpeModel'] + RELATIVE +
                               ABSOLUTE)
    elif k == 8 and l:
        b['apply'] = b['apply'] + [rnd.choice(ids + ['nosuch'])]
    elif k == 9 and l:
        b['apply'] = rnd.sample(ids, min(len(ids), rnd.randrange(1, 4)))
    elif k == 10:
        doc[0].append(copy.deepcopy(doc[0][0]))
        for x in doc[0][1]['branches']:
            x['id'] = 'n' + x['id']
    elif k == 11:
        b['type'] = rnd.choice(ABSOLUTE)
        for x in b['branches']:
            x['val'] = '1 2' if b['type'] == 'abGRAbsolute' else '1'
        b['srcs'] = b['srcs'][:rnd.randrange(2)]
    elif k == 12:
        f = rnd.choice(files)
        f['state'] = rnd.choice(['broken', 'missing'])
    elif k == 13 and b['apply']:
        b['apply'] = b['apply'][:-1] or b['apply']
    elif k == 14 and len(doc) > 2:
        # a level in front of another
        i = rnd.randrange(1, len(doc) - 1)
        doc[i], doc[i + 1] = doc[i + 1], doc[i]
    elif k == 15 and l:
        doc[l].append(copy.deepcopy(b))
        for x in doc[l][-1]['branches']:
            x['id'] = 'n' + x['id']
    elif k == 16 and b['srcs']:
        b['srcs'] = b['srcs'] * 2


def gmpe_doc(rnd, nlev, units=100):
    """A ground motion logic tree with distinct regions"""
    trts = rnd.sample(TRTS, nlev)
    splits = [[100], [100], [50, 50], [30, 70], [0, 100], [100, 0],
              [20, 30, 50], [25, 25, 50], [10, 20, 30, 40], [7, 0, 93]]
    doc = []
    pool = ['b%d' % i for i in range(16)] + ['a', 'z', 'B', '2', '10']
    rnd.shuffle(pool)
    if rnd.random() < .3:
        pool.sort(reverse=True)
    bsids = rnd.sample(['bs1', 'bs2', 'bs10', 'bs3', 'a', 'Z', 'bs'], nlev)
    for i in range(nlev):
        ws = rnd.choice(splits)
        doc.append([dict(type='gmpeModel', apply=[], trt=trts[i], styp='',
                         srcs=[], bsid=bsids[i], branches=[
                             dict(id=pool.pop(), w=w, val=rnd.choice(GSIMS))
                             for w in ws])])
    return doc


def break_gmpe(rnd, doc):
    ks = keys(doc)
    l, n = rnd.choice(ks)
    b = doc[l][n]
    br = rnd.choice(b['branches'])
    ids = [x['id'] for i, j in ks for x in doc[i][j]['branches']]
    k = rnd.randrange(10)
    if k == 0:
        br['w'] = max(br['w'] + rnd.choice([-1, 1, 3]), 0)
    elif k == 1:
        br['id'] = rnd.choice(ids)
    elif k == 2:
        br['val'] = rnd.choice(['NoSuchModel', 'sadighetal1997', '1'])
    elif k == 3:
        b['trt'] = rnd.choice(TRTS + ['shield'])
    elif k == 4:
        b['trt'] = ''
    elif k == 5:
        b['styp'] = 'point'
    elif k == 6:
        b['srcs'] = ['s1']
    elif k == 7:
        b['type'] = rnd.choice(RELATIVE + ABSOLUTE + ['sourceModel'])
    elif k == 8:
        doc[l].append(dict(copy.deepcopy(b), trt=rnd.choice(TRTS),
                           bsid='bs77'))
        for x in doc[l][-1]['branches']:
            x['id'] = 'n' + x['id']
    elif k == 9:
        doc.insert(rnd.randrange(len(doc) + 1), [dict(
            copy.deepcopy(b), bsid='bs88')])
        for x in doc[-1][0]['branches']:
            x['id'] = x['id'] + 'm'


def cls_validate(scn, tr):
    yield tr['out'] + (' ' + tr['where'].split(' ')[0]).rstrip()


def run_l02(run):
    rnd = random.Random(run.seed)
    design(run)
    base = shapes(run, 220, 5)
    scns = []
    for doc, units in base * 2:
        doc, files = dress_source(rnd, doc)
        broken = False
        if rnd.random() < .4:
            fine(doc, 10 ** 5)
            units *= 10 ** 5
        for _ in range(rnd.choice([0, 1, 1, 1, 1, 1, 2])):
            if rnd.random() < .02:
                broken = True
            elif rnd.random() < .08:
                tiny(rnd, doc)
            else:
                break_source(rnd, doc, files)
        scns.append(common(rnd, dict(
            call='validate', kind='source', doc=doc, units=units,
            files=files, broken=broken)))
    scns1, scns = scns, []
    for _ in range(700 * (8 if run.thorough else 1)):
        doc = gmpe_doc(rnd, rnd.randrange(1, 5))
        trts = [lev[0]['trt'] for lev in doc]
        known = list(trts)
        if rnd.random() < .3 and len(trts) > 1:
            known.remove(rnd.choice(known))       # one is skipped
        if rnd.random() < .1:
            known = sorted(set(known + [rnd.choice(TRTS)]))
        units = 100
        if rnd.random() < .4:
            fine(doc, 10 ** 5)
            units = 10 ** 7
        for _ in range(rnd.choice([0, 1, 1, 1, 2])):
            if rnd.random() < .08:
                tiny(rnd, doc)
            else:
                break_gmpe(rnd, doc)
        scns.append(common(rnd, dict(
            call='validate', kind='gmpe', doc=doc, units=units, files=[],
            known=known, broken=rnd.random() < .01)))
    vlib.together(
        lambda: vlib.section(run, 'source-rules', 'trees', 'LogicTreeTrace',
                             scns1, shards=4, classify=cls_validate),
        lambda: vlib.section(run, 'ground-motion-rules', 'trees',
                             'LogicTreeTrace', scns, shards=2,
                             classify=cls_validate))


# ------------------------------------------------------------------- L03

WEIGHTS = [[100], [50, 50], [25, 75], [0, 100], [100, 0], [0, 50, 0, 50],
           [20, 30, 50], [25, 25, 25, 25], [1, 99], [99, 1], [33, 33, 34],
           [0, 0, 100], [7, 0, 93], [10] * 10, [1] * 100, [50, 25, 25, 0]]


def rolls(rnd, n):
    kind = rnd.randrange(4)
    if kind == 0:     # on the boundaries, exactly
        return [rnd.choice([0, 16, 32, 48]) * 15625 for _ in range(n)]
    if kind == 1:
        return [rnd.randrange(64) * 15625 for _ in range(n)]
    if kind == 2:
        return [rnd.choice([0, 1, 999999, 10001, 9999, 499999, 500001])
                for _ in range(n)]
    return [rnd.randrange(1000000) for _ in range(n)]


def boundary(w, units):
    # millionths that are not multiples of 1/64 are not exact as floats:
    # keep them off the boundaries
    return w * 1000000 // units


def off(rs, cuts):
    return [r + 1 if r in cuts and r % 15625 else r for r in rs]


def cuts(ws, units):
    acc, out = 0, set()
    for w in ws:
        acc += w
        out.add(acc * max(10 ** 6, units) // units)
    return out


ALL_CUTS = set(i * 10000 for i in range(101))


def run_l03(run):
    rnd = random.Random(run.seed)
    design(run)
    scns = []
    for ws in WEIGHTS:
        for _ in range(25 * (10 if run.thorough else 1)):
            n = rnd.choice([0, 1, 2, 5, 20])
            scns.append(dict(call='sample', weights=ws, n=n, units=100,
                             rolls=off(rolls(rnd, n + 3), ALL_CUTS)))
        # every interval and its ends
        for r in sorted(cuts(ws, 100)):
            for d in (-1, 1):
                if 0 <= r + d < 1000000:
                    scns.append(dict(call='sample', weights=ws, n=1,
                                     units=100, rolls=[r + d, 5]))
    # weights far below the others
    big = 10 ** 9
    for _ in range(60 * (10 if run.thorough else 1)):
        ws = [rnd.choice([0, 2, 2, 5, 40, 700, 10 ** 4, 10 ** 6])
              for _ in range(rnd.randrange(1, 6))]
        ws.insert(rnd.randrange(len(ws) + 1), big - sum(ws))
        ends = sorted(cuts(ws, big) | set([0]))
        rs = [rnd.choice([a + 1, b - 1, (a + b) // 2])
              for a, b in zip(ends, ends[1:])] + [1]
        rnd.shuffle(rs)
        scns.append(dict(call='sample', weights=ws, n=len(rs), units=big,
                         rolls=rs))
    scns1, scns = scns, []
    for doc, units in shapes(run, 120, 9):
        doc, files = dress_source(rnd, doc)
        scns.append(walk(rnd, doc, units, 'source', files, []))
    for _ in range(200 * (8 if run.thorough else 1)):
        doc = gmpe_doc(rnd, rnd.randrange(1, 5))
        known = [lev[0]['trt'] for lev in doc]
        known = rnd.sample(known, rnd.randrange(1, len(known) + 1))
        scns.append(walk(rnd, doc, 100, 'gmpe', [], known))
    vlib.together(
        lambda: vlib.section(run, 'sequences', 'trees', 'LogicTreeTrace',
                             scns1, classify=lambda s, t: ['n-%d' % s['n']]),
        lambda: vlib.section(run, 'trees', 'trees', 'LogicTreeTrace', scns,
                             shards=3, classify=lambda s, t: [
                                 s['kind'] + '-' + s['mode']]))


def walk(rnd, doc, units, kind, files, known):
    mode = rnd.choice(['rolls', 'seed'])
    n = rnd.choice([1, 1, 2, 5, 12])
    return common(rnd, dict(
        call='walk', kind=kind, doc=doc, units=units, files=files,
        known=known, mode=mode, n=n, seed=rnd.choice([0, 1, 42, 2 ** 31 - 1,
                                                      rnd.randrange(10 ** 6)]),
        from_hc=rnd.random() < .3 and mode == 'seed',
        rolls=off(rolls(rnd, n * len(doc) + 1), ALL_CUTS)
        if mode == 'rolls' else []))


# ------------------------------------------------------------------- L04

def dec(x, k):
    """x/k as a decimal text"""
    s = '%.6f' % (float(x) / k)
    return s.rstrip('0').rstrip('.') or '0'


def run_l04(run):
    rnd = random.Random(run.seed)
    design(run)
    scns = []
    for doc, units in shapes(run, 200, 13):
        loose = rnd.random() < .4
        doc, files = dress_source(rnd, doc, loose)
        nums = {}
        for lev in doc:
            for b in lev:
                if lev is not doc[0] and rnd.random() < .5:
                    # filters that often select something
                    b['srcs'] = b['srcs'] and b['srcs'][:2]
                for br in b['branches']:
                    if b['type'] == 'abGRAbsolute':
                        v = [rnd.randrange(-64, 200), rnd.randrange(4, 20)]
                        br['val'] = dec(v[0], 32) + ' ' + dec(v[1], 8)
                    elif b['type'] == 'bGRRelative':
                        v = [rnd.choice([1, 2, 3, 4, -1])]
                        br['val'] = dec(v[0], 8)
                    elif b['type'] == 'maxMagGRRelative':
                        v = [rnd.choice([1, 2, 3, -1, -2])]
                        br['val'] = dec(v[0], 4)
                    elif b['type'] == 'maxMagGRAbsolute':
                        v = [rnd.randrange(28, 40)]
                        br['val'] = dec(v[0], 4)
                    else:
                        v = [0]
                    nums[br['id']] = v
        path = random_path(rnd, doc)
        filters = [b for lev in doc for b in lev]
        srcs = []
        for _ in range(rnd.randrange(1, 6)):
            b = rnd.choice(filters)
            srcs.append(dict(
                id=rnd.choice(b['srcs'] or SRC_IDS),
                trt=b['trt'] or rnd.choice(TRTS),
                type=b['styp'] or rnd.choice(TYPES),
                gr=rnd.random() < .8, min=20, max=rnd.randrange(30, 36),
                a=rnd.randrange(32, 160), b=rnd.randrange(10, 14),
                times=rnd.choice([1, 1, 1, 2])))
            if rnd.random() < .3:      # nearly selected
                srcs[-1][rnd.choice(['id', 'trt', 'type'])] = None
                srcs[-1]['id'] = srcs[-1]['id'] or rnd.choice(SRC_IDS)
                srcs[-1]['trt'] = srcs[-1]['trt'] or rnd.choice(TRTS)
                srcs[-1]['type'] = srcs[-1]['type'] or rnd.choice(TYPES)
            if rnd.random() < .2:
                k = rnd.choice(['id', 'trt'])
                v = srcs[-1][k]
                srcs[-1][k] = rnd.choice([
                    v.lower(), v.upper(), v[:-1], v[1:], v + '-0', v + ' ',
                    v.split()[0], v.swapcase()]) or v
        scns.append(common(rnd, dict(
            call='uncert', doc=doc, units=units, files=files, nums=nums,
            path=path, srcs=srcs)))
    vlib.section(run, 'uncertainties', 'trees', 'LogicTreeTrace', scns,
                 shards=3, classify=lambda s, t: [
                     'changed' if x != y else 'untouched'
                     for x, y in zip(t['before'], t['after'])])


def random_path(rnd, doc):
    """Some path through the tree (an input: what the tree then makes of it
    is judged by the specification)"""
    follows = {}
    prev = []
    for i, lev in enumerate(doc):
        if i:
            left = list(prev)
            for b in lev:
                tg = b['apply'] or left
                for x in tg:
                    follows[x] = b
                left = [x for x in left if x not in tg]
        prev = [br['id'] for b in lev for br in b['branches']]
    b = doc[0][0]
    path = []
    while b:
        i = rnd.choice(b['branches'])['id']
        path.append(i)
        b = follows.get(i)
    return path


# --------------------------------------------------------------- L05, L06

def run_l05(run):
    rnd = random.Random(run.seed)
    design(run)
    scns = []
    for _ in range(700 * (8 if run.thorough else 1)):
        doc = gmpe_doc(rnd, rnd.choice([1, 2, 3, 3, 4]))
        trts = [lev[0]['trt'] for lev in doc]
        known = rnd.sample(trts, rnd.randrange(1, len(trts) + 1))
        extra = [x for x in TRTS if x not in trts]
        validate = rnd.random() < .4
        if not validate and rnd.random() < .3:
            known.append(rnd.choice(extra))
        scns.append(common(rnd, dict(
            call='gmpe', doc=doc, units=100, known=known,
            validate=validate, from_hc=not validate and rnd.random() < .3)))
    vlib.section(run, 'regions', 'trees', 'LogicTreeTrace', scns, shards=3,
                 classify=lambda s, t: ['%d-of-%d' % (len(
                     set(s['known']) & set(l[0]['trt'] for l in s['doc'])),
                     len(s['doc']))])


def run_l06(run):
    rnd = random.Random(run.seed)
    design(run)
    scns = []
    for _ in range(900 * (8 if run.thorough else 1)):
        doc = gmpe_doc(rnd, rnd.choice([1, 2, 3, 3, 4]))
        trts = [lev[0]['trt'] for lev in doc]
        req = rnd.sample(trts, rnd.randrange(0, len(trts) + 1))
        if rnd.random() < .2:
            req.append(rnd.choice(TRTS))
        units = 100
        if rnd.random() < .5 and len(doc) <= 2:
            fine(doc, 100)
            units = 10000
        if rnd.random() < .3:
            b = rnd.choice(doc)[0]
            k = rnd.randrange(8)
            if k == 7:
                tiny(rnd, doc, False)
            elif k == 0:
                b['branches'][-1]['w'] += rnd.choice([-1, 1])
                b['branches'][-1]['w'] = max(0, b['branches'][-1]['w'])
            elif k == 1:
                b['type'] = 'bGRRelative'
            elif k == 2:
                b['trt'] = rnd.choice(trts)
            elif k == 3:
                lev = rnd.choice(doc)
                lev.append(dict(copy.deepcopy(b), bsid='bs99', trt=rnd.choice(
                    [x for x in TRTS if x not in trts])))
                for br in lev[-1]['branches']:
                    br['id'] = 'x' + br['id']
            elif k == 4:
                req = req + req[:1]
            elif k == 5:
                req = [x for x in TRTS if x not in trts][:1]
            else:
                b['trt'] = ''
        scns.append(common(rnd, dict(call='gsim', doc=doc, units=units,
                                     keys=req)))
    vlib.section(run, 'realizations', 'trees', 'LogicTreeTrace', scns,
                 shards=3, classify=lambda s, t: [t['out']])


TECH = 'model-checked TLA+ specification; documents printed by TLC and ' \
    'random ones read by the real code, outcome validated by TLC'
CHECKS = dict((i, dict(run=f, level='model_checking', technique=TECH))
              for i, f in [('L01', run_l01), ('L02', run_l02),
                           ('L03', run_l03), ('L04', run_l04),
                           ('L05', run_l05), ('L06', run_l06)])
