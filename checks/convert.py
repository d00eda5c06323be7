import random
import vlib

WORDS = ['A', 'b', 'RC/DMRF-D/LR', 'IT-PV', 'W1', 'x y', 'a,b', 'say "hi"',
         "it's", 'P&Q', '<1>', '50%', 'T#1', 'z;w', 'A_b', 'a__b', '0', '-']
NAMES = ['slight', 'moderate', 'extensive', 'complete', 'LS1', 'c_2']
IMTS = ['PGA', 'PGV', 'MMI', 'SA(0.1)', 'SA(0.10)', 'SA(1)', 'IA']
KINDS = {'C01': ['vuln'], 'C02': ['fragd', 'fragc'], 'C03': ['exp'],
         'C04': ['gmfset', 'gmfcoll']}
ALLKINDS = sum(KINDS.values(), [])
PREFIXES = ['m', 'a', 'vulnerability-model-discrete', 'a-b', 'a_b', 'm2',
            'exposure.v1', 'ab', 'my model', 'A', 'x__y', 'x']


def dec(rnd, lo=0., hi=10.):
    x = rnd.uniform(lo, hi)
    return rnd.choice(['%.2f', '%.5f', '%.1f', '%r', '%.3e', '%.0f']) % x


def prob(rnd):
    return rnd.choice(['0', '1', '0.0', '1.0', '1e-3', '0.5']
                      + ['%.4f' % rnd.random()] * 3 + [repr(rnd.random())])


def increasing(rnd, n):
    x, res = 0., []
    steps = rnd.choice([[.01, .1, .5, 1, 2], [1, 4, 5, 90]])
    for _ in range(n):
        x += rnd.choice(steps)
        res.append(rnd.choice(['%.2f', '%.4f', '%.3f', '%r', '%.6e']) % x)
    return res


def many(rnd, size):
    """a number of things, sometimes with two digits"""
    return rnd.randrange(9, 14) if rnd.random() < .04 * size / 4 \
        else rnd.randrange(1, size)


def words(rnd, n, pool=WORDS):
    """n distinct texts"""
    res = list(pool)
    rnd.shuffle(res)
    return (res + ['w%d' % i for i in range(n)])[:n]


def text(rnd):
    return ' '.join(rnd.choice(WORDS) for _ in range(rnd.randrange(1, 5)))


def rnd_vuln(rnd, size):
    sets = []
    for sid in words(rnd, many(rnd, size)):
        imls = increasing(rnd, rnd.randrange(1, size + 1))
        funs = []
        for f in words(rnd, many(rnd, size)):
            lr = [rnd.choice(['0.00', '0', prob(rnd), prob(rnd)])
                  for _ in imls]
            funs.append(dict(id=f, dist=rnd.choice(['LN', 'BT', 'PM']), lr=lr,
                             cv=[rnd.choice(['0.0', '0.00'])
                                 if float(r) == 0 else
                                 rnd.choice(['0.3', '0.30', '0', dec(rnd)])
                                 for r in lr]))
        sets.append(dict(id=sid, cat=rnd.choice(['population', 'buildings']),
                         loss=rnd.choice(WORDS), imt=rnd.choice(IMTS),
                         imls=imls, funs=funs))
    return dict(kind='vuln', sets=sets)


def pair(rnd):
    if rnd.random() < .1:      # equal numbers, different texts
        return rnd.choice([['1.0', '1.00'], ['0.5', '5e-1'], ['2', '2.0']])
    return [dec(rnd, .1), dec(rnd, .1)]


def rnd_frag(rnd, size, kind=None):
    kind = kind or rnd.choice(['fragd', 'fragc'])
    ls = words(rnd, rnd.randrange(1, 5), NAMES)
    sets = []
    for tax in words(rnd, many(rnd, size)):
        s = dict(tax=tax, ndl=rnd.choice(['', '', '0.05', dec(rnd, .001)]),
                 imt=rnd.choice(IMTS), unit=rnd.choice(['g', 'm', 'cm/s']))
        if kind == 'fragd':
            s['imls'] = increasing(rnd, rnd.randrange(1, size + 1))
            s['poes'] = [[prob(rnd) for _ in s['imls']] for _ in ls]
        else:
            s.update(type=rnd.choice(['', 'lognormal']), min=dec(rnd),
                     max=dec(rnd), pars=[pair(rnd) for _ in ls])
        sets.append(s)
    return dict(kind=kind, desc=text(rnd), ls=ls, sets=sets)


def rnd_exp(rnd, size, cat=None):
    cat = cat or rnd.choice(['population', 'buildings', 'buildings'])
    kinds = ['aggregated', 'per_asset', 'per_area']
    types = words(rnd, rnd.randrange(1, 4), [
        'structural', 'non_structural', 'contents', 'a b', 'x']) \
        if cat == 'buildings' else []
    cts = [dict(name=c, type=rnd.choice(kinds), unit=rnd.choice(
        ['USD', 'EUR', '']) or 'CHF', rt=rnd.choice(['', rnd.choice(kinds)]),
        ru=rnd.choice(['', 'GBP'])) for c in types]
    periods = words(rnd, rnd.randrange(0, 4), ['day', 'night', 'transit',
                                               'noon'])
    places = [[dec(rnd, -180, 180), dec(rnd, -90, 90)] for _ in range(
        rnd.randrange(1, size + 2))] + [['0', '1'], ['1', '0']]
    # places that are near, but not the same
    for lon, lat in places[:2]:
        eps = rnd.choice([1e-3, 1e-5, 2e-6, 1e-7])
        places.append([repr(float(lon) + eps), lat])
        places.append([lon, repr(float(lat) - eps)])
    places = [p for p in places if abs(float(p[0])) <= 180
              and abs(float(p[1])) <= 90]
    o = lambda v: rnd.choice(['', v])
    amount = lambda: rnd.choice(['0', '0.0', '1']) if few else dec(rnd, .6)
    few = rnd.random() < .2
    assets = []
    full = rnd.random() < .3
    for a in words(rnd, many(rnd, 2 * size) if rnd.random() > .03 else 0):
        cs = [c for c in types if full or rnd.random() < .7]
        ps = [p for p in periods if full or rnd.random() < .6]
        rnd.shuffle(ps)
        if rnd.random() < .5:
            rnd.shuffle(cs)
        assets.append(dict(
            id=a, tax=rnd.choice(WORDS), num=amount(),
            area=o(amount()), loc=rnd.choice(places),
            costs=[dict(type=c, value=amount(), retro=o(amount()),
                        ded=o(amount()), ins=o(amount()))
                   for c in cs], occs=[[p, amount()] for p in ps]))
    return dict(
        kind='exp', id=rnd.choice(WORDS), cat=cat, tsrc=rnd.choice(WORDS),
        desc=text(rnd), area=rnd.choice([[], [rnd.choice(
            ['aggregated', 'per_asset']), rnd.choice(['SQM', 'm2'])]]),
        ded=o(rnd.choice(['true', 'false'])) if cat == 'buildings' else '',
        ins=o(rnd.choice(['true', 'false'])) if cat == 'buildings' else '',
        cts=cts, assets=assets)


def rnd_fields(rnd, size, rups, lo):
    keys = [(i, r) for i in IMTS for r in rups]
    keys = [rnd.choice(keys) for _ in range(rnd.randrange(lo, 2 * size))]
    gmfs = []
    for k, (imt, rup) in enumerate(keys):
        if (imt, rup) in keys[:k]:
            continue
        sites = [[dec(rnd), dec(rnd)] for _ in range(rnd.randrange(1, 4))]
        if rnd.random() < .3:       # a site near the first
            sites.append([sites[0][0], repr(float(sites[0][1]) + 1e-7)])
        sites = [s for n, s in enumerate(sites) if s not in sites[:n]]
        gmfs.append(dict(imt=imt, rup=rup, nodes=[
            s + [dec(rnd, 0, 2)] for s in sites]))
    return gmfs


def rnd_gmf(rnd, size, kind=None):
    kind = kind or rnd.choice(['gmfset', 'gmfcoll', 'gmfcoll'])
    if kind == 'gmfset':
        return dict(kind=kind, gmfs=rnd_fields(rnd, size, [''], 1))
    ids = [str(i) for i in rnd.sample(range(1, 30), many(rnd, size))]
    rups = words(rnd, 3, ['r1', 'r2', 'scr=00|ses=01', '10', '2', '0'])
    return dict(kind=kind, smp=rnd.choice(['b1', 'b1_b2', 'x']),
                gsim=rnd.choice(['b1', 'b2|b3']), sets=[
        dict(id=i, time=rnd.choice(['50.0', '1', '10000.0']),
             gmfs=rnd_fields(rnd, size, rups, 0)) for i in ids])


MAKE = dict(vuln=rnd_vuln, fragd=lambda r, s: rnd_frag(r, s, 'fragd'),
            fragc=lambda r, s: rnd_frag(r, s, 'fragc'), exp=rnd_exp,
            gmfset=lambda r, s: rnd_gmf(r, s, 'gmfset'),
            gmfcoll=lambda r, s: rnd_gmf(r, s, 'gmfcoll'))


def conv_ops(rnd, n, length, kind):
    """A history of conversions of n models"""
    ops, stored = [], []
    for _ in range(length):
        todo = [m for m in range(1, n + 1) if m not in stored
                or rnd.random() < .1]
        if todo and (not stored or rnd.random() < .4):
            m = rnd.choice(todo)
            ops.append(dict(op='from', m=m, how=rnd.choice(
                ['nrml', 'node', 'prefix'])))
            stored.append(m)
            continue
        m = rnd.choice(stored)
        op = rnd.choice(['to', 'to', 'toall', 'direct', 'chain'])
        if op == 'to':
            how = rnd.choice(['once', 'twice', 'again'])
        elif op == 'toall':
            how = rnd.choice(['same', 'mem', 'dir', 'zip'])
        elif op == 'direct':
            how = rnd.choice(['nrml', 'node'])
        else:
            how = rnd.choice(['mem', 'dir', 'zip'])
        ops.append(dict(op=op, m=m, how=how))
    return ops


def models_scn(rnd, models, length):
    kind = rnd.choice(['mem', 'dir', 'zip'])
    prefixes = rnd.sample(PREFIXES, len(models))
    return dict(call='models', kind=kind, models=models, prefixes=prefixes,
                ops=conv_ops(rnd, len(models), length, kind))


def cls_models(scn, tr):
    yield scn['kind']
    for m in scn['models']:
        yield m['kind']
    for op, e in zip(scn['ops'], tr['events']):
        yield '%s:%s:%s' % (e['op'], op['how'], e['out'])


def models(run, prop, tlakinds):
    big = run.thorough
    vlib.design_check(run, 'ModelsMC', 'ModelsMC.cfg', consts={
        'Kinds': '<- ' + tlakinds, 'MaxBack': 3 if big else 2,
        'MaxModels': 3 if big else 2})

    def enum():
        rnd = random.Random(run.seed)
        ms = sorted(vlib.tlc_scenarios(
            run, 'ModelsMC', 'ModelsEnum.cfg',
            consts={'Kinds': '<- ' + tlakinds}), key=str)
        # every small model, all of them on every kind of archive
        scns = []
        for n, m in enumerate(ms):
            other = rnd.choice(ms)
            for kind in (['mem', 'dir', 'zip'] if big else
                         [['mem', 'dir', 'zip'][(n + run.seed) % 3]]):
                scns.append(dict(
                    call='models', kind=kind, models=[m, other],
                    prefixes=rnd.sample(PREFIXES, 2),
                    ops=[dict(op='from', m=1, how='node')] + (
                        [dict(op='from', m=2, how='nrml')]
                        if rnd.random() < .3 else [])
                    + [dict(op='to', m=1, how='again'),
                       dict(op='toall', m=1, how='same')]))
        vlib.section(run, 'small-models-exhaustive', 'convert', 'ModelsTrace',
                     scns, shards=3, classify=cls_models)

    def walk():
        rnd = random.Random(run.seed + 1)
        scns = []
        for _ in range(8000 if big else 450):
            n = rnd.randrange(1, 4)
            size = rnd.choice([2, 3, 4, 6])
            ms = [MAKE[rnd.choice(KINDS[prop])](rnd, size)]
            ms += [MAKE[rnd.choice(ALLKINDS)](rnd, 2) for _ in range(n - 1)]
            scns.append(models_scn(rnd, ms, rnd.randrange(2, 8)))
        vlib.section(run, 'histories-random', 'convert', 'ModelsTrace', scns,
                     shards=3, classify=cls_models)
    vlib.together(enum, walk)


# ------------------------------------------------------------- archives

TEXTS = ['x', 'a,b\r\n', '\n', '', 'line 1\nline 2', '"q"\n', 'x' * 3000,
         '1,2,3\n' * 40]


def arch_ops(rnd, ops, kind):
    """The operations of a walk, with the tests of what is on the disk"""
    res = []
    # the files only read by line may be iterated over
    lines = [h for h in range(1, 9) if rnd.random() < .5 and not any(
        op['op'] == 'read' and op['h'] == h for op in ops)]
    for op in ops:
        op = dict(op)
        if op['op'] == 'openw':
            op['mode'] = rnd.choice(['w', 'w', 'w+'])
        elif op['op'] == 'read' and rnd.random() < .4:
            op['n'] = -1
        elif op['op'] == 'list':
            op['text'] = rnd.choice(['', 'a', 'ab', 'b', 'zz'])
        elif op['op'] == 'readline':
            op['n'] = int(op['h'] in lines)
        elif op['op'] in ('close', 'closef'):
            op['n'] = rnd.randrange(2)
        elif op['op'] == 'openr':
            op['n'] = rnd.randrange(2)
        elif op['op'] == 'write' and rnd.random() < .3:
            op['text'] = rnd.choice(TEXTS)
        res.append(op)
        if op['op'] in ('close', 'fail'):
            if rnd.random() < .7:
                res.append(dict(op='disk', name='', h=0, n=0, text=''))
            if rnd.random() < .3:
                res.append(dict(op='reopen', name='', h=0, n=0, text='',
                                mode='a'))
    # whatever is still open is closed at last, and all is read again
    tail = [dict(op=rnd.choice(['close', 'close', 'fail'])), dict(op='disk'),
            dict(op='reopen', mode=rnd.choice(['a', 'r']))]
    tail += [dict(op='contains', name=n) for n in ('a', 'ab', 'b')]
    tail += [dict(op='list')]
    for op in tail:
        res.append(dict(dict(name='', h=0, n=0, text=''), **op))
    return res


def arch_renamed(rnd, scn):
    """The same history with other names for the files"""
    pre, mid, other = rnd.choice([
        ('vuln', '__Data.csv', 'Vuln'), ('A', 'a', 'a'), ('.x', '.', 'x'),
        ('x y', ' ', 'x'), ('a-1', '.CSV', 'a_1'), ('(a)', '%s', 'a%s'),
        ('m__', 'T', 'm_'), ("it's", '[1]', 'its'), ('a.csv', '.csv', 'csv')])
    new = {'a': pre, 'ab': pre + mid, 'abc': pre + mid + 'c', 'b': other,
           'c': other + 'c', 'zz': pre.swapcase(), '': '', 'q0': 'q0'}
    scn['init'] = [[new[n], text] for n, text in scn['init']]
    for op in scn['ops']:
        op['name'] = new[op['name']]
        if op['op'] == 'list':
            op['text'] = new[op['text']]
    return scn


def arch_scn(rnd, w, kind, init=False):
    files = [[n, rnd.choice(TEXTS)] for n in ('ab', 'abc', 'c') if init and
             rnd.random() < .5]
    # the handles of a walk count from an empty archive
    if any(op['op'] == 'openr' and op['name'] in dict(files)
           for op in w['ops']):
        files = []
    if kind == 'zip' and not files:
        # the zipfile of Jython cannot read an empty zip file
        first = [op['op'] for op in w['ops'] + [dict(op='close')] if op['op']
                 in ('openw', 'close', 'fail')][0]
        if first != 'openw' or rnd.random() < .3:
            files = [['q0', rnd.choice(TEXTS)]]
    mode = rnd.choice(['a'] if files else ['w', 'a'])
    scn = dict(call='archive', kind=kind, init=files, mode=mode,
               ops=arch_ops(rnd, w['ops'], kind))
    return arch_renamed(rnd, scn) if rnd.random() < .5 else scn


KINDS_OF = ['zip', 'dir', 'mem']


def cls_arch(scn, tr):
    yield scn['kind']
    for e in tr['events']:
        if e['op'] in ('read', 'readline'):
            yield e['op']
        else:
            yield '%s:%s' % (e['op'], e['res'])


def run_c05(run):
    big = run.thorough
    vlib.design_check(run, 'ArchivesMC', 'ArchivesMC.cfg',
                      consts={'MaxOps': 7 if big else 5})

    def enum():
        rnd = random.Random(run.seed)
        walks = vlib.tlc_scenarios(run, 'ArchivesMC', 'ArchivesEnum.cfg',
                                   consts={'MaxOps': 5 if big else 4})
        walks.sort(key=str)
        scns = []
        for n, w in enumerate(walks):
            ks = KINDS_OF
            for kind in ks if big else [ks[(n + run.seed) % len(ks)]]:
                scns.append(arch_scn(rnd, w, kind))
        vlib.section(run, 'short-histories-exhaustive', 'convert',
                     'ArchivesTrace', scns, shards=2, classify=cls_arch)

    def walk():
        rnd = random.Random(run.seed + 1)
        scns = []
        for w in vlib.tlc_scenarios(
                run, 'ArchivesMC', 'ArchivesSim.cfg', depth=22,
                simulate=6000 if big else 500):
            for kind in KINDS_OF:
                scns.append(arch_scn(rnd, w, kind, init=True))
        vlib.section(run, 'histories-random', 'convert', 'ArchivesTrace',
                     scns, shards=3, classify=cls_arch)
    vlib.together(enum, walk)


# ------------------------------------------------------------ the script

SMALL = [
    dict(kind='gmfset', gmfs=[dict(imt='PGA', rup='',
                                   nodes=[['1', '2', '3']])]),
    dict(kind='vuln', sets=[dict(
        id='s', cat='buildings', loss='x', imt='MMI', imls=['1', '2'],
        funs=[dict(id='f', dist='LN', lr=['0', '.1'], cv=['0', '0'])])]),
    dict(kind='gmfset', gmfs=[dict(imt='??', rup='',
                                   nodes=[['1', 'x', 'y']])])]
# a table that is always there, with the columns that can be edited
EDIT = dict(vuln=('DiscreteVulnerabilityData', [4]),
            fragd=('FFDataDiscrete', [4]), fragc=('FFDataContinuous', [4]),
            exp=('Asset', [4]), gmfset=('GmfData', [6]),
            gmfcoll=('GmfSet', [2]))
BADEDIT = dict(exp=('Exposure', [2, 5, 7, 8]), gmfset=('Gmf', [1]),
               fragd=('FFSetDiscrete', [3, 4]), vuln=(
                   'DiscreteVulnerabilitySet', [2, 4]),
               fragc=('FragilityContinuous', [1]))
BADTEXTS = ['x', '-1e', '1,5', '%d', '[a]: 1,2: x', "it's", '?']
PATHS = ['A', 'B', 'Z.zip', 'Y.zip', 'an archive', 'zip', 'x.zip.d', 'v.1',
         'my tables.zip', 'a.xml.zip', 'csv__dir']
EXTRA = [('readme.txt', 'read me\n'), ('notes.csv', 'id,x\n?,y\n'),
         ('q__Nothing.csv', 'a,b\n'), ('q__Location.txt', 'id\n'),
         ('Location.csv', 'x\n')]


def spoil(rnd, m):
    """Put invalid values in a model"""
    for _ in range(rnd.choice([1, 1, 2, 4])):
        bad = rnd.choice(BADTEXTS)
        if m['kind'] == 'vuln':
            f = rnd.choice(rnd.choice(m['sets'])['funs'])
            x = rnd.choice([f['lr'], f['cv']])
            x[rnd.randrange(len(x))] = rnd.choice(['x', '-', '1,5'])
        elif m['kind'] == 'fragd':
            x = rnd.choice(rnd.choice(m['sets'])['poes'])
            x[rnd.randrange(len(x))] = rnd.choice(['x', '1.5', '-0.1'])
        elif m['kind'] == 'fragc':
            rnd.choice(m['sets'])['max'] = bad
        elif m['kind'] == 'exp' and m['assets']:
            rnd.choice(m['assets'])[rnd.choice(['num', 'area'])] = bad
        elif m['kind'] == 'exp':
            m['cat'] = bad
        elif m['kind'] == 'gmfset':
            rnd.choice(rnd.choice(m['gmfs'])['nodes'])[2] = bad
        else:
            rnd.choice(m['sets'])['time'] = bad
    return m


def limit_of(rnd):
    return rnd.choice([-1, -1, 1, 2, 3, 50])


def an_edit(rnd, path, prefix, kind, good):
    table, cols = rnd.choice([EDIT[kind], BADEDIT.get(kind, EDIT[kind])]) \
        if not good else EDIT[kind]
    return dict(op='edit', path=path, name='%s__%s.csv' % (prefix, table),
                row=rnd.randrange(100), col=rnd.choice(cols),
                value=rnd.choice(['0.25', '1', '0.5']) if good else
                rnd.choice(BADTEXTS))


def script_walk(rnd, w):
    runs = []
    for r in w['runs']:
        if r['op'] == 'edit':
            runs.append(dict(op='edit', path=r['inp'], row=0, col=6,
                             name='p__GmfData.csv',
                             value='x' if r['m'] else '7'))
        else:
            runs.append(dict(op=r['op'], m=r['m'], inp=r['inp'],
                             path=r['out'], limit=limit_of(rnd)))
    return dict(call='script', models=SMALL, prefixes=['p', 'q', 'r'],
                runs=runs)


def script_scn(rnd):
    n = rnd.randrange(1, 4)
    ms = [MAKE[rnd.choice(ALLKINDS)](rnd, rnd.choice([2, 3]))
          for _ in range(n)]
    ms = [spoil(rnd, m) if rnd.random() < .15 else m for m in ms]
    prefixes = rnd.sample(PREFIXES, n)
    paths = rnd.sample(PATHS, rnd.randrange(1, 4))
    groups, docs, runs, undo = {}, {}, [], []
    for _ in range(rnd.randrange(2, 9)):
        c = rnd.random()
        if not groups or c < .3:
            p, m = rnd.choice(paths), rnd.randrange(n)
            if p.endswith('.zip'):
                groups[p], docs[p] = set(), set()
                undo = [u for u in undo if u['path'] != p]
            groups.setdefault(p, set()).add(m)
            undo = [u for u in undo if (u['path'], u['m']) != (p, m)]
            runs.append(dict(op='xml', m=m + 1, path=p, limit=limit_of(rnd)))
            continue
        p = rnd.choice(sorted(groups))
        if c < .45 and groups[p]:
            m = rnd.choice(sorted(groups[p]))
            good = rnd.random() < .4
            e = an_edit(rnd, p, prefixes[m], ms[m]['kind'], good)
            runs.append(e)
            if not good and e['name'].endswith(EDIT[ms[m]['kind']][0]
                                               + '.csv'):
                undo.append(dict(e, value='0.75', m=m))
        elif c < .5:
            name, text = rnd.choice(EXTRA)
            runs.append(dict(op='edit', path=p, name=name, value=text))
        elif c < .6 and undo:
            runs.append(undo.pop())
        else:
            out = rnd.choice(['', ''] + [q for q in paths if q != p])
            o = out or p
            names = set(prefixes[m] for m in groups[p])
            if o.endswith('.zip') and not names:
                continue        # Jython cannot read an empty zip
            groups.setdefault(o, set())
            docs.setdefault(o, set()).update(names)
            runs.append(dict(op='archive', inp=p, path=out,
                             limit=limit_of(rnd)))
    # a place that is given as an output is made only if the tables are good
    return dict(call='script', models=ms, prefixes=prefixes, runs=runs)


def cls_script(scn, tr):
    for e in tr['events']:
        kind = lambda p: '-' if not p else 'zip' if p.endswith('.zip') \
            else 'dir'
        yield '%s:%s:%s:%s' % (e['op'], kind(e['inp']), kind(e['path']),
                               e['out'])
        if e['out'] == 'exit':
            yield 'found:%s' % min(len(e['found']), 5)
    for m in scn['models']:
        yield m['kind']


def run_c08(run):
    big = run.thorough
    vlib.design_check(run, 'ScriptMC', 'ScriptMC.cfg',
                      consts={'MaxRuns': 5 if big else 4,
                              'MaxEdits': 2 if big else 1})

    def enum():
        rnd = random.Random(run.seed)
        walks = vlib.tlc_scenarios(run, 'ScriptMC', 'ScriptEnum.cfg',
                                   consts={'MaxRuns': 4 if big else 3})
        walks.sort(key=str)
        vlib.section(run, 'short-histories-exhaustive', 'convert',
                     'ScriptTrace', [script_walk(rnd, w) for w in walks],
                     shards=3, classify=cls_script)

    def walk():
        rnd = random.Random(run.seed + 1)
        vlib.section(run, 'histories-random', 'convert', 'ScriptTrace',
                     [script_scn(rnd) for _ in range(6000 if big else 400)],
                     shards=3, classify=cls_script)
    vlib.together(enum, walk)


TECH = ('explicit TLA+ specification model-checked with TLC; behaviours of '
        'the specification replayed on the real code, and the recorded '
        'histories validated against it by TLC')
CHECKS = {}
for _p, _k in [('C01', 'KindsVuln'), ('C02', 'KindsFrag'),
               ('C03', 'KindsExp'), ('C04', 'KindsGmf')]:
    CHECKS[_p] = dict(run=lambda run, p=_p, k=_k: models(run, p, k),
                      level='model_checking', technique=TECH)
CHECKS['C08'] = dict(run=run_c08, level='model_checking', technique=TECH)
CHECKS['C05'] = dict(run=run_c05, level='model_checking', technique=TECH)
