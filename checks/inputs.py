"""Job configurations (I01) and risk models (K01, K02)."""
import random
import vlib

SECTIONS = ['general', 'geometry', 'site_params', 'logic_tree', 'output',
            'Risk Calculation', 'x y', 'a.b']
KEYS = ['description', 'calculation_mode', 'a', 'b', 'maximum_distance',
        'profile', 'the file', 'file', 'filed', 'model_files', 'site',
        'source', 'region', 'file_x', 'csv', 'sites_csv_', 'width.of.mfd']
FILES = ['site_model', 'exposure', 'gsim_logic_tree', 'rupture_model',
         'structural_vulnerability', 'occupants_vulnerability',
         'structural_vulnerability_retrofitted', 'fragility',
         'sites', 'a', 'x_file', 'file', 'gmvs csv']
VALUES = ['', 'classical', '1.0 , 2.0', '0.1', 'a = b', 'a: b', '[x]', 'True',
          'x\ny', '1 2\n3 4', 'a  b', '/not/a/path', 'rel/path.xml', '#no',
          '{"PGA": [0.1]}', "it's", 'tab\there', 'a;b']
TREE = 'source_model_logic_tree'


def rel(*parts):
    return dict(abs=False, parts=list(parts))


def absol(*parts):
    return dict(abs=True, parts=list(parts))


NOWHERE = rel()


def write(name, style=0, **content):
    return dict(op='write', name=name, style=style, content=content)


def cd(name):
    return dict(op='cd', name=name)


def words_of(trees):
    """The names of the sources, as they are written (relative ones)"""
    return sorted(set('/'.join(b['path']['parts']) for t in trees for b in t
                      if not b['path']['abs']))


SMALL_TREE = [dict(type='sourceModel', path=rel('m')),
              dict(type='gmpeModel', path=rel('Gsim')),
              dict(type='sourceModel', path=absol('d', 'm')),
              dict(type='sourceModel', path=rel('..', 'm'))]


def config_walk(rnd, w):
    """A behaviour of JobConfigMC with its file system"""
    # the same place is not written in two ways
    tree = [b for b in SMALL_TREE if not (
        b['path']['abs'] and rnd.random() < 2)]
    if rnd.random() < .5:
        tree = tree[::-1]
    style = rnd.randrange(10 ** 6)
    return dict(
        call='config', dirs=[['d'], ['d', 'e']], words=words_of([tree]),
        ops=[write(absol('d', 's'), style, sites=[['1', '2'], ['3', '4']]),
             write(absol('d', 't'), style, tree=tree),
             write(absol('d', 'job.ini'), style, conf=w['conf']),
             cd(w['cwd'])] + [dict(o, how=rnd.choice(['file', 'text']))
                              for o in w['ops']])


DIRS = [[], ['d'], ['d', 'e'], ['d', 'e', 'f'], ['my files'], ['h']]


def way(rnd, base, target):
    """A path to target from base"""
    r = rnd.random()
    if r < .25:
        return absol(*target)
    n = 0
    while n < len(base) and n < len(target) - 1 and base[n] == target[n]:
        n += 1
    if rnd.random() < .2:
        n = rnd.randrange(n + 1)
    parts = ['..'] * (len(base) - n) + target[n:]
    if rnd.random() < .2:
        parts = ['.'] + parts
    if rnd.random() < .15 and len(target) > 1 and parts[-2:-1] != ['..']:
        parts = parts[:-1] + ['..', target[-2], target[-1]] \
            if len(parts) > 1 and parts[-2] not in ('..', '.') else parts
    return rel(*parts)


def rnd_tree(rnd, base, size):
    """Branches, in order; each source is always written in the same way"""
    pool = [rnd.choice(DIRS) + [n] for n in rnd.sample(
        ['m1.xml', 'm2.xml', 'm10.xml', 'A.xml', 'my model.xml', 'a.xml',
         'src-1.xml', 'z', 'e', 'm.xml'], rnd.randrange(1, size + 2))]
    paths = [way(rnd, base, p) for p in pool]
    res = []
    for _ in range(rnd.randrange(1, 2 * size + 1)):
        kind = rnd.choice(['sourceModel'] * 3 + [
            'gmpeModel', 'maxMagGRRelative', 'abGRAbsolute'])
        res.append(dict(type=kind, path=rnd.choice(paths)
                        if kind == 'sourceModel' or rnd.random() < .2
                        else rel(rnd.choice(['0.1', 'Gsim_2008', '4.6 1.1']))))
    return res


def num(rnd):
    return rnd.choice(['%.2f', '%.4f', '%d', '%r']) % rnd.uniform(-180, 180)


def rnd_config(rnd, size):
    conf_place = rnd.choice(DIRS) + [rnd.choice(['job.ini', 'a.ini', 'x'])]
    base = conf_place[:-1]
    files = [rnd.choice(DIRS) + [n] for n in ('sites.csv', 's2.csv')]
    trees = [rnd.choice(DIRS) + [n] for n in ('lt.xml', 'lt2.xml')]
    known = [rnd.choice(DIRS) + [n] for n in ('e.xml', 'f.xml', 'lt.xml')]
    ops, texts = [], []

    def sites():
        res = [[num(rnd), num(rnd)] for _ in range(rnd.choice(
            [1, 1, 2, 3, rnd.randrange(1, 12)]))]
        if rnd.random() < .3:       # a site given twice, or almost
            lon, lat = rnd.choice(res)
            res.insert(rnd.randrange(len(res) + 1), rnd.choice(
                [[lon, lat], [lat, lon], [lon + '0', lat]]))
        return res

    def style():
        return rnd.randrange(10 ** 6)
    there = dict(sites=[], tree=[])
    for p in files:
        if rnd.random() < .8:
            there['sites'].append(p)
            ops.append(write(absol(*p), style(), sites=sites()))
    for p in trees:
        if rnd.random() < .8:
            there['tree'].append(p)
            texts.append(rnd_tree(rnd, base, size))
            ops.append(write(absol(*p), style(), tree=texts[-1]))

    def conf():
        sects = []
        names = rnd.sample(SECTIONS, rnd.randrange(1, size + 1))
        pool = rnd.sample(KEYS, min(len(KEYS), 2 * size))
        for n in names:
            opts = []
            for _ in range(rnd.randrange(0, size + 1)):
                opts.append(dict(key=rnd.choice(pool), path=NOWHERE,
                                 text=rnd.choice(VALUES)))
            for _ in range(rnd.randrange(0, 3)):
                opts.append(dict(key=rnd.choice(FILES) + '_file', text='',
                                 path=way(rnd, base, rnd.choice(known))))
            if rnd.random() < .3:
                opts.append(dict(key='sites_csv', text='', path=way(
                    rnd, base, rnd.choice(
                        there['sites'] if there['sites'] and
                        rnd.random() < .9 else files))))
            if rnd.random() < .4:
                opts.append(dict(key=TREE + '_file', text='', path=way(
                    rnd, base, rnd.choice(
                        there['tree'] if there['tree'] and
                        rnd.random() < .9 else trees))))
            rnd.shuffle(opts)
            seen, kept = set(), []
            for o in opts:
                # a key is given once in a section, most of the times
                if o['key'] not in seen or rnd.random() < .2:
                    kept.append(o)
                seen.add(o['key'])
            sects.append(dict(name=n, options=kept))
        return sects
    ops.append(write(absol(*conf_place), style(), conf=conf()))
    cwd = []
    for _ in range(rnd.randrange(1, size + 2)):
        r = rnd.random()
        if r < .3:
            cwd = rnd.choice(DIRS)
            ops.append(cd(absol(*cwd)))
        elif r < .4 and there['sites']:
            ops.append(write(absol(*rnd.choice(there['sites'])), style(),
                             sites=sites()))
        elif r < .5:
            ops.append(write(absol(*conf_place), style(), conf=conf()))
        else:
            ops.append(dict(op='parse', how=rnd.choice(['file', 'text']),
                            name=way(rnd, cwd, conf_place)))
    ops.append(dict(op='parse', how='file', name=way(rnd, cwd, conf_place)))
    return dict(call='config', dirs=[d for d in DIRS if d],
                words=words_of(texts), ops=ops)


def cls_config(scn, tr):
    out = set()
    for ev in tr['events']:
        if ev['op'] == 'parse':
            out.add(ev['out'])
            if ev['hassites']:
                out.add('sites')
            if ev['hassources']:
                out.add('sources')
                if len(ev['sources']) > 1:
                    out.add('several-sources')
    return out


def run_i01(run):
    big = run.thorough
    vlib.design_check(run, 'JobConfigMC', 'JobConfigMC.cfg',
                      consts={'MaxOptions': 4 if big else 3})

    def enum():
        rnd = random.Random(run.seed)
        walks = vlib.tlc_scenarios(run, 'JobConfigMC', 'JobConfigEnum.cfg')
        walks.sort(key=str)
        if not big:
            walks = rnd.sample(walks, 2000)
        vlib.section(run, 'short-histories', 'inputs', 'JobConfigTrace',
                     [config_walk(rnd, w) for w in walks], shards=3,
                     classify=cls_config)

    def walk():
        rnd = random.Random(run.seed + 1)
        vlib.section(run, 'configurations-random', 'inputs', 'JobConfigTrace',
                     [rnd_config(rnd, rnd.randrange(2, 5))
                      for _ in range(20000 if big else 1000)], shards=3,
                     classify=cls_config)
    vlib.together(enum, walk)


# -------------------------------------------------------------- risk models

LOSSES = ['structural', 'fatalities', 'contents', 'occupants',
          'non_structural', 'business_interruption']
TAXONOMIES = ['TAXA', 'TAXB', 'RC/DMRF-D/LR', 'W-FLFB', 'IT-PV', 'URM+X',
              'MUR/H:1', 'Q 1', 'ZZ<1>', 'P&QQ', 'RC/DMRF-D/HR',
              'RC/DMRF-ND/LR']
IMTS = ['PGA', 'PGV', 'MMI', 'SA(0.1)', 'SA(0.2)', 'SA(1.0)', 'IA']


def canon(x):
    return repr(float('%.4g' % x))


def levels(rnd, n):
    x, res = 0., []
    for _ in range(n):
        x += rnd.choice([.01, .1, .5, 1, 2.25])
        res.append(canon(x))
    return res


def probs(rnd, n, pool=(0., 1.)):
    return [canon(rnd.choice(list(pool) + [rnd.random()] * 6))
            for _ in range(n)]


def function(rnd, name, n, kinds):
    lr = probs(rnd, n)
    f = dict(id=name, dist=rnd.choice(['LN', 'BT', 'PM']), lr=lr,
             cv=['0.0' if r == '0.0' else canon(rnd.choice([0, rnd.random()]))
                 for r in lr])
    fault = rnd.choice(kinds)
    if fault == 'zero':         # a deviation where the ratio is zero
        k = rnd.randrange(n)
        f['lr'][k] = '0.0'
        f['cv'][k] = '0.3'
    elif fault == 'short' and n > 1:
        f['cv'] = f['cv'][:-1]
    elif fault in ('short', 'long'):
        f['lr'] = f['lr'] + ['0.5']
    return f


def rnd_vuln(rnd, size, fault=None):
    names = rnd.sample(TAXONOMIES, rnd.randrange(1, 2 * size))
    sets = [dict(id='set%d' % k, cat='buildings', loss='x',
                 imt=rnd.choice(IMTS), imls=levels(
                     rnd, rnd.randrange(1, size + 2)), funs=[])
            for k in range(rnd.randrange(1, size + 1))]
    if fault == 'twice':
        names.append(rnd.choice(names))
        if rnd.random() < .5:
            rnd.shuffle(names)
    # the sets of functions that would be empty are not there
    for name in names:
        s = rnd.choice(sets)
        s['funs'].append(function(rnd, name, len(s['imls']), ['']))
    sets = [s for s in sets if s['funs']]
    if fault in ('zero', 'short', 'long'):
        s = rnd.choice(sets)
        k = rnd.randrange(len(s['funs']))
        s['funs'][k] = function(rnd, s['funs'][k]['id'], len(s['imls']),
                                [fault])
    return dict(kind='vuln', sets=sets)


def risk_walk(w, small, how):
    return dict(call='risk', models=small, other={}, ops=[
        dict(o, how=how) if o['op'] == 'load' else o for o in w['ops']])


def S(imt, iml, *funs):
    return dict(id='s', cat='buildings', loss='x', imt=imt, imls=[iml],
                funs=[dict(id=i, dist='LN', lr=[a], cv=[b])
                      for i, a, b in funs])


def V(*sets):
    return dict(kind='vuln', sets=list(sets))


SMALL = [V(S('PGA', '0.1', ('RC1', '0.5', '0.1'))),
         V(S('PGV', '0.2', ('RC1', '0.25', '0.0'), ('W2', '0.0', '0.0'))),
         V(S('PGA', '0.1', ('W2', '0.5', '0.1')),
           S('MMI', '5.0', ('M3', '1.0', '0.2'))),
         V(S('PGA', '0.1', ('RC1', '0.5', '0.1')),
           S('MMI', '5.0', ('RC1', '1.0', '0.2'))),
         V(S('PGA', '0.1', ('W2', '0.0', '0.1'), ('M3', '1.0', '0.2')))]


def key(lt, retro):
    return '%s_vulnerability%s' % (
        'occupants' if lt == 'fatalities' else lt,
        '_retrofitted' if retro else '')


def rnd_risk(rnd, size):
    faults = [None] * 5 + ['twice', 'zero', 'short', 'long']
    if rnd.random() < .6:
        faults = [None]
    ms = [rnd_vuln(rnd, size, rnd.choice(faults))
          for _ in range(rnd.randrange(1, size + 2))]
    losses = rnd.sample(LOSSES, rnd.randrange(1, 4))
    keys = [key(lt, r) for lt in losses for r in (False, True)]
    other = {k: '/nowhere/%s' % k for k in rnd.sample(
        ['exposure', 'site_model', 'fatalities_vulnerability',
         'structural_fragility', 'vulnerability', 'xstructural_vulnerability',
         'structural_vulnerability_'], rnd.randrange(0, 4))}
    ops = []
    for _ in range(rnd.randrange(2, 4 * size)):
        r = rnd.random()
        if r < .5:
            ops.append(dict(op='write', key=rnd.choice(keys),
                            m=rnd.randrange(1, len(ms) + 1)))
        elif r < .6:
            ops.append(dict(op='remove', key=rnd.choice(keys)))
        elif r < .65:
            ops.append(dict(op='names', key=rnd.choice(LOSSES)))
        else:
            ops.append(load(rnd, losses))
    ops.append(load(rnd, losses))
    return dict(call='risk', models=ms, other=other, ops=ops)


def load(rnd, losses):
    lts = [rnd.choice(losses) for _ in range(rnd.randrange(0, 4))]
    if rnd.random() < .5:
        lts = rnd.sample(LOSSES, len(LOSSES))
    return dict(op='load', lts=lts, retro=rnd.random() < .4,
                how=rnd.choice(['plain', 'plain', 'vfs', 'insured']))


def rnd_frag(rnd, size):
    kind = rnd.choice(['fragd', 'fragc'])
    ls = rnd.sample(['slight', 'moderate', 'extensive', 'complete', 'LS1',
                     'no_damage', 'collapse', 'x-1'], rnd.randrange(1, 5))
    sets = []
    for tax in rnd.sample(TAXONOMIES, rnd.randrange(1, size + 2)):
        s = dict(tax=tax, imt=rnd.choice(IMTS), unit=rnd.choice(['g', 'm']),
                 ndl=rnd.choice(['', canon(rnd.random() / 100), '0.0']))
        if kind == 'fragd':
            s['imls'] = levels(rnd, rnd.randrange(1, size + 2))
            s['poes'] = [probs(rnd, len(s['imls'])) for _ in ls]
        else:
            s.update(type=rnd.choice(['', 'lognormal']), min='0.1', max='9.5',
                     pars=[[canon(rnd.uniform(.1, 9)),
                            canon(rnd.uniform(.1, 3))] for _ in ls])
        sets.append(s)
    return dict(kind=kind, desc='some text', ls=ls, sets=sets)


def damage_scn(rnd, ms):
    ops = []
    for _ in range(rnd.randrange(1, 4)):
        ops.append(dict(op='damage', m=rnd.randrange(1, len(ms) + 1),
                        how=rnd.choice(['path', 'text'])))
    return dict(call='risk', models=ms, ops=ops)


def cls_risk(scn, tr):
    out = set()
    for ev in tr['events']:
        if ev['op'] == 'load':
            out.add(ev['out'])
            n = len(ev['models'])
            out.add('taxonomies-%s' % ('many' if n > 1 else n))
            if any(len(m['val']) > 1 for m in ev['models']):
                out.add('several-loss-types')
            if ev['retro'] and n:
                out.add('retrofitted')
        elif ev['op'] == 'damage':
            out.add('damage-' + scn['models'][ev['m'] - 1]['kind'])
    return out


def run_k01(run):
    big = run.thorough
    vlib.design_check(run, 'RiskModelsMC', 'RiskModelsMC.cfg')

    def enum():
        rnd = random.Random(run.seed)
        walks = vlib.tlc_scenarios(run, 'RiskModelsMC', 'RiskModelsEnum.cfg')
        walks.sort(key=str)
        if not big:
            walks = rnd.sample(walks, 3000)
        vlib.section(run, 'short-histories', 'inputs', 'RiskModelsTrace',
                     [risk_walk(w, SMALL, rnd.choice(
                         ['plain', 'vfs', 'insured'])) for w in walks],
                     shards=3, classify=cls_risk)

    def walk():
        rnd = random.Random(run.seed + 1)
        vlib.section(run, 'histories-random', 'inputs', 'RiskModelsTrace',
                     [rnd_risk(rnd, rnd.randrange(2, 5))
                      for _ in range(12000 if big else 800)], shards=3,
                     classify=cls_risk)
    vlib.together(enum, walk)


def run_k02(run):
    big = run.thorough

    def enum():
        rnd = random.Random(run.seed)
        frags = vlib.tlc_scenarios(run, 'RiskModelsMC',
                                   'RiskModelsDamage.cfg')
        frags.sort(key=str)
        scns = [damage_scn(rnd, [f]) for f in frags] + [
            damage_scn(rnd, [f, g]) for f in frags for g in frags]
        vlib.section(run, 'small-models-exhaustive', 'inputs',
                     'RiskModelsTrace', scns, shards=2, classify=cls_risk)

    def walk():
        rnd = random.Random(run.seed + 1)
        scns = []
        for _ in range(15000 if big else 1200):
            scns.append(damage_scn(rnd, [rnd_frag(rnd, rnd.randrange(1, 6))
                                         for _ in range(rnd.randrange(1, 3))
                                         ]))
        vlib.section(run, 'models-random', 'inputs', 'RiskModelsTrace', scns,
                     shards=3, classify=cls_risk)
    vlib.together(enum, walk)


TECH = ('explicit TLA+ specification model-checked with TLC; behaviours of '
        'the specification replayed on the real code, and the recorded '
        'histories validated against it by TLC')
CHECKS = dict(
    I01=dict(run=run_i01, level='model_checking', technique=TECH),
    K01=dict(run=run_k01, level='model_checking', technique=TECH),
    K02=dict(run=run_k02, level='model_checking', technique=TECH))
