"""Logic trees: documents are rendered to XML and given to the real readers"""
import os
import random
import shutil
from decimal import Decimal
from xml.sax.saxutils import escape, quoteattr
from dlib import main, t, exc_name, put, SCRATCH
from openquake.commonlib import logictree
from openquake.hazardlib import source as ohs, mfd as ohm, geo
try:
    from cStringIO import StringIO
except ImportError:
    from StringIO import StringIO

NRML = 'http://openquake.org/xmlns/nrml/0.4'
HEAD = ('<nrml xmlns:gml="http://www.opengis.net/gml" xmlns="%s">' % NRML)


class Writer(object):
    """Every element starts on a line of its own; remembers which"""
    def __init__(self, gap=0):
        self.lines = []
        self.where = {}
        self.gap = gap

    def add(self, text, name=None):
        for _ in range(self.gap if self.lines else 0):
            self.lines.append('<!-- a comment -->' if self.gap > 1 else '')
        if name:
            self.where[len(self.lines) + 1] = name
        self.lines.extend(text.split('\n'))

    def text(self):
        return '\n'.join(self.lines) + '\n'


def wtext(w, units, fmt, e=0, scale=12):
    d = Decimal(w) / Decimal(units) + Decimal(e) * Decimal(10) ** -scale
    if fmt == 1:
        return str(d + Decimal('0.000'))
    if fmt == 2:
        return ' %s ' % d
    if fmt == 3:
        return '\n      %s\n' % d
    return str(d)


def render(doc, units, fmt=0, gap=0, tail=''):
    w = Writer(gap)
    if gap:
        w.add('<?xml version="1.0" encoding="utf-8"?>')
    w.add(HEAD)
    w.add('<logicTree logicTreeID="lt1">', 'tree')
    for l, level in enumerate(doc, 1):
        w.add('<logicTreeBranchingLevel branchingLevelID="bl%d">' % l,
              'level %d' % l)
        for n, b in enumerate(level, 1):
            attrs = [('uncertaintyType', b['type']),
                     ('branchSetID', b.get('bsid') or 'bs%d%d' % (l, n))]
            if b['apply']:
                attrs.append(('applyToBranches', ' '.join(b['apply'])))
            if b['trt']:
                attrs.append(('applyToTectonicRegionType', b['trt']))
            if b['styp']:
                attrs.append(('applyToSourceType', b['styp']))
            if b['srcs']:
                attrs.append(('applyToSources', ' '.join(b['srcs'])))
            if fmt % 2:
                attrs.reverse()
            w.add('<logicTreeBranchSet %s>' % ' '.join(
                '%s=%s' % (k, quoteattr(v)) for k, v in attrs),
                'branchset %d %d' % (l, n))
            for j, br in enumerate(b['branches'], 1):
                w.add('<logicTreeBranch branchID=%s>' % quoteattr(br['id']),
                      'branch %d %d %d' % (l, n, j))
                v = escape(br['val'])
                w.add('<uncertaintyModel>%s</uncertaintyModel>' % (
                    '\n   %s\n   ' % v if fmt == 3 else
                    ' %s ' % v if fmt == 2 else v),
                    'model %d %d %d' % (l, n, j))
                w.add('<uncertaintyWeight>%s</uncertaintyWeight>' % wtext(
                    br['w'], units, fmt, br.get('e', 0),
                    br.get('scale', 12)), 'weight %d %d %d' % (l, n, j))
                w.add('</logicTreeBranch>')
            w.add('</logicTreeBranchSet>')
        w.add('</logicTreeBranchingLevel>')
    w.add('</logicTree>')
    w.add('</nrml>')
    return (w.text() + tail).encode('utf-8'), w.where


def source_model(sources):
    out = [HEAD, '<sourceModel name="m">']
    for s in sources:
        out.append('<%sSource id=%s name="x" tectonicRegion=%s>' % (
            s['type'], quoteattr(s['id']), quoteattr(s['trt'])))
        out.append('<geo><gml:pos>0 0</gml:pos></geo><rake id="no" '
                   'tectonicRegion="no">0</rake>')
        out.append('</%sSource>' % s['type'])
    out.append('</sourceModel>')
    out.append('</nrml>')
    return '\n'.join(out)


_count = [0]


def prepare(scn):
    """The directory with the source models"""
    _count[0] += 1
    base = os.path.join(SCRATCH, 'lt%d' % _count[0])
    os.mkdir(base)
    for f in scn.get('files', []):
        if f['state'] == 'missing':
            continue
        text = source_model(f['sources'])
        if f['state'] == 'broken':
            text = text[:-9]
        fname = os.path.join(base, f['name'])
        if '/' in f['name']:
            for d in (os.path.dirname(fname).split('/..')[0],):
                if not os.path.exists(d):
                    os.makedirs(d)
        put(fname, text.encode('utf-8'))
    return base


def num(weight, units, levels):
    """The weight as a number of units**-levels, -1 if it is not one"""
    if weight is None:
        return -2
    x = Decimal(weight) * Decimal(units) ** levels
    return int(x) if x == int(x) else -1


class FakeHC(object):
    pass


def smlt(scn, text, base, validate, seed=0, num_samples=0):
    name = 'slt.xml'
    if scn.get('from_hc'):
        hc = FakeHC()
        fname = os.path.join(base, name)
        put(fname, text)
        hc.inputs = dict(source_model_logic_tree=fname)
        hc.base_path = base
        hc.random_seed = seed
        hc.number_of_logic_tree_samples = num_samples
        return logictree.SourceModelLogicTree.from_hc(hc)
    if scn.get('unicode'):
        text = text.decode('latin1')
    return logictree.SourceModelLogicTree(
        text, base, name, validate, seed, num_samples)


def gmpelt(scn, text, base, validate, seed=0, num_samples=0):
    name = 'glt.xml'
    if scn.get('from_hc'):
        hc = FakeHC()
        fname = os.path.join(base, name)
        put(fname, text)
        hc.inputs = dict(gsim_logic_tree=fname)
        hc.base_path = base
        hc.random_seed = seed
        hc.number_of_logic_tree_samples = num_samples
        return logictree.GMPELogicTree.from_hc(hc, scn['known'])
    return logictree.GMPELogicTree(
        scn['known'], text, base, name, validate, seed, num_samples)


def val(x):
    return t(x) if isinstance(x, basestring) else t(
        getattr(x, '__name__', repr(x)))


def rlz_log(lt, units, levels):
    return [dict(value=val(r[0]), num=num(r[1], units, levels),
                 path=[t(x) for x in r[2]]) for r in lt]


def do_paths(scn):
    base = prepare(scn)
    text, _ = render(scn['doc'], scn['units'], scn['fmt'], scn['gap'])
    tr = dict(doc=scn['doc'], units=scn['units'], call='paths', rlzs=[],
              again=[])
    try:
        lt = smlt(scn, text, base, scn['validate'])
        tr['rlzs'] = rlz_log(lt, scn['units'], len(scn['doc']))
        tr['again'] = rlz_log(lt, scn['units'], len(scn['doc']))
        tr['out'] = 'ok'
    except Exception as exc:
        tr['out'] = exc_name(exc)
    shutil.rmtree(base)
    return tr


def do_validate(scn):
    base = prepare(scn)
    text, where = render(scn['doc'], scn['units'], scn['fmt'], scn['gap'])
    if scn['broken']:
        text = text[:-9]
    tr = dict(doc=scn['doc'], units=scn['units'], call='validate',
              kind=scn['kind'], files=scn['files'], known=scn['known'],
              broken=scn['broken'], file='', base='', where='', shows=True,
              fname='slt.xml' if scn['kind'] == 'source' else 'glt.xml')
    try:
        (smlt if scn['kind'] == 'source' else gmpelt)(scn, text, base, True)
        tr['out'] = 'ok'
    except Exception as exc:
        tr['out'] = exc_name(exc)
        tr['file'] = t(getattr(exc, 'filename', ''))
        tr['base'] = ('base' if getattr(exc, 'basepath', '') == base
                      else 'other')
        if hasattr(exc, 'lineno'):
            tr['where'] = where.get(exc.lineno, 'nothing')
            tr['shows'] = str(exc.lineno) in str(exc)
        tr['shows'] = bool(tr['shows'] and tr['file'] in str(exc)
                           and base in str(exc))
    shutil.rmtree(base)
    return tr


class Rolls(random.Random):
    """A stream of chosen numbers"""
    scale = 1e6

    def __init__(self, rolls):
        random.Random.__init__(self, 1)
        self.rolls = rolls
        self.used = 0

    def random(self):
        self.used += 1
        return self.rolls[self.used - 1] / self.scale


def do_sample(scn):
    ws = scn['weights']
    branches = [logictree.Branch('b%d' % j, Decimal(w) / scn['units'],
                                 'v%d' % j) for j, w in enumerate(ws, 1)]
    rnd = Rolls(scn['rolls'])
    rnd.scale = max(1e6, float(scn['units']))
    tr = dict(call='sample', weights=ws, rolls=scn['rolls'], n=scn['n'],
              units=scn['units'])
    try:
        got = logictree.sample(branches, scn['n'], rnd)
        tr['picked'] = [[j for j, b in enumerate(branches, 1) if b is g][0]
                        for g in got]
        tr['out'] = 'ok'
    except Exception as exc:
        tr['out'] = exc_name(exc)
        tr['picked'] = []
    tr['used'] = rnd.used
    return tr


def do_walk(scn):
    """Sampling a whole tree"""
    base = prepare(scn)
    text, _ = render(scn['doc'], scn['units'], scn['fmt'], scn['gap'])
    tr = dict(call='walk', doc=scn['doc'], units=scn['units'], n=scn['n'],
              mode=scn['mode'], rolls=scn['rolls'], picked=[], again=[],
              used=0, gmpe=scn['kind'] == 'gmpe', known=scn['known'])
    make = smlt if scn['kind'] == 'source' else gmpelt
    try:
        if scn['mode'] == 'rolls':     # chosen numbers
            lt = make(scn, text, base, False)
            rnd = Rolls(scn['rolls'])
            got = [lt.sample_path(rnd) for _ in range(scn['n'])]
            tr['picked'] = [dict(value=val(m), path=[t(x) for x in p])
                            for m, p in got]
            tr['again'] = tr['picked']
            tr['used'] = rnd.used
        else:                          # the numbers of the seed
            lt = make(scn, text, base, False, scn['seed'], scn['n'])
            rnd = random.Random(scn['seed'])
            tr['rolls'] = [int(rnd.random() * 1000000)
                           for _ in range(scn['n'] * len(scn['doc']))]
            tr['picked'] = [dict(value=val(m), path=[t(x) for x in p])
                            for m, w, p in lt]
            lt2 = make(scn, text, base, False, scn['seed'], scn['n'])
            it = iter(lt2)
            it.next()
            tr['again'] = [dict(value=val(m), path=[t(x) for x in p])
                           for m, w, p in (lt if scn['fmt'] % 2 else lt2)]
            tr['used'] = -1
        tr['out'] = 'ok'
    except Exception as exc:
        tr['out'] = exc_name(exc)
    shutil.rmtree(base)
    return tr


def make_source(s):
    """b in eighths, a in 32ths, magnitudes in quarters"""
    if s['gr']:
        mfd = ohm.TruncatedGRMFD(s['min'] / 4., s['max'] / 4., .25,
                                 s['a'] / 32., s['b'] / 8.)
    else:
        mfd = ohm.EvenlyDiscretizedMFD(s['min'] / 4., .25, [.5, .25])
    pd = geo.Point(0, 0)
    line = [geo.Point(0, 0), geo.Point(1, 1)]
    args = [s['id'], 'name of ' + s['id'], s['trt'], mfd]
    if s['type'] == 'point':
        return ohs.PointSource(*(args + [1., None, 1., 0., 10., pd, None,
                                         None]))
    if s['type'] == 'area':
        return ohs.AreaSource(*(args + [1., None, 1., 0., 10., None, None,
                                        None, 10.]))
    if s['type'] == 'simpleFault':
        return ohs.SimpleFaultSource(*(args + [1., None, 1., 0., 10.,
                                               geo.Line(line), 45., 0.]))
    if s['type'] == 'complexFault':
        return ohs.ComplexFaultSource(*(args + [1., None, 1., [line, line],
                                                0.]))
    return ohs.CharacteristicFaultSource(*(args + [None, 0.]))


def look(src):
    m = src.mfd
    def i(x, k):
        return int(x * k) if x * k == int(x * k) else 999999
    if isinstance(m, ohm.TruncatedGRMFD):
        return [i(m.min_mag, 4), i(m.max_mag, 4), i(m.a_val, 32),
                i(m.b_val, 8), i(m.bin_width, 4)]
    return [i(m.min_mag, 4), i(m.bin_width, 4)] + [
        i(r, 4) for r in m.occurrence_rates]


def do_uncert(scn):
    base = prepare(scn)
    text, _ = render(scn['doc'], scn['units'], scn['fmt'], scn['gap'])
    tr = dict(call='uncert', doc=scn['doc'], nums=scn['nums'],
              srcs=scn['srcs'], path=scn['path'], before=[], after=[],
              changed=[], out='ok')
    lt = smlt(scn, text, base, False)
    try:
        apply_ = lt.make_apply_uncertainties(
            tuple(scn['path']) if scn['fmt'] % 2 else list(scn['path']))
        for s in scn['srcs']:
            src = make_source(s)
            rest = dict((k, v) for k, v in vars(src).items() if k != 'mfd')
            mfd = src.mfd
            tr['before'].append(look(src))
            for _ in range(s['times']):
                apply_(src)
            tr['after'].append(look(src))
            now = dict((k, v) for k, v in vars(src).items() if k != 'mfd')
            tr['changed'].append(not (now == rest and src.mfd is mfd))
    except Exception as exc:
        tr['out'] = exc_name(exc)
    shutil.rmtree(base)
    return tr


def do_gmpe(scn):
    base = prepare(scn)
    text, _ = render(scn['doc'], scn['units'], scn['fmt'], scn['gap'])
    tr = dict(call='gmpe', doc=scn['doc'], units=scn['units'],
              known=scn['known'], maps=[], rlzs=[])
    try:
        lt = gmpelt(scn, text, base, scn['validate'])
        tr['rlzs'] = rlz_log(lt, scn['units'], len(scn['doc']))
        for r in list(lt):
            dic = lt.make_trt_to_gsim(r.lt_path)
            tr['maps'].append(sorted([t(k), val(v)]
                                     for k, v in dic.items()))
        tr['out'] = 'ok'
    except Exception as exc:
        tr['out'] = exc_name(exc)
    shutil.rmtree(base)
    return tr


def do_gsim(scn):
    text, _ = render(scn['doc'], scn['units'], scn['fmt'], scn['gap'])
    tr = dict(call='gsim', doc=scn['doc'], units=scn['units'],
              keys=scn['keys'], rlzs=[], again=[], paths=-1, values=[],
              branches=[])
    _count[0] += 1
    fname = os.path.join(SCRATCH, 'gsim%d.xml' % _count[0])
    try:
        if scn['fmt'] % 2:
            put(fname, text)
            src = fname
        else:
            src = StringIO(text)
        lt = logictree.GsimLogicTree(src, 'applyToTectonicRegionType',
                                     scn['keys'])
        tr['paths'] = lt.get_num_paths()
        tr['branches'] = sorted([t(k), v] for k, v in
                                lt.get_num_branches().items())
        tr['values'] = sorted([t(k), [t(x) for x in v]]
                              for k, v in lt.values.items() if v)

        def log():
            return [dict(value=sorted([t(k), t(v)] for k, v in
                                      r.value.items()),
                         num=num(r.weight, scn['units'], len(scn['doc'])),
                         path=[t(x) for x in r.lt_path]) for r in lt]
        tr['rlzs'] = log()
        tr['again'] = log()
        tr['out'] = 'ok'
    except Exception as exc:
        tr['out'] = exc_name(exc)
    if os.path.exists(fname):
        os.remove(fname)
    return tr


def native(x):
    """Strings as lxml gives them: unicode only when they are not ascii"""
    if isinstance(x, dict):
        return dict((k, native(v)) for k, v in x.items())
    if isinstance(x, list):
        return [native(v) for v in x]
    if isinstance(x, str) and any(ord(c) > 127 for c in x):
        return x.decode('utf-8')
    return x


def handler(scn):
    return globals()['do_' + scn['call']](native(scn))

if __name__ == '__main__':
    main(handler)
