"""openquake.commonlib.source: groups, blocks, splitting, conversion"""
from dlib import main, t, exc_name, outcome
from openquake.commonlib import source as S
from openquake.hazardlib import geo, mfd, pmf, scalerel, source as hs
from openquake.hazardlib.tom import PoissonTOM
from openquake.nrmllib import models as nm
from openquake.nrmllib.hazard import parsers

TRTS = ['A', 'Ab', 'B', 'a']            # in the order of the names
CLASSES = {'point': 'PointSource', 'area': 'AreaSource',
           'simple': 'SimpleFaultSource', 'complex': 'ComplexFaultSource',
           'char': 'CharacteristicFaultSource'}
KINDS = dict((v, k) for k, v in CLASSES.items())


# ------------------------------------------------------- source groups
# magnitudes are in units (usually quarters), bins of 2; coordinates in
# hundredths
UNIT = [.25]

def nrml_source(item, extra):
    s = item['s']
    nbins = (s['hi'] - s['lo']) // 2 + 1
    if extra.get('gr'):
        dist = nm.TGRMFD(a_val=2., b_val=1., min_mag=(s['lo'] - 1) * UNIT[0],
                         max_mag=(s['hi'] + 1) * UNIT[0])
    else:
        rates = [0.] * nbins
        for m in s['mags']:
            rates[(m - s['lo']) // 2] = .25
        dist = nm.IncrementalMFD(min_mag=s['lo'] * UNIT[0],
                                 bin_width=2 * UNIT[0],
                                 occur_rates=rates)
    root = float(s['root'])
    base = dict(id=item['id'], name='src', trt=TRTS[s['trt'] - 1], mfd=dist)
    k = s['k']
    planes = extra.get('planes', 1)
    depths = k // planes
    npd = [nm.NodalPlane(probability=1. / planes, strike=1. + i, dip=45.,
                         rake=0.) for i in range(planes)]
    hdd = [nm.HypocentralDepth(probability=1. / depths, depth=1. + i)
           for i in range(depths)]
    par = dict(base, mag_scale_rel='PeerMSR', rupt_aspect_ratio=root)
    if s['t'] == 'point':
        x, y = s['loc']
        return nm.PointSource(geometry=nm.PointGeometry(
            wkt='POINT(%r %r)' % (x / 100., y / 100.),
            upper_seismo_depth=0., lower_seismo_depth=10.),
            nodal_plane_dist=npd, hypo_depth_dist=hdd, **par)
    elif s['t'] == 'area':
        x, y, w, h = s['rect']
        # the bounding box is what the grid depends on
        ring = [(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)]
        wkt = 'POLYGON((%s))' % ', '.join(
            '%r %r' % (a / 100., b / 100.) for a, b in ring)
        return nm.AreaSource(geometry=nm.AreaGeometry(
            wkt=wkt, upper_seismo_depth=0., lower_seismo_depth=10.),
            nodal_plane_dist=npd, hypo_depth_dist=hdd, **par)
    elif s['t'] == 'simple':
        return nm.SimpleFaultSource(geometry=nm.SimpleFaultGeometry(
            wkt='LINESTRING(0.0 0.0, 1.0 1.0)', dip=45.,
            upper_seismo_depth=0., lower_seismo_depth=10.), rake=0., **par)
    elif s['t'] == 'complex':
        return nm.ComplexFaultSource(geometry=nm.ComplexFaultGeometry(
            top_edge_wkt='LINESTRING(0.0 0.0 1.0, 1.0 1.0 1.0)',
            bottom_edge_wkt='LINESTRING(0.0 0.0 5.0, 1.0 1.0 5.0)'),
            rake=0., **par)
    return nm.CharacteristicSource(
        rake=root, surface=nm.SimpleFaultGeometry(
            wkt='LINESTRING(0.0 0.0, 1.0 1.0)', dip=45.,
            upper_seismo_depth=0., lower_seismo_depth=10.), **base)


def quarter(x):
    if x is None:
        return -1
    y = round(x / UNIT[0])
    return int(y) if abs(y - x / UNIT[0]) < 1e-6 else t(repr(x))


def root_of(src):
    return int(src.rake if isinstance(src, hs.CharacteristicFaultSource)
               else src.rupture_aspect_ratio)


def seen(src):
    kind = KINDS.get(type(src).__name__, type(src).__name__)
    loc = []
    if kind == 'point':
        loc = [int(round(src.location.longitude * 100)),
               int(round(src.location.latitude * 100))]
    trt = src.tectonic_region_type
    return dict(root=root_of(src), t=kind,
                trt=TRTS.index(trt) + 1 if trt in TRTS else t(trt),
                mags=[quarter(m) for m, r in
                      src.mfd.get_annual_occurrence_rates() if r],
                loc=loc, rup=-1 if kind == 'area' else src.count_ruptures())


def number(x):
    return x if isinstance(x, (int, long)) else \
        int(x) if isinstance(x, float) and x == int(x) else t(repr(x))


def seen_group(g):
    f = g.filtered_sources
    return dict(trt=TRTS.index(g.trt) + 1, srcs=[seen(s) for s in g.sources],
                min=quarter(g.min_mag), max=quarter(g.max_mag),
                nrup=number(g.num_ruptures), filt=number(f[0]),
                tot=number(f[1]))


def groups(scn):
    pool, events = [], []
    UNIT[0] = scn.get('unit', .25)
    conv = S.NrmlHazardlibConverter(50., 1., 2 * UNIT[0], scn.get('disc', 1))
    for k, op in enumerate(scn['ops']):
        name = op['op']
        ev = dict(op, out='ok', msg='')
        acc = op.get('acc', [])

        chosen = []

        def keep(src):
            if op.get('how') == 'obj':  # exactly these objects
                return [1] if any(x is src for x in chosen) else None
            if root_of(src) in acc:
                return {'list': [1], 'true': True, 'src': src}[
                    op.get('how', 'list')]
        if not all(1 <= op[x] <= len(pool) for x in 'ij' if x in op):
            continue
        if name in ('gen', 'abandon', 'new', 'update') and not \
                pool[op.get('j', op['i']) - 1].sources:
            continue
        if 'i' in op:
            chosen = [x for x in pool[op['i'] - 1].sources
                      if root_of(x) in acc]
        try:
            if name == 'parse':
                fname = 'model%d' % k
                parsers.MODELS[fname] = [
                    nrml_source(item, item.get('extra', {}))
                    for item in op['file']]
                unc = dict((u['root'], u) for u in op['unc'])
                applied = []

                def apply_unc(src):
                    r = root_of(src)
                    applied.append(r)
                    u = unc.get(r)
                    if u is None:
                        return
                    src.mfd.min_mag += u['shift'] * UNIT[0]
                    if isinstance(src.mfd, mfd.TruncatedGRMFD):
                        src.mfd.max_mag += u['shift'] * UNIT[0]
                    if u['trt'] != -1:
                        src.tectonic_region_type = TRTS[u['trt'] - 1]
                ev['applied'] = applied
                ev['made'] = 0
                if op.get('reread'):    # the file was already read once
                    try:
                        S.parse_source_model(fname, conv)
                    except S.DuplicateID:
                        pass
                new = S.parse_source_model(fname, conv, apply_unc)
                ev['made'] = len(new)
                pool.extend(new)
            elif name == 'filter':
                pool.append(pool[op['i'] - 1].filter_sources(keep))
            elif name == 'new':
                g = pool[op['i'] - 1]
                ev['at'] = at = [1 + a % len(g.sources) for a in op['at']]
                pool.append(S.SourceCollector(
                    g.trt, [g.sources[a - 1] for a in at]))
            elif name == 'update':
                g, h = pool[op['i'] - 1], pool[op['j'] - 1]
                if g.trt != h.trt:
                    continue
                ev['p'] = p = 1 + op['p'] % len(h.sources)
                g.update(h.sources[p - 1])
            elif name in ('gen', 'abandon'):
                ev['blocks'] = blocks = []
                it = pool[op['i'] - 1].gen_blocks(keep, op['max'], op['d'])
                for b in it:
                    if name == 'abandon' and len(blocks) == op['n']:
                        break
                    blocks.append(dict(ps=[seen(s) for s in b],
                                       w=number(b.weight)))
                else:
                    ev['op'] = 'gen'    # all the blocks were taken
            elif name == 'less':
                ev['res'] = bool(pool[op['i'] - 1] < pool[op['j'] - 1])
        except Exception as exc:
            ev['out'] = exc_name(exc)
            ev['msg'] = t(str(exc))
        ev['pool'] = [seen_group(g) for g in pool]
        events.append(ev)
    parsers.MODELS.clear()
    return dict(events=events)


# ---------------------------------------------------------- splitting

def dump(x):
    """Canonical text of a value"""
    if isinstance(x, (list, tuple)):
        return '[%s]' % ','.join(map(dump, x))
    if isinstance(x, dict):
        return '{%s}' % ','.join(sorted('%s:%s' % (dump(a), dump(b))
                                        for a, b in x.items()))
    if isinstance(x, type):
        return x.__name__
    if hasattr(x, '__dict__'):
        return '%s%s' % (type(x).__name__, dump(vars(x)))
    return '%s:%r' % (type(x).__name__, x)


OWN = {'fault': ['source_id', 'mfd', 'name'],
       'area': ['source_id', 'mfd', 'name', 'location', 'polygon',
                'area_discretization'],
       'other': ['source_id', 'mfd']}


def rest(kind, src):
    return [[t(a), t(dump(v))] for a, v in sorted(vars(src).items())
            if a not in OWN[kind]]


def rates(src, unit):
    return [dict(m=repr(float(m)), r=repr(float(r)),
                 f=int(round(r / unit)), nz=bool(r))
            for m, r in src.mfd.get_annual_occurrence_rates()]


def hazard_source(d):
    m = d['mfd']
    if m['t'] == 'gr':
        dist = mfd.TruncatedGRMFD(min_mag=m['min'], max_mag=m['max'],
                                  bin_width=m['bin'], a_val=m['a'],
                                  b_val=m['b'])
    else:
        dist = mfd.EvenlyDiscretizedMFD(m['min'], m['bin'], list(m['rates']))
    base = dict(source_id=d['id'], name=d['name'],
                tectonic_region_type=d['trt'], mfd=dist,
                temporal_occurrence_model=PoissonTOM(d['tom']))
    par = dict(base, rupture_mesh_spacing=d['rms'],
               magnitude_scaling_relationship=scalerel.WC1994(),
               rupture_aspect_ratio=d['rar'])
    pts = [geo.Point(*p) for p in d['pts']]
    npd = pmf.PMF([(p, geo.NodalPlane(s_, dp, r))
                   for p, s_, dp, r in d['npd']])
    hdd = pmf.PMF([tuple(x) for x in d['hdd']])
    if d['t'] == 'point':
        return hs.PointSource(
            upper_seismogenic_depth=d['usd'], lower_seismogenic_depth=d['lsd'],
            location=pts[0], nodal_plane_distribution=npd,
            hypocenter_distribution=hdd, **par)
    elif d['t'] == 'area':
        return hs.AreaSource(
            upper_seismogenic_depth=d['usd'], lower_seismogenic_depth=d['lsd'],
            polygon=geo.Polygon(pts), area_discretization=d['disc'],
            nodal_plane_distribution=npd, hypocenter_distribution=hdd, **par)
    elif d['t'] == 'simple':
        return hs.SimpleFaultSource(
            upper_seismogenic_depth=d['usd'], lower_seismogenic_depth=d['lsd'],
            fault_trace=geo.Line(pts), dip=d['dip'], rake=d['rake'], **par)
    elif d['t'] == 'complex':
        return hs.ComplexFaultSource(edges=[geo.Line(pts), geo.Line(pts)],
                                     rake=d['rake'], **par)
    return hs.CharacteristicFaultSource(
        surface=geo.MultiSurface([]), rake=d['rake'], **base)


def split(scn):
    d = scn['src']
    src = hazard_source(d)
    if scn.get('nth'):      # split a part of the source
        parts = list(S.split_source(src, d['disc']))
        if parts:
            src = parts[scn['nth'] % len(parts)]
    kind = ('area' if isinstance(src, hs.AreaSource) else
            'fault' if isinstance(src, (hs.SimpleFaultSource,
                                        hs.ComplexFaultSource)) else 'other')
    rs = [r for m, r in src.mfd.get_annual_occurrence_rates()]
    unit = (max(rs) or 1.) / 1e7
    grid = []
    if kind == 'area':
        mesh = src.polygon.discretize(scn['disc'])
        grid = [[repr(a), repr(b)] for a, b in zip(mesh.lons, mesh.lats)]
    tr = dict(kind=kind, id=t(src.source_id), cls=type(src).__name__,
              rates=rates(src, unit), grid=grid, rest=rest(kind, src),
              before=t(dump(src)), out='ok')
    parts = []
    try:
        if scn['how'] == 'twice':   # another splitting goes on meanwhile
            other = S.split_source(src, scn['disc'])
            for p in S.split_source(src, scn['disc']):
                next(other, None)
                parts.append(p)
        elif scn['how'] == 'again':
            list(S.split_source(src, scn['disc']))
            parts = list(S.split_source(src, scn['disc']))
        else:
            parts = list(S.split_source(src, scn['disc']))
    except Exception as exc:
        tr['out'] = exc_name(exc)
    tr['after'] = t(dump(src))
    tr['parts'] = [dict(
        id=t(p.source_id), cls=type(p).__name__, rates=rates(p, unit),
        loc=[repr(p.location.longitude), repr(p.location.latitude)] + (
            [repr(p.location.depth)] if p.location.depth else [])
        if kind == 'area' else [], rest=rest(kind, p), same=p is src)
        for p in parts]
    return tr


# --------------------------------------------------------- conversion
# numbers count 1/1024

def wkt_of(kind, pts):
    body = ', '.join(' '.join(repr(c / 1024.) for c in p) for p in pts)
    if kind == 'POLYGON':
        body = '(%s, %s)' % (body, ' '.join(repr(c / 1024.) for c in pts[0]))
    return '%s(%s)' % (kind, body)


def simple_geom(d):
    return nm.SimpleFaultGeometry(
        wkt='nothing' if d['bad'] else wkt_of('LINESTRING', d['lines'][0]),
        dip=d['dip'] / 1024., upper_seismo_depth=d['usd'] / 1024.,
        lower_seismo_depth=d['lsd'] / 1024.)


def complex_geom(d):
    edges = [wkt_of('LINESTRING', ln) for ln in d['lines']]
    if d['bad']:
        edges[len(d['name']) % len(edges)] = 'nothing'
    return nm.ComplexFaultGeometry(top_edge_wkt=edges[0],
                                   int_edges=edges[1:-1],
                                   bottom_edge_wkt=edges[-1])


def describe(d):
    u = 1024.
    if d['t'] in ('srup', 'crup'):
        par = dict(magnitude=d['mag'] / u, rake=d['rake'] / u,
                   hypocenter=tuple(x / u for x in d['hypo']))
        if d['t'] == 'srup':
            return nm.SimpleFaultRuptureModel(geometry=simple_geom(d), **par)
        return nm.ComplexFaultRuptureModel(geometry=complex_geom(d), **par)
    m = d['mfd']
    if m['t'] == 'gr':
        dist = nm.TGRMFD(a_val=m['a'] / u, b_val=m['b'] / u,
                         min_mag=m['min'] / u, max_mag=m['max'] / u)
    else:
        dist = nm.IncrementalMFD(min_mag=m['min'] / u, bin_width=m['bin'] / u,
                                 occur_rates=[r / u for r in m['rates']])
    base = dict(id=d['id'], name=d['name'], trt=d['trt'], mfd=dist)
    par = dict(base, mag_scale_rel=d['msr'], rupt_aspect_ratio=d['rar'] / u)
    if d['t'] in ('point', 'area'):
        G, kind = {'point': (nm.PointGeometry, 'POINT'),
                   'area': (nm.AreaGeometry, 'POLYGON')}[d['t']]
        par.update(
            geometry=G(wkt='nothing' if d['bad'] else
                       wkt_of(kind, d['lines'][0]),
                       upper_seismo_depth=d['usd'] / u,
                       lower_seismo_depth=d['lsd'] / u),
            nodal_plane_dist=[nm.NodalPlane(
                probability=a / u, strike=b / u, dip=c / u, rake=e / u)
                for a, b, c, e in d['npd']],
            hypo_depth_dist=[nm.HypocentralDepth(
                probability=a / u, depth=b / u) for a, b in d['hdd']])
        return (nm.PointSource if d['t'] == 'point' else
                nm.AreaSource)(**par)
    elif d['t'] == 'simple':
        return nm.SimpleFaultSource(geometry=simple_geom(d),
                                    rake=d['rake'] / u, **par)
    elif d['t'] == 'complex':
        return nm.ComplexFaultSource(geometry=complex_geom(d),
                                     rake=d['rake'] / u, **par)
    if d['surf'] == 'simple':
        surface = simple_geom(d)
    elif d['surf'] == 'complex':
        surface = complex_geom(d)
    else:
        corner = lambda c: nm.Point(longitude=c[0] / u, latitude=c[1] / u,
                                    depth=c[2] / u)
        surface = [nm.PlanarSurface(
            strike=p['strike'] / u, dip=p['dip'] / u,
            top_left=corner(p['c'][0]), top_right=corner(p['c'][1]),
            bottom_left=corner(p['c'][2]), bottom_right=corner(p['c'][3]))
            for p in d['planes']]
    return nm.CharacteristicSource(rake=d['rake'] / u, surface=surface,
                                   **base)


def flat(x, path, out):
    """The leaf attributes of an object, as "path=value" """
    if isinstance(x, bool) or x is None:
        out.append('%s=%s' % (path, x))
    elif isinstance(x, (int, long, float)):
        y = x * 1024
        out.append('%s=%s' % (path, int(y) if y == int(y) else repr(x)))
    elif isinstance(x, basestring):
        out.append('%s=%s' % (path, t(x)))
    elif isinstance(x, (list, tuple)):
        out.append('%s.len=%d' % (path, len(x)))
        for n, y in enumerate(x):
            flat(y, '%s.%d' % (path, n + 1), out)
    elif isinstance(x, dict):
        for a in x:
            flat(x[a], '%s.%s' % (path, a), out)
    elif isinstance(x, type):
        out.append('%s=%s' % (path, x.__name__))
    else:
        dot = path + '.' if path else ''
        if isinstance(x, (geo.Point, nm.Point)):
            names = ['longitude', 'latitude', 'depth']
        else:
            out.append('%sclass=%s' % (dot, type(x).__name__))
            names = vars(x)
            if isinstance(x, geo.Polygon):
                names = ['points']
        for a in names:
            flat(getattr(x, a), dot + a, out)
    return out


def convert(scn):
    descs = [describe(d) for d in scn['descs']]
    frozen = [dump(d) for d in descs]
    opt = lambda x, none: None if x == none else x / 1024.
    convs = [S.NrmlHazardlibConverter(
        opt(p['inv'], 0), p['rms'] / 1024., opt(p['bin'], -1),
        p['disc'] / 1024.) for p in scn['pars']]
    events, made = [], []
    for d, p in scn['steps']:
        ev = dict(d=d, p=p, out='ok', msg='', attrs=[])
        obj = None
        try:
            obj = convs[p - 1](descs[d - 1])
            ev['attrs'] = flat(obj, '', [])
        except Exception as exc:
            ev['out'] = exc_name(exc)
            ev['msg'] = t(str(exc))
        ev['unchanged'] = dump(descs[d - 1]) == frozen[d - 1]
        events.append(ev)
        made.append(obj)
    for ev, obj in zip(events, made):
        ev['final'] = flat(obj, '', []) if ev['out'] == 'ok' else []
    return dict(descs=scn['descs'], pars=scn['pars'], events=events)


CALLS = dict(groups=groups, split=split, convert=convert)


def handler(scn):
    return CALLS[scn['call']](scn)


if __name__ == '__main__':
    main(handler)
