"""Models converted to CSV tables and back; archives; the script."""
import csv
import os
import shutil
import zipfile
import StringIO
from xml.sax.saxutils import escape, quoteattr
import dlib
from dlib import t, put

count = [0]


def scratch():
    count[0] += 1
    d = os.path.join(dlib.SCRATCH, 'd%d' % count[0])
    os.mkdir(d)
    return d


# ------------------------------------------------- documents, written here

def el(tag, attrs=(), text='', kids=()):
    return (tag, [(k, v) for k, v in attrs if v != ''], text, list(kids))


def opt(cond, e):
    return [e] if cond else []


def tree(m):
    """The document of a model"""
    kind = m['kind']
    if kind == 'vuln':
        return el('vulnerabilityModel', kids=[el(
            'discreteVulnerabilitySet',
            [('vulnerabilitySetID', s['id']), ('assetCategory', s['cat']),
             ('lossCategory', s['loss'])], kids=[
                el('IML', [('IMT', s['imt'])], ' '.join(s['imls']))] + [
                el('discreteVulnerability',
                   [('vulnerabilityFunctionID', f['id']),
                    ('probabilisticDistribution', f['dist'])], kids=[
                       el('lossRatio', (), ' '.join(f['lr'])),
                       el('coefficientsVariation', (), ' '.join(f['cv']))])
                for f in s['funs']]) for s in m['sets']])
    if kind in ('fragd', 'fragc'):
        sets = []
        for s in m['sets']:
            attrs = [('noDamageLimit', s['ndl'])]
            iml = [('IMT', s['imt']), ('imlUnit', s['unit'])]
            if kind == 'fragd':
                kids = [el('IML', iml, ' '.join(s['imls']))]
                kids += [el('ffd', [('ls', ls)], kids=[
                    el('poEs', (), ' '.join(p))])
                    for ls, p in zip(m['ls'], s['poes'])]
            else:
                attrs.append(('type', s['type']))
                kids = [el('IML', iml + [('minIML', s['min']),
                                         ('maxIML', s['max'])])]
                kids += [el('ffc', [('ls', ls)], kids=[
                    el('params', [('mean', p[0]), ('stddev', p[1])])])
                    for ls, p in zip(m['ls'], s['pars'])]
            sets.append(el('ffs', attrs, kids=[
                el('taxonomy', (), s['tax'])] + kids))
        return el('fragilityModel', [
            ('format', 'discrete' if kind == 'fragd' else 'continuous')],
            kids=[el('description', (), m['desc']),
                  el('limitStates', (), ' '.join(m['ls']))] + sets)
    if kind == 'exp':
        conv = []
        area = opt(m['area'], el('area', zip(('type', 'unit'), m['area'])))
        if m['cat'] == 'buildings':
            conv = [el('conversions', kids=area + [
                el('costTypes', kids=[el('costType', [
                    ('name', c['name']), ('type', c['type']),
                    ('unit', c['unit']), ('retrofittedType', c['rt']),
                    ('retrofittedUnit', c['ru'])]) for c in m['cts']])]
                + opt(m['ded'], el('deductible',
                                   [('isAbsolute', m['ded'])]))
                + opt(m['ins'], el('insuranceLimit',
                                   [('isAbsolute', m['ins'])])))]
        elif m['area']:
            conv = [el('conversions', kids=area)]
        assets = []
        for a in m['assets']:
            kids = [el('location', zip(('lon', 'lat'), a['loc']))]
            kids += opt(a['costs'], el('costs', kids=[el('cost', [
                ('type', c['type']), ('value', c['value']),
                ('retrofitted', c['retro']), ('deductible', c['ded']),
                ('insuranceLimit', c['ins'])]) for c in a['costs']]))
            kids += opt(a['occs'], el('occupancies', kids=[el(
                'occupancy', [('period', p), ('occupants', n)])
                for p, n in a['occs']]))
            assets.append(el('asset', [
                ('id', a['id']), ('taxonomy', a['tax']),
                ('number', a['num']), ('area', a['area'])], kids=kids))
        return el('exposureModel', [
            ('id', m['id']), ('category', m['cat']),
            ('taxonomySource', m['tsrc'])], kids=[
                el('description', (), m['desc'])] + conv + [
                el('assets', kids=assets)])

    def fields(gmfs):
        res = []
        for g in gmfs:
            if g['imt'].startswith('SA('):
                attrs = [('IMT', 'SA'), ('saPeriod', g['imt'][3:-1]),
                         ('saDamping', '5')]
            else:
                attrs = [('IMT', g['imt'])]
            res.append(el('gmf', attrs + [('ruptureId', g['rup'])], kids=[
                el('node', zip(('lon', 'lat', 'gmv'), n))
                for n in g['nodes']]))
        return res
    if kind == 'gmfset':
        return el('gmfSet', kids=fields(m['gmfs']))
    return el('gmfCollection', [('sourceModelTreePath', m['smp']),
                                ('gsimTreePath', m['gsim'])], kids=[
        el('gmfSet', [('stochasticEventSetId', s['id']),
                      ('investigationTime', s['time'])],
           kids=fields(s['gmfs'])) for s in m['sets']])


def write_xml(e):
    tag, attrs, text, kids = e
    return '<%s%s>%s%s</%s>\n' % (
        tag, ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in attrs),
        escape(text), '\n'.join(map(write_xml, kids)), tag)


def document(m):
    return ('<?xml version="1.0" encoding="utf-8"?>\n'
            '<nrml xmlns="http://openquake.org/xmlns/nrml/0.4" '
            'xmlns:gml="http://www.opengis.net/gml">\n%s</nrml>\n'
            % write_xml(tree(m)))


def flat(node, path=''):
    """What a node says"""
    for k, v in sorted(node.attrib.items()):
        yield '%s@%s=%s' % (path, k, v)
    text = ' '.join((node.text or '').split())
    if text:
        yield '%s=%s' % (path, text)
    seen = {}
    kids = list(node.nodes)
    yield '%s#%d' % (path, len(kids))
    for kid in kids:
        seen[kid.tag] = n = seen.get(kid.tag, 0) + 1
        key = str(n)
        if kid.tag == 'cost':
            key = kid.attrib.get('type', '?')
        elif kid.tag == 'occupancy':
            key = kid.attrib.get('period', '?')
        for fact in flat(kid, '%s/%s.%s' % (path, kid.tag, key)):
            yield fact


def facts(node):
    return [t(node.tag)] + map(t, flat(node))


# ------------------------------------------------------------- archives

def new_archive(kind):
    from openquake.commonlib import csvmanager
    if kind == 'mem':
        return csvmanager.MemArchive([])
    name = os.path.join(scratch(), 'arch')
    if kind == 'zip':
        return csvmanager.ZipArchive(name + '.zip', 'w')
    return csvmanager.DirArchive(name, 'w')


def contents(arch, kind):
    """All the files in the archive: name -> content"""
    if kind == 'mem':
        return dict((n, arch.open(n).read()) for n in arch.dic)
    if kind == 'zip':
        z = zipfile.ZipFile(arch.name)
        res = dict((n, z.read(n)) for n in z.namelist())
        z.close()
        return res
    res = {}
    for n in os.listdir(arch.name):
        f = open(os.path.join(arch.name, n))
        res[n] = f.read()
        f.close()
    return res


def tables(files, prefix):
    """The tables of a group of files"""
    res = {}
    for n, text in files.items():
        if n.endswith('.csv') and n.rsplit('__', 1)[0] == prefix:
            rows = list(csv.reader(StringIO.StringIO(text)))
            res[n.rsplit('__', 1)[1][:-4]] = map(t_row, rows[1:])
    return res


def t_row(row):
    return map(t, row)


def run_models(scn):
    from openquake.commonlib import csvmanager, converter
    from openquake.nrmllib.node import node_from_nrml
    kind = scn['kind']
    arch = new_archive(kind)
    prefixes = scn['prefixes']
    work = scratch()
    events = []

    def all_tables():
        files = contents(arch, kind)
        found = []
        for n in files:
            if n.endswith('.csv'):
                p = n.rsplit('__', 1)[0]
                if p not in found:
                    found.append(p)
        return [dict(m=prefixes.index(p) + 1 if p in prefixes else 0,
                     files=tables(files, p)) for p in found]

    def load(m):
        path = os.path.join(work, prefixes[m - 1] + '.xml')
        put(path, document(scn['models'][m - 1]))
        return path

    def read_doc(text):
        path = os.path.join(work, 'back')
        put(path, text)
        [node] = node_from_nrml(path).nodes
        return facts(node)

    def do(op, ev):
        m = ev['m']
        man = csvmanager.CSVManager(arch, prefixes[m - 1])
        if op['op'] == 'from':
            path = load(m)
            if op['how'] == 'nrml':
                man.convert_from_nrml(path)
                ev['unaltered'] = True
            else:
                node = node_from_nrml(path)[0]
                before = facts(node)
                if op['how'] == 'prefix':
                    man = csvmanager.CSVManager(arch)
                    man.convert_from_node(node, prefixes[m - 1])
                else:
                    man.convert_from_node(node)
                ev['unaltered'] = facts(node) == before
            ev['all'] = all_tables()
            ev['invalid'] = len(csvmanager.CSVManager(arch).find_invalid())
        elif op['op'] == 'to':
            node = man.convert_to_node()
            if op['how'] == 'twice':
                facts(node)
            elif op['how'] == 'again':
                node = man.convert_to_node()
            ev['facts'] = facts(node)
        elif op['op'] == 'toall':
            okind = kind if op['how'] == 'same' else op['how']
            out = arch if op['how'] == 'same' else new_archive(okind)
            args = () if op['how'] == 'same' else (out,)
            names = man.convert_to_nrml(*args)
            out.close()
            ev['names'] = [t(os.path.basename(n)) for n in names]
            ev['docs'] = [dict(m=prefixes.index(n[:-4]) + 1,
                               facts=read_doc(text))
                          for n, text in contents(out, okind).items()
                          if n.endswith('.xml')]
            ev['expected'] = [prefixes[d['m'] - 1] + '.xml'
                              for d in ev['docs']]
        elif op['op'] == 'direct':
            if op['how'] == 'nrml':
                conv = converter.Converter.from_nrml(load(m))
            else:
                conv = converter.Converter.from_node(
                    node_from_nrml(load(m))[0])
            ev['facts'] = facts(conv.to_node())
        else:
            other = new_archive(op['how'])
            csvmanager.CSVManager(other, 'other').convert_from_node(
                man.convert_to_node())
            ev['files'] = tables(contents(other, op['how']), 'other')

    for op in scn['ops']:
        ev = dict(op=op['op'], m=op.get('m', 1), out='ok', all=[], docs=[],
                  facts=[], files={}, names=[], expected=[], invalid=0,
                  unaltered=False)
        try:
            do(op, ev)
        except Exception as exc:
            ev['out'] = dlib.exc_name(exc)
            ev['msg'] = t(str(exc))
            if not isinstance(exc, (NameError, IOError)):
                import traceback
                ev['msg'] = t(traceback.format_exc()[-600:])
        events.append(ev)
        if ev['out'] != 'ok':
            break
    try:
        arch.close()
    finally:
        shutil.rmtree(work, ignore_errors=True)
        if kind != 'mem':
            shutil.rmtree(os.path.dirname(arch.name), ignore_errors=True)
    return dict(kind=kind, models=scn['models'], events=events)


class Boom(Exception):
    pass

BOOMS = [Boom, KeyboardInterrupt, SystemExit, GeneratorExit, KeyError,
         StopIteration]


def run_archive(scn):
    from openquake.commonlib import csvmanager
    kind = scn['kind']
    if kind == 'mem':
        arch = csvmanager.MemArchive([tuple(x) for x in scn['init']])
    else:
        path = os.path.join(scratch(), 'arch')
        if kind == 'zip':
            path += '.zip'
            if scn['init']:
                z = zipfile.ZipFile(path, 'w')
                for n, text in scn['init']:
                    z.writestr(n, text)
                z.close()
        elif scn['init'] or scn['mode'] == 'r':
            os.mkdir(path)
            for n, text in scn['init']:
                put(os.path.join(path, n), text)
        arch = csvmanager.mkarchive(path, scn['mode'])
    handles, events = [], []

    def do(op, ev):
        name = op['op']
        if name == 'openw':
            handles.append(arch.open(op['name'], op.get('mode', 'w')))
        elif name == 'openr':
            handles.append(arch.open(op['name']) if op.get('n')
                           else arch.open(op['name'], 'r'))
        elif name == 'write':
            handles[op['h'] - 1].write(op['text'])
        elif name == 'read':
            f = handles[op['h'] - 1]
            ev['res'] = t(f.read() if op['n'] < 0 else f.read(op['n']))
        elif name == 'readline':
            f = handles[op['h'] - 1]
            ev['res'] = t(next(iter(f), '') if op['n'] else f.readline())
        elif name == 'closef':
            if op['n']:
                with handles[op['h'] - 1]:
                    pass
            else:
                handles[op['h'] - 1].close()
        elif name == 'close':
            if op.get('n'):
                with arch:
                    pass
            else:
                arch.close()
        elif name == 'fail':
            ev['res'] = 'error lost'
            boom = BOOMS[len(events) % len(BOOMS)]
            try:
                with arch:
                    raise boom
            except boom:
                ev['res'] = 'ok'
        elif name == 'contains':
            ev['res'] = 'yes' if op['name'] in arch else 'no'
        elif name == 'list':
            ev['names'] = map(t, arch.extract_filenames(op['text'])
                              if op['text'] else arch.extract_filenames())
        elif name == 'disk':
            ev['files'] = sorted([t(n), t(c)] for n, c in
                                 contents(arch, kind).items())
        elif name == 'reopen' and kind != 'mem':
            return csvmanager.mkarchive(arch.name, op['mode'])
        return arch

    for op in scn['ops']:
        ev = dict(op, res='ok', names=[], files=[])
        try:
            arch = do(op, ev) or arch
        except Exception as exc:
            ev['res'] = dlib.exc_name(exc)
            ev['msg'] = t(str(exc))
        events.append(ev)
        if ev['res'] not in ('ok', 'yes', 'no', 'NotInArchive') and \
                op['op'] not in ('read', 'readline'):
            break
    for h in handles:
        try:
            h.close()
        except Exception:
            pass
    arch.close()
    if kind != 'mem':
        shutil.rmtree(os.path.dirname(path), ignore_errors=True)
    return dict(kind=kind, init=scn['init'], events=events)


# ---------------------------------------------------------- CSV tables

def csvtext(rows, style):
    """The rows as text, written in some of the possible ways"""
    out = StringIO.StringIO()
    if any('\r' in cell for row in rows for cell in row):
        style |= 2      # a carriage return alone must be quoted
    csv.writer(out, lineterminator='\n' if style & 1 else '\r\n',
               quoting=csv.QUOTE_ALL if style & 2 else csv.QUOTE_MINIMAL
               ).writerows(rows)
    text = out.getvalue()
    if style & 4 and rows:      # no end of line at the end
        text = text[:-1 if style & 1 else -2]
    return text


def run_csv(scn):
    from openquake.commonlib import csvmanager, records
    kind = scn['kind']
    header = scn['header']
    init = [(f['name'], csvtext(f['rows'], f['style'])) for f in scn['init']]
    path = None
    if kind == 'mem':
        arch = csvmanager.MemArchive(init)
    else:
        path = os.path.join(scratch(), 'arch')
        if kind == 'zip':
            path += '.zip'
            z = zipfile.ZipFile(path, 'w')
            for n, text in init:
                z.writestr(n, text)
            z.close()
        else:
            os.mkdir(path)
            for n, text in init:
                put(os.path.join(path, n), text)
        arch = csvmanager.mkarchive(path, 'a')
    names = [f['name'] for f in scn['init']]
    iters, events, mans = [], [], {}

    def drop():
        while iters:
            iters.pop().close()

    def manager(op):
        if not op.get('reuse'):
            return csvmanager.CSVManager(arch, op['prefix'], header)
        key = op['prefix']
        if key not in mans:
            mans[key] = csvmanager.CSVManager(arch, key, header)
        return mans[key]

    def take(it, n):
        res = []
        try:
            while n < 0 or len(res) < n:
                res.append(t_row(list(it.next())))
        except StopIteration:
            pass
        return res

    def do(op, ev):
        name = op['op']
        if name == 'put':
            drop()
            names.append(op['name'])
            f = arch.open(op['name'], 'w')
            f.write(csvtext(op['given'], op['style']))
            f.close()
            if kind == 'zip':
                arch.close()
        elif name == 'session':
            drop()
            man = manager(op)
            recs = [getattr(records, w['rt'])(*w['row'])
                    for w in op['written']]
            names.extend('%s__%s.csv' % (op['prefix'], w['rt'])
                         for w in op['written'])
            boom = BOOMS[len(names) % len(BOOMS)]
            try:
                with man:
                    for rec in recs:
                        man.write(rec)
                    if op['fail']:
                        raise boom('on purpose')
            except boom as exc:
                if exc.args != ('on purpose',):
                    raise
        elif name == 'read':
            it = manager(op).read(getattr(records, op['rt']))
            try:
                ev['rows'] = take(it, op['n'])
            finally:
                it.close()
        elif name == 'iter':
            iters.append(manager(op).read(getattr(records, op['rt'])))
        elif name == 'next':
            ev['rows'] = take(iters[op['h'] - 1], op['n'])
        elif name == 'table':
            tbl = manager(op).readtable(getattr(records, op['rt']))
            ev['rows'] = [t_row(list(r)) for r in tbl]
        elif name == 'set':
            tset = manager(op).get_tableset()
            ev['tables'] = dict((tbl.recordtype.__name__,
                                 [t_row(list(r)) for r in tbl])
                                for tbl in tset.tables)
        elif name == 'node':
            manager(op).convert_to_node()
        elif name == 'invalid':
            man = manager(op)
            found = man.find_invalid() if op['limit'] < 0 and op.get(
                'plain') else man.find_invalid(
                    None if op['limit'] < 0 else op['limit'])
            for exc in found:
                cols = [exc.record.get_field_index(f) + 1
                        for f, _ in exc.errorlist]
                ev['found'].append(dict(
                    name=t(exc.fname), row=exc.rowno, cols=cols,
                    cells=t_row(list(exc.record)),
                    msg=map(t, str(exc).split('\n'))))
        elif name == 'raw':
            files = contents(arch, kind)
            ev['files'] = [dict(name=t(n), rows=map(t_row, csv.reader(
                StringIO.StringIO(text)))) for n, text in files.items()]
        elif name == 'create':
            tbl = csvmanager.create_table(
                getattr(records, op['rt']), csvtext(op['given'], op['style']))
            ev['rows'] = [t_row(list(r)) for r in tbl]
        else:
            raise KeyError(name)

    for op in scn['ops']:
        ev = dict(dict(prefix='', rt='', n=0, h=0, limit=0, written=[],
                       given=[], name=''), **op)
        ev.update(out='ok', rows=[], tables={}, found=[], files=[], named=[])
        ev['given'] = map(t_row, ev['given'])
        ev['written'] = [dict(rt=w['rt'], row=t_row(w['row']))
                         for w in ev['written']]
        try:
            do(op, ev)
        except Exception as exc:
            ev['out'] = dlib.exc_name(exc)
            msg = str(exc)
            ev['msg'] = t(msg)
            ev['named'] = [t(n) for n in sorted(set(names)) if n in msg]
        events.append(ev)
    drop()
    arch.close()
    if path:
        shutil.rmtree(os.path.dirname(path), ignore_errors=True)
    return dict(kind=kind, header=header, events=events, init=[
        dict(name=t(f['name']), rows=map(t_row, f['rows']))
        for f in scn['init']])


# ------------------------------------------------------------ the script

def run_script(scn):
    """Runs of the script on archives in a scratch directory"""
    import re
    import sys
    import traceback
    from openquake.nrmllib.node import node_from_nrml

    script = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(
        __import__('openquake.commonlib', fromlist=['x']).__file__))),
        '..', 'bin', 'NRMLconvert.py')
    base = scratch()
    work = scratch()
    prefixes = scn['prefixes']

    def where(path):
        return os.path.join(base, path)

    def files(path):
        res = {}
        full = where(path)
        if os.path.isdir(full):
            for n in os.listdir(full):
                f = open(os.path.join(full, n))
                res[n] = f.read()
                f.close()
        else:
            z = zipfile.ZipFile(full)
            for n in z.namelist():
                res[n] = z.read(n)
            z.close()
        return res

    def dump():
        disk = []
        for path in sorted(os.listdir(base)):
            d = dict(path=t(path), csv=[], xml=[])
            for n, text in sorted(files(path).items()):
                if n.endswith('.xml'):
                    put(os.path.join(work, 'back'), text)
                    [node] = node_from_nrml(os.path.join(work, 'back')).nodes
                    d['xml'].append(dict(name=t(n), val=facts(node)))
                else:
                    d['csv'].append(dict(name=t(n), val=map(t_row, csv.reader(
                        StringIO.StringIO(text)))))
            disk.append(d)
        return disk

    def edit(op):
        full = where(op['path'])
        content = files(op['path'])
        name = op['name']
        if op.get('col') and name not in content:
            return
        if op.get('col'):
            rows = list(csv.reader(StringIO.StringIO(content[name])))
            row = rows[1 + op['row'] % (len(rows) - 1)]
            row[op['col'] - 1] = op['value']
            content[name] = csvtext(rows, 0)
        else:
            content[name] = op['value']
        if os.path.isdir(full):
            put(os.path.join(full, name), content[name])
        else:
            z = zipfile.ZipFile(full, 'w')
            for n, text in content.items():
                z.writestr(n, text)
            z.close()

    def launch(args, ev):
        saved = sys.argv, sys.stdout, sys.stderr, os.getcwd()
        out = StringIO.StringIO()
        try:
            sys.argv, sys.stdout = [script] + args, out
            sys.stderr = StringIO.StringIO()
            try:
                execfile(script, {'__name__': '__main__',
                                  '__file__': script})
            except SystemExit as exc:
                if exc.code not in (None, 0):
                    ev['out'] = 'exit'
                    ev['counts'] = [int(x) for x in re.findall(
                        r'\d+', t(str(exc.code)))]
            except Exception as exc:
                ev['out'] = dlib.exc_name(exc)
                ev['msg'] = t(traceback.format_exc()[-500:])
        finally:
            sys.argv, sys.stdout, sys.stderr = saved[:3]
        for line in out.getvalue().splitlines():
            m = re.match(r'(.*?)\[(\w+)\]: (\d+),(\d+): ', line)
            if not m:
                continue
            name, field, row, col = m.groups()
            last = ev['found'] and ev['found'][-1]
            if not last or (last['name'], last['row']) != (name, int(row)):
                last = dict(name=t(name), row=int(row), cols=[], fields=[])
                ev['found'].append(last)
            last['cols'].append(int(col) + 1)
            last['fields'].append(t(field))

    events = []
    for op in scn['runs']:
        ev = dict(op=op['op'], m=op.get('m', 1), inp=op.get('inp', ''),
                  path=op.get('path', ''), limit=op.get('limit', -1),
                  out='ok', counts=[], found=[], disk=[])
        if op['op'] == 'archive' and not op['path']:
            ev['limit'] = -1    # it cannot be given
        limit = [str(ev['limit'])] if ev['limit'] >= 0 else []
        place = op['inp' if op['op'] == 'archive' else 'path']
        if op['op'] != 'xml' and not os.path.exists(where(place)):
            continue    # not made, because of invalid tables
        if op['op'] == 'edit':
            edit(op)
        elif op['op'] == 'xml':
            doc = os.path.join(work, prefixes[op['m'] - 1] + '.xml')
            put(doc, document(scn['models'][op['m'] - 1]))
            launch([doc, where(op['path'])] + limit, ev)
        else:
            args = [where(op['inp'])]
            if op['path']:
                args.append(where(op['path']))
            launch(args + limit, ev)
        if ev['out'] not in ('ok', 'exit'):
            events.append(ev)
            break
        try:
            ev['disk'] = dump()
        except Exception as exc:
            ev['out'] = 'unreadable'
            ev['msg'] = t('%s: %s' % (dlib.exc_name(exc), exc))
        events.append(ev)
        if ev['out'] == 'unreadable':
            break
    shutil.rmtree(base, ignore_errors=True)
    shutil.rmtree(work, ignore_errors=True)
    return dict(models=scn['models'], prefixes=prefixes, events=events)


HANDLERS = dict(script=run_script, csv=run_csv, models=run_models, archive=run_archive)


def handler(scn):
    return HANDLERS[scn['call']](scn)


if __name__ == '__main__':
    dlib.main(handler)
