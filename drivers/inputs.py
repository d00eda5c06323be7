"""Job configurations and risk models read from files."""
import csv
import itertools
import os
import random
import re
import shutil
import StringIO
from xml.sax.saxutils import escape
import dlib
from dlib import t, put
from convert import document

count = [0]


def scratch():
    count[0] += 1
    d = os.path.join(dlib.SCRATCH, 'i%d' % count[0])
    os.mkdir(d)
    return os.path.realpath(d)


# ---------------------------------------------------------- configurations

def written(root, path):
    """The text of a path"""
    text = '/'.join(path['parts'])
    return root + '/' + text if path['abs'] else text


def config_text(conf, root, style):
    rnd = random.Random(style)
    lines = []

    def noise():
        if rnd.random() < .2:
            lines.append(rnd.choice(['', '# a comment', '; a = comment',
                                     '#x = 1']))
    for sect in conf:
        noise()
        lines.append('[%s]' % sect['name'])
        for o in sect['options']:
            noise()
            key = o['key']
            if rnd.random() < .3:
                key = rnd.choice([key.upper(), key.capitalize()])
            value = o['text']
            if not value and (o['path']['parts'] or o['path']['abs']):
                value = written(root, o['path'])
            value = value.replace('\n', '\n' + rnd.choice([' ', '    ', '\t']))
            lines.append(key + rnd.choice(['=', ' = ', '= ', ':', ' : '])
                         + value + rnd.choice(['', '', ' ', '  ']))
    return '\n'.join(lines) + rnd.choice(['\n', '\n\n', ''])


def tree_text(tree, root, style):
    rnd = random.Random(style)
    levels, n = [], 0
    rest = list(tree)
    while rest:
        kind = rest[0]['type']
        same = []
        while rest and rest[0]['type'] == kind and len(same) < 3:
            same.append(rest.pop(0))
        branches = []
        for b in same:
            n += 1
            text = written(root, b['path'])
            if rnd.random() < .5:
                text = rnd.choice([' %s ', '\n      %s\n    ', '%s\n', '\t%s'
                                   ]) % text
            branches.append(
                '<logicTreeBranch branchID="b%d"><uncertaintyModel>%s'
                '</uncertaintyModel><uncertaintyWeight>%s</uncertaintyWeight>'
                '</logicTreeBranch>' % (n, escape(text), 1. / len(same)))
        bset = ('<logicTreeBranchSet uncertaintyType="%s" branchSetID="bs%d">'
                '%s</logicTreeBranchSet>' % (kind, n, ''.join(branches)))
        if levels and rnd.random() < .3:
            levels[-1].append(bset)
        else:
            levels.append([bset])
    return ('<?xml version="1.0" encoding="utf-8"?>\n'
            '<nrml xmlns="http://openquake.org/xmlns/nrml/0.4">\n'
            '<logicTree logicTreeID="lt1">%s</logicTree></nrml>\n' % ''.join(
                '<logicTreeBranchingLevel branchingLevelID="l%d">%s'
                '</logicTreeBranchingLevel>' % (i, '\n'.join(sets))
                for i, sets in enumerate(levels)))


def sites_text(sites, style):
    out = StringIO.StringIO()
    csv.writer(out, lineterminator='\n' if style & 1 else '\r\n',
               quoting=csv.QUOTE_ALL if style & 2 else csv.QUOTE_MINIMAL
               ).writerows(sites)
    text = out.getvalue()
    return text.rstrip() if style & 4 else text


def run_config(scn):
    from openquake.commonlib import readini
    root = scratch()
    before = os.getcwd()
    for d in sorted(scn['dirs']):
        os.makedirs(os.path.join(root, *d))
    os.chdir(root)
    events = []

    def place(path):
        norm = os.path.normpath(os.path.join(os.getcwd(), path))
        if norm == root:
            parts = []
        elif norm.startswith(root + '/'):
            parts = map(t, norm[len(root) + 1:].split('/'))
        else:
            parts = ['outside', t(norm)]
        return dict(abs=os.path.isabs(path), place=parts)

    def parse(op, ev):
        name = written(root, op['name'])
        if op['how'] == 'text':
            f = open(name)
            source = StringIO.StringIO(f.read())
            f.close()
            source.name = name
        else:
            source = open(name)
        try:
            params = readini.parse_config(source)
        finally:
            source.close()
        base = params.pop('base_path')
        ev['base'] = place(base)
        inputs = params.pop('inputs')
        sources = inputs.pop('source', None)
        if sources is not None:
            ev['hassources'] = True
            ev['sources'] = map(place, sources)
            # sorted as they are, or as they are written
            norm = os.path.normpath
            names = [[x] + [w for w in scn['words']
                            if norm(os.path.join(base, w)) == norm(x)]
                     for x in sources]
            ev['ordered'] = list(sources) == sorted(sources) or any(
                list(c) == sorted(c)
                for c in itertools.islice(itertools.product(*names), 5000))
        sites = params.pop('sites', None)
        if sites is not None:
            ev['hassites'] = True
            m = re.match(r'\s*(\w+)\s*\((.*)\)\s*$', sites, re.S)
            ev['wkt'] = t(m.group(1)) if m else t(sites)
            ev['sites'] = [map(t, p.split()) for p in m.group(2).split(',')
                           ] if m else []
        ev['plain'] = [dict(key=t(a), val=t(b)) for a, b in params.items()]
        ev['inputs'] = [dict(key=t(a), val=place(b))
                        for a, b in inputs.items()]
    for op in scn['ops']:
        ev = dict(op=op['op'], name=op['name'], out='ok', plain=[],
                  inputs=[], sites=[], wkt='', hassites=False, sources=[],
                  hassources=False, ordered=True, content=None,
                  base=dict(abs=True, place=[]))
        if op['op'] == 'cd':
            os.chdir(written(root, op['name']))
        elif op['op'] == 'write':
            c = op['content']
            ev['content'] = dict(conf=t_conf(c.get('conf', [])),
                                 sites=c.get('sites', []),
                                 tree=c.get('tree', []))
            put(written(root, op['name']),
                config_text(c['conf'], root, op['style']) if 'conf' in c else
                tree_text(c['tree'], root, op['style']) if 'tree' in c else
                sites_text(c['sites'], op['style']))
        else:
            try:
                parse(op, ev)
            except Exception as exc:
                ev['out'] = dlib.exc_name(exc)
                ev['msg'] = t(str(exc))
        if ev['content'] is None:
            ev['content'] = dict(conf=[], sites=[], tree=[])
        events.append(ev)
    os.chdir(before)
    shutil.rmtree(root, ignore_errors=True)
    return dict(events=events)


def t_conf(conf):
    return [dict(name=t(s['name']), options=[
        dict(key=t(o['key']), text=t(o['text']), path=o['path'])
        for o in s['options']]) for s in conf]


# ------------------------------------------------------------ risk models

def run_risk(scn):
    from openquake.commonlib import riskloaders
    root = scratch()
    inputs, events = dict(scn.get('other', {})), []

    def fun(vf):
        return dict(imt=t(vf.imt), imls=map(repr, vf.imls),
                    lr=map(repr, vf.mean_loss_ratios),
                    cv=map(repr, vf.covs), dist=t(vf.distribution_name))

    def damage_fun(f):
        if hasattr(f, 'stddev'):
            return dict(mean=repr(f.mean), stddev=repr(f.stddev))
        return dict(imls=map(repr, f.imls), poes=map(repr, f.poes),
                    limit=repr(f.no_damage_limit))

    def do(op, ev):
        name = op['op']
        if name == 'write':
            path = os.path.join(root, 'f%d.xml' % len(events))
            put(path, document(scn['models'][op['m'] - 1]))
            inputs[op['key']] = path
        elif name == 'remove':
            inputs.pop(op['key'], None)
        elif name == 'names':
            ev['cost'] = t(riskloaders.loss_type_to_cost_type(op['key']))
            ev['loss'] = t(riskloaders.cost_type_to_loss_type(op['key']))
        elif name == 'damage':
            text = document(scn['models'][op['m'] - 1])
            if op['how'] == 'path':
                content = os.path.join(root, 'frag.xml')
                put(content, text)
            else:
                content = StringIO.StringIO(text)
            states, models = riskloaders.get_damage_states_and_risk_models(
                content)
            ev['states'] = map(t, states)
            for tax, rm in models.items():
                ffs = rm.workflow.fragility_functions['damage']
                ev['taxok'] = ev['taxok'] and rm.taxonomy == tax
                ev['damage'].append(dict(key=t(tax), val=dict(
                    imt=t(ffs.imt), funs=map(damage_fun, ffs))))
        elif op['how'] == 'vfs':
            for tax, vfs in riskloaders.get_taxonomy_vfs(
                    inputs, op['lts'], op['retro']):
                ev['models'].append(dict(key=t(tax), val=[
                    dict(key=t(lt), val=fun(vf)) for lt, vf in vfs.items()]))
        else:
            kw = {}
            if op['retro']:
                kw['retrofitted'] = True
            if op['how'] == 'insured':
                kw['insured_losses'] = True
            models = riskloaders.get_risk_models(inputs, op['lts'], **kw)
            for tax, rm in models.items():
                ev['taxok'] = ev['taxok'] and rm.taxonomy == tax
                ev['insuredok'] = ev['insuredok'] and (
                    bool(rm.workflow.insured_losses)
                    == (op['how'] == 'insured'))
                ev['models'].append(dict(key=t(tax), val=[
                    dict(key=t(lt), val=fun(vf)) for lt, vf in
                    rm.workflow.vulnerability_functions.items()]))

    taxonomies = set(f['id'] for m in scn['models'] if m['kind'] == 'vuln'
                     for s in m['sets'] for f in s['funs'])
    for op in scn['ops']:
        ev = dict(op=op['op'], key=op.get('key', ''), m=op.get('m', 0),
                  lts=op.get('lts', []), retro=op.get('retro', False),
                  out='ok', named=[], models=[], states=[], damage=[],
                  taxok=True, insuredok=True, cost='', loss='')
        try:
            do(op, ev)
        except Exception as exc:
            ev['out'] = dlib.exc_name(exc)
            ev['msg'] = t(str(exc))
            ev['named'] = [t(x) for x in sorted(taxonomies)
                           if x in str(exc)]
        events.append(ev)
    shutil.rmtree(root, ignore_errors=True)
    return dict(models=scn['models'], events=events)


HANDLERS = dict(config=run_config, risk=run_risk)


def handler(scn):
    return HANDLERS[scn['call']](scn)


if __name__ == '__main__':
    dlib.main(handler)
