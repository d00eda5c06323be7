"""Histories of definitions of real record types"""
from dlib import main, t, exc_name
from texts import rule, show
from openquake.commonlib import record


def helper(self):
    return 1


def define(types, body, n):
    dic = {}
    for f in body['own']:    # in order of definition
        dic[f['name']] = record.Field(rule(f['rule']))
    for u in body['uniq']:
        dic[u['name']] = record.Unique(*u['of'])
    for x in body['extra']:
        dic[x] = helper
    bases = tuple(types[b - 1] for b in body['bases']) or (record.Record,)
    return type(record.Record)('Type%d' % n, bases, dic)


def attempt(func):
    try:
        return dict(out='ok', value=show(func()))
    except Exception as exc:
        return dict(out=exc_name(exc), value=show(None))


def see_type(rt, recs):
    res = dict(names=list(rt.fieldnames), len=len(rt), uniq=[],
               rows=[], found=[], table='ok', valid=True,
               text='')
    for u in rt.get_descriptors(record.Unique):
        same = u.recordtype is rt and getattr(rt, u.name) is u
        res['uniq'].append(dict(name=u.name if same else '?',
                                of=list(u.names)))
    mine = [r for r in recs if r.__class__ is rt]
    try:
        tbl = record.Table(rt, mine)
    except Exception as exc:
        res['table'] = exc_name(exc)
    else:
        res['rows'] = [map(t, r) for r in tbl]
        res['valid'] = bool(tbl.is_valid())
        res['text'] = t(str(tbl))
        for r in mine:
            try:
                res['found'].append(map(t, tbl.getrecord(*r.pkey)))
            except KeyError:
                res['found'].append(['no record'])
    return res


def see_rec(rec):
    rt = rec.__class__
    return dict(
        row=map(t, rec), byname=[t(rec[n]) for n in rt.fieldnames],
        len=len(rec), text=t(str(rec)), valid=bool(rec.is_valid()),
        attr=[attempt(lambda: getattr(rec, n)) for n in rt.fieldnames],
        extract=[attempt(lambda: getattr(rt, n)(rec))
                 for n in rt.fieldnames],
        keys=[dict(name=u.name, key=map(t, getattr(rec, u.name)))
              for u in rt.get_descriptors(record.Unique)])


def handle(scn):
    types, recs, events = [], [], []
    for n, op in enumerate(scn['ops']):
        out = 'ok'
        try:
            if op['op'] == 'define':
                types.append(define(types, op['body'], n))
            elif op['op'] == 'check':
                a, b = op['of']
                types[op['t'] - 1].add_check(
                    lambda rec, a=a, b=b: rec[a] != rec[b])
            else:
                recs.append(types[op['t'] - 1](*op['args'], **dict(
                    (x['name'], x['text']) for x in op['named'])))
        except Exception as exc:
            out = exc_name(exc)
        events.append(dict(
            op, out=out, types=[see_type(rt, recs) for rt in types],
            recs=map(see_rec, recs), invalid=[
                dict(row=exc.rowno, cols=[f for f, _msg in exc.errorlist])
                for exc in record.find_invalid(recs)]))
    return dict(events=events)

if __name__ == '__main__':
    main(handle)
