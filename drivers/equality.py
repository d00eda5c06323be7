"""Comparisons of real records, tables and weighted sequences"""
from dlib import main, t, exc_name
from openquake.commonlib import record, general

_types = {}


def rectype(width):
    if width not in _types:
        dic = dict(('c%d' % i, record.Field(str)) for i in range(width))
        dic['pkey'] = record.Unique(*['c%d' % i for i in range(width)])
        _types[width] = type(record.Record)(
            'Rec%d' % width, (record.Record,), dic)
    return _types[width]


def derived(rt):
    if rt not in _types:
        _types[rt] = type(record.Record)(rt.__name__ + 'd', (rt,), {})
    return _types[rt]


def mk(x):
    kind, items = x['kind'], x['items']
    if kind in ('record', 'record2'):
        rt = rectype(len(items))
        return (rt if kind == 'record' else derived(rt))(*items)
    elif kind in ('table', 'table2'):
        rt = rectype(len(items[0]) if items else 1)
        if kind == 'table2':      # of another type
            rt = derived(rt)
        return record.Table(rt, [rt(*i) for i in items])
    elif kind == 'rows':      # a plain list of records
        return [rectype(len(i))(*i) for i in items]
    elif kind == 'list':
        return list(items)
    elif kind == 'tuple':
        return tuple(items)
    return general.WeightedSequence(zip(items, x['weights']))


def ask(func):
    try:
        res = func()
    except Exception as exc:
        return exc_name(exc)
    return str(bool(res))


def handle(scn):
    a, b = mk(scn['a']), mk(scn['b'])
    return dict(a=scn['a'], b=scn['b'], eq=ask(lambda: a == b),
                ne=ask(lambda: a != b), qe=ask(lambda: b == a),
                en=ask(lambda: b != a))

if __name__ == '__main__':
    main(handle)
