"""Histories of assignments on the real records"""
import re
from dlib import main, t, exc_name
from texts import rule, show
from openquake.commonlib import record, records

_made = {}


def mkcheck(chk, names):
    a, b = [names[j - 1] for j in chk['of']]
    if chk['c'] == 'together':
        return lambda rec: (rec[a] == '') == (rec[b] == '')
    return lambda rec: rec[a] != rec[b]


class Refused(ValueError):
    pass


def quiet(cast, how):
    """The same conversion, refusing with other kinds of value errors"""
    def convert(text):
        try:
            return cast(text)
        except ValueError:
            raise [ValueError(), Refused(), UnicodeError('no'),
                   ValueError('')][how]
    return convert


def field(n, c):
    cast = rule(c['rule'])
    return record.Field(cast if n % 3 == 0 else quiet(cast, n % 4))


def rectype(typ):
    if typ['name']:
        return getattr(records, typ['name'])
    key = repr(typ)
    if key not in _made:
        names = [c['name'] for c in typ['cols']]
        fields = [(c['name'], field(n + len(names), c))
                  for n, c in enumerate(typ['cols'])]
        checks = [mkcheck(c, names) for c in typ['checks']]
        pkey = record.Unique(names[0])
        if checks:            # added one by one
            rt = type(record.Record)('Made', (record.Record,),
                                     dict(fields, pkey=pkey))
            for c in checks:
                rt.add_check(c)
        else:                   # columns partly inherited
            base = type(record.Record)('Base', (record.Record,),
                                       dict(fields[:1], pkey=pkey))
            rt = type(record.Record)('Made', (base,), dict(
                fields[1:], pkey=pkey))
        _made[key] = rt
    return _made[key]


def positions(exc):
    """The columns named in the text of the exception"""
    text = str(exc)
    res = []
    for field, _msg in exc.errorlist:
        mo = re.search(r'\[%s\]: 0,(\d+): ' % re.escape(field), text)
        res.append([field, int(mo.group(1)) if mo else -1])
    return res


def attribute(rec, name):
    try:
        return dict(out='ok', value=show(getattr(rec, name)))
    except ValueError:
        return dict(out='ValueError')
    except Exception as exc:
        return dict(out=exc_name(exc))


def observe(rec):
    names = rec.__class__.fieldnames
    tup, exc = rec.cast()
    res = dict(now=[t(c) for c in rec], names=list(names),
               colvalid=[[rec.is_valid(n), rec.is_valid(i)]
                         for i, n in enumerate(names)],
               attr=[attribute(rec, n) for n in names],
               valid=bool(rec.is_valid()))
    try:
        tup2 = rec.to_tuple()
        res['totuple'] = ('same' if tup is not None and
                          map(show, tup2) == map(show, tup)
                          else 'different')
    except record.InvalidRecord as e:
        res['totuple'] = ('InvalidRecord' if exc is not None and
                          e.record is rec and positions(e) == positions(exc)
                          else 'different')
    res['errors'] = positions(exc) if exc is not None else []
    res['values'] = map(show, tup) if tup is not None else []
    res['cast'] = ('values' if exc is None and tup is not None and
                   list(tup._fields) == list(names)
                   else 'errors' if tup is None and exc is not None
                   else 'both')
    return res


def handle(scn):
    rt = rectype(scn['typ'])
    events = []
    rec = None
    for n, op in enumerate(scn['ops']):
        out = 'ok'
        if op['op'] == 'new':
            if n % 2:
                rec = rt(**dict(zip(rt.fieldnames, op['row'])))
            else:
                rec = rt(*op['row'])
        else:
            key = op['key']
            try:
                rec[key['name'] if key['by'] == 'name' else key['pos']] = \
                    op['value']
            except ValueError:
                out = 'ValueError'
            except Exception as exc:
                out = exc_name(exc)
        events.append(dict(op, out=out, **observe(rec)))
    return dict(typ=scn['typ'], events=events)

if __name__ == '__main__':
    main(handle)
