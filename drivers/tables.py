"""Histories of operations on the real record.Table / record.TableSet"""
from dlib import main, t, exc_name
from openquake.commonlib import record, records, converter

_types = {}


def rectype(uniq):
    """A record type with three text columns and the given constraints"""
    key = repr(uniq)
    if key not in _types:
        cols = 'abc'
        dic = dict(a=record.Field(str), b=record.Field(str),
                   c=record.Field(str))
        for i, u in enumerate(uniq):
            dic['pkey' if i == 0 else 'unique%d' % i] = record.Unique(
                *[cols[j - 1] for j in u])
        _types[key] = type(record.Record)('Item%d' % len(_types),
                                          (record.Record,), dic)
    return _types[key]

SHIPPED = dict(Location=records.Location, Asset=records.Asset,
               Cost=records.Cost, Occupancy=records.Occupancy,
               GmfData=records.GmfData)


def rows(tbl):
    return [[t(c) for c in r] for r in tbl]


def stored(rec, tbl):
    """The columns of a record found, if it is one of those of the table"""
    if not any(r is rec for r in tbl):
        return ['not the record stored']
    return [t(c) for c in rec]


class TableSystem(object):
    """One table"""
    def __init__(self, scn):
        self.rt = (SHIPPED[scn['type']] if 'type' in scn
                   else rectype(scn['uniq']))
        self.pk = scn['uniq'][0]
        self.tbl = record.Table(self.rt, [])
        self.made = {} if scn.get('reuse') else None

    def mk(self, r):
        if self.made is None:
            return self.rt(*r)
        # the same object every time
        return self.made.setdefault(tuple(r), self.rt(*r))

    def keys(self, op):
        recs = op.get('recs', [op['rec']] if 'rec' in op else [])
        return [[r[j - 1] for j in self.pk] for r in recs]

    def do(self, op):
        tbl, mk = self.tbl, self.mk
        name = op['op']
        if name == 'append':
            tbl.append(mk(op['rec']))
        elif name == 'insert':
            tbl.insert(op['pos'], mk(op['rec']))
        elif name == 'replace':
            tbl[op['pos']] = mk(op['rec'])
        elif name == 'delete':
            del tbl[op['pos']]
        elif name == 'pop':
            tbl.pop(op['pos'])
        elif name == 'reverse':
            tbl.reverse()
        elif name == 'extend':
            tbl.extend(map(mk, op['recs']))
        elif name == 'remove':
            tbl.remove(mk(op['rec']))
        elif name == 'new':
            self.tbl = record.Table(self.rt, map(mk, op['recs']))

    def attempt(self, op):
        try:
            self.do(op)
        except Exception as exc:
            return exc_name(exc)
        return 'ok'

    def observe(self, keys):
        seen = []
        for k in keys:
            try:
                rec = self.tbl.getrecord(*k)
            except KeyError:
                seen.append([])
            else:
                seen.append([stored(rec, self.tbl)])
        return dict(rows=rows(self.tbl), len=len(self.tbl),
                    keys=[list(k) for k in keys], found=seen)


class SetSystem(object):
    """A table set"""
    def __init__(self, scn):
        if scn['kind'] == 'made':
            conv = self.make(scn['schema'])
        else:
            conv = getattr(converter, scn['kind'])
        self.schema = scn['schema']
        self.made = {} if scn.get('reuse') else None
        self.ts = record.TableSet(conv)
        self.rts = [getattr(self.ts, 'table' + s['name']).recordtype
                    for s in self.schema]

    _made = {}

    def make(self, schema):
        key = repr(schema)
        if key not in self._made:
            rts = []
            for s in schema:
                names = 'abcdefgh'[:s['cols']]
                dic = {}
                for n in names:
                    dic[n] = record.Field(str)
                for i, u in enumerate(s['uniq']):
                    dic['pkey' if i == 0 else 'unique%d' % i] = \
                        record.Unique(*[names[j - 1] for j in u])
                for i, f in enumerate(s['fks']):
                    target = rts[f['to'] - 1]
                    uniq = getattr(target, 'pkey' if f['on'] == 1 else
                                   'unique%d' % (f['on'] - 1))
                    dic['fkey%d' % i] = record.ForeignKey(
                        uniq, *[names[j - 1] for j in f['cols']])
                rts.append(type(record.Record)(
                    s['name'], (record.Record,), dic))

            class Made(object):
                recordtypes = staticmethod(lambda: rts)
            self._made[key] = Made
        return self._made[key]

    def keys(self, op):
        recs = op.get('recs', [op] if 'rec' in op else [])
        return [[r['t'], [r['rec'][j - 1] for j in
                          self.schema[r['t'] - 1]['uniq'][0]]] for r in recs]

    def table(self, n):
        return getattr(self.ts, 'table' + self.schema[n - 1]['name'])

    def mk(self, r):
        rec = self.rts[r['t'] - 1](*r['rec'])
        if self.made is None:
            return rec
        return self.made.setdefault((r['t'],) + tuple(r['rec']), rec)

    def do(self, op):
        name = op['op']
        if name == 'insert':
            self.ts.insert(self.mk(op))
        elif name == 'insert_all':
            self.ts.insert_all(map(self.mk, op['recs']))
        elif name == 'delete':
            del self.table(op['t'])[op['pos'] - 1]

    attempt = TableSystem.__dict__['attempt']

    def observe(self, keys):
        seen = []
        for n, k in keys:
            try:
                rec = self.table(n).getrecord(*k)
            except KeyError:
                seen.append([])
            else:
                seen.append([stored(rec, self.table(n))])
        return dict(names=[tbl.recordtype.__name__ for tbl in self.ts.tables],
                    tabs=[rows(self.table(n + 1))
                          for n in range(len(self.schema))],
                    iter=[tbl.recordtype.__name__ for tbl in self.ts],
                    keys=[dict(t=n, key=list(k)) for n, k in keys],
                    found=seen)


def single(op):
    """An operation on several records as operations on one"""
    if op['op'] in ('extend', 'new'):
        return [dict(op='append', rec=r) for r in op['recs']]
    elif op['op'] == 'insert_all':
        return [dict(r, op='insert') for r in op['recs']]
    return [op]


def handle(scn):
    cls = SetSystem if 'schema' in scn else TableSystem
    sys_ = cls(scn)
    keys = []       # every primary key ever mentioned is looked up
    events = []
    if not scn.get('twin'):
        for op in scn['ops']:
            keys.extend(k for k in sys_.keys(op) if k not in keys)
            out = sys_.attempt(op)
            events.append(dict(op, out=out, **sys_.observe(keys)))
        key = 'schema' if 'schema' in scn else 'uniq'
        return {key: scn[key], 'events': events}
    # the same history with and without the refused operations
    ops = [o for op in scn['ops'] for o in single(op)]
    for op in ops:
        keys.extend(k for k in sys_.keys(op) if k not in keys)
    start = sys_.observe(keys)
    accepted = []
    for op in ops:
        twin = cls(scn)
        for o in accepted:
            twin.attempt(o)
        out2 = twin.attempt(op)
        out = sys_.attempt(op)
        events.append(dict(
            op=op['op'], out=out, obs=sys_.observe(keys),
            twin=dict(out=out2, obs=twin.observe(keys))))
        if out == 'ok':
            accepted.append(op)
    return dict(start=start, events=events)

if __name__ == '__main__':
    main(handle)
