import random
import vlib

STR = ['', 'a', 'b c', 'a,b', 'say "hi"', '"', '""', 'two\nlines', 'x\r\ny',
       "it's", ';', '\t', ' x ', u'caff\xe8', '0', '-', 'a__b', '=1', '#', ',',
       'x' * 200, '\\', '\\n', 'None', '\n', ' ', 'a\rb', '\r']
GOOD = dict(
    int=['0', '12', '-3', '+4', ' 5 ', '007'],
    float=['1', '-2.5', '1e3', 'inf', '.5', '0'],
    positiveint=['0', '12', '7', '1000000'],
    positivefloat=['0', '1.5', '1e-3', '.25', '0.0'],
    longitude=['180', '-180', '0', '12.5', '179.99'],
    latitude=['90', '-90', '0', '45.1'],
    probability=['0', '1', '.5', '1e-9'],
    IMTstr=['PGA', 'PGV', 'MMI', 'SA(0.1)', 'SA(1)', 'RSD', 'IA'],
    namelist=['a', 'a b', ' slight  heavy ', 'x_1'],
    boolean=['0', '1', 'true', 'false'],
    not_empty=[x for x in STR if x])
BAD = dict(
    int=['', 'x', '1.5', '1e2', '1 2'],
    float=['', 'x', '1,5', '--1', 'e5'],
    positiveint=['', '-1', '1.0', 'one'],
    positivefloat=['', '-1', '-1e-9', 'nan', 'x'],
    longitude=['', '180.1', '-181', 'nan', 'east', '360'],
    latitude=['', '90.01', '-91', 'north', '180'],
    probability=['', '1.0001', '-0.1', '50%', '2'],
    IMTstr=['', 'pga', 'SA', 'SA()', 'SA(x)', 'PGA ', 'SA(0.1) '],
    namelist=['', ' ', '1a', 'a 2b', 'a-b', 'a;b'],
    boolean=['TRUE', 'yes', '2', ' true'],
    not_empty=[''])
PREFIXES = ['m', 'a', 'b', 'a__b', 'x y', 'A', 'a_b', 'Location', '_', 'm2',
            'b__Location.csv', 'model.v1', '1']
MISNAMED = ['readme.txt', 'a__Location.txt', 'a_Location.csv', 'Location.csv',
            'a__location.csv', 'a__Location.csv.bak', 'a__Nothing.csv',
            'a__Record.csv', 'm__valid.csv', 'm__Field.csv', 'a__.csv', 'm',
            'm.xml', 'a__Location', '__', 'b__Unique.csv', 'b__Node.csv',
            'm__Location.CSV', 'm__LocationXcsv', 'Location']


class Maker(object):
    """Makes up tables, following the schema of the specification"""
    def __init__(self, rnd, schema, bad):
        self.rnd = rnd
        self.__dict__.update(schema)
        self.bad = bad              # share of the bad cells
        self.n = 0

    def cell(self, rule, key=False):
        rnd = self.rnd
        r = rule['r']
        if r == 'noneor':
            return '' if rnd.random() < .4 else self.cell(rule['sub'])
        bad = rnd.random() < self.bad
        if r == 'choice':
            good = list(rule['of'])
            pool = ['', 'other', good[0].upper(), good[0] + ' '] if bad \
                else good
            return rnd.choice(pool)
        if r == 'str':
            if key:
                self.n += 1
                return 'k%d' % self.n if rnd.random() < .7 else \
                    '%s%d' % (rnd.choice(STR), self.n)
            return rnd.choice(STR)
        if key and not bad and r in ('int', 'positiveint', 'float'):
            self.n += 1
            return str(self.n)
        if key and not bad and r in ('longitude', 'latitude'):
            return '%.3f' % rnd.uniform(-90, 90)
        return rnd.choice((BAD if bad else GOOD)[r])

    def row(self, rt, group):
        rnd = self.rnd
        keycols = set(sum(map(list, self.keys[rt]), []))
        row = [self.cell(f['rule'], n in keycols) for n, f in
               enumerate(self.fields[rt], 1)]
        ref = self.refers[rt]
        if ref['to'] and group.get(ref['to']) and rnd.random() < .96:
            target = rnd.choice(group[ref['to']])
            for c in ref['cols']:
                row[c - 1] = target[c - 1] if c <= len(target) else ''
        return row

    def rows(self, rt, group, size):
        """Rows, without duplicates most of the times"""
        rnd = self.rnd
        res, seen = [], set()
        dup = rnd.random() < .06
        for _ in range(rnd.randrange(size + 1)):
            for _ in range(8):
                row = self.row(rt, group)
                keys = [(tuple(c), tuple(row[i - 1] for i in c))
                        for c in self.keys[rt]]
                if dup or not seen & set(keys):
                    break
            else:
                continue
            seen.update(keys)
            if row[-1] == '' and rnd.random() < .3 and len(row) > 1:
                row = row[:-1]
            res.append(row)
        group.setdefault(rt, []).extend(res)
        return res

    def header(self, rt, wrong):
        names = [f['n'] for f in self.fields[rt]]
        if not wrong:
            return names
        bad = [names[::-1], names[:-1], names + ['more'], ['id'],
               [x.upper() for x in names], [' ' + x for x in names],
               names[:-1] + [names[-1] + 's'], names[:1] + names]
        return self.rnd.choice([b for b in bad if b != names])

    def file(self, rt, group, size, header, wrong=.05):
        rnd = self.rnd
        rows = self.rows(rt, group, size)
        if header:
            if rnd.random() < .06:      # an empty file
                group[rt] = []
                return []
            rows = [self.header(rt, rnd.random() < wrong)] + rows
        return rows

    def group(self, conv, size, header, wrong=.05, full=.7):
        """Some files of a group: record type -> rows"""
        group, res = {}, []
        for rt in self.types[conv]:
            if self.rnd.random() < full:
                res.append((rt, self.file(rt, group, size, header, wrong)))
        return res


def csv_scn(rnd, schema, prop):
    mk = Maker(rnd, schema, rnd.choice([0, .05, .15, .4]) if prop == 'C06'
               else rnd.choice([0, 0, .1]))
    kind = rnd.choice(['mem', 'dir', 'zip'])
    header = rnd.random() < .75
    ngroups = rnd.choice([0, 1, 1, 1, 2, 2, 3])
    wrong = rnd.choice([0, 0, 0, .15])
    size = rnd.choice([1, 2, 3, 5, 8])
    prefixes = rnd.sample(PREFIXES, 4) + ['']
    convs = dict((p, rnd.choice(sorted(schema['types']))) for p in prefixes)
    rnd.shuffle(prefixes)
    init, names = [], set()

    def suffix(p, rt):
        return '%s__%s.csv' % (p, rt)
    for p in prefixes[:ngroups]:
        for rt, rows in mk.group(convs[p], size, header, wrong):
            init.append(dict(name=suffix(p, rt), rows=rows,
                             style=rnd.randrange(8)))
    for name in rnd.sample(MISNAMED, rnd.choice([0, 0, 1, 2, 4])):
        init.append(dict(name=name, rows=[['id', 'x'], ['?', 'y']],
                         style=rnd.randrange(4)))
    if kind == 'zip' and not init:
        init.append(dict(name='q', rows=[['q']], style=0))
    rnd.shuffle(init)
    names.update(f['name'] for f in init)
    ops, iters = [], []
    used = prefixes[:ngroups] + [prefixes[0]]

    def prefix():
        return rnd.choice(used) if rnd.random() < .85 else \
            rnd.choice(prefixes)

    def anytype(p):
        return rnd.choice(schema['types'][convs[p]])
    for _ in range(rnd.randrange(2, 9)):
        p = prefix()
        reuse = rnd.random() < .3
        c = rnd.random()
        if c < (.6 if prop == 'C06' else .12):
            ops.append(dict(op='invalid', prefix=rnd.choice(['', p]),
                            limit=rnd.choice([-1, -1, 0, 1, 2, 3, 5, 100]),
                            plain=rnd.random() < .5, reuse=reuse))
        elif c < .25 or prop == 'C06' and c < .8:
            # write
            if rnd.random() < .4:
                rt = anytype(p)
                name = suffix(p, rt)
                ops.append(dict(op='put', name=name, style=rnd.randrange(8),
                                given=mk.file(rt, {}, size, header, wrong)))
                names.add(name)
            else:
                group, written = {}, []
                for rt in schema['types'][convs[p]]:
                    if rnd.random() < .6:
                        written.append([dict(rt=rt, row=r) for r in
                                        mk.rows(rt, group, size)])
                        if written[-1]:
                            names.add(suffix(p, rt))
                        if not written[-1]:
                            written.pop()
                if rnd.random() < .5:       # interleaved
                    mixed, queues = [], [list(w) for w in written if w]
                    while queues:
                        q = rnd.choice(queues)
                        mixed.append(q.pop(0))
                        queues = [x for x in queues if x]
                    written = mixed
                else:
                    written = sum(written, [])
                ops.append(dict(op='session', prefix=p, written=written,
                                fail=rnd.random() < .2, reuse=reuse))
            used.append(p)
            iters = []
        elif c < .45:
            ops.append(dict(op='read', prefix=p, rt=anytype(p), reuse=reuse,
                            n=rnd.choice([-1, -1, -1, 1, 2])))
        elif c < .55:
            ops.append(dict(op='table', prefix=p, rt=anytype(p), reuse=reuse))
        elif c < .75:
            ops.append(dict(op='set', prefix=rnd.choice(['', p, p]),
                            reuse=reuse))
        elif c < .8:
            ops.append(dict(op='node', prefix=rnd.choice(['', p]),
                            reuse=reuse))
        elif c < .83:
            ops.append(dict(op='raw'))
        elif c < .86:
            rt = anytype(p)
            ops.append(dict(op='create', rt=rt, style=rnd.randrange(8),
                            given=mk.rows(rt, {}, size)))
        elif iters and rnd.random() < .7:
            ops.append(dict(op='next', h=rnd.choice(iters),
                            n=rnd.choice([1, 1, 2, -1])))
        else:
            ops.append(dict(op='iter', prefix=p, rt=anytype(p), reuse=reuse))
            iters.append(len(iters) + 1)
            ops.append(dict(op='next', h=iters[-1], n=rnd.choice([1, 2])))
    if prop == 'C06':
        ops.append(dict(op='invalid', prefix='', limit=-1, plain=True))
    else:
        ops.append(dict(op='raw'))
        ops.append(dict(op='set', prefix=rnd.choice(used)))
    return dict(call='csv', kind=kind, header=header, init=init, ops=ops)


def cls_csv(scn, tr):
    yield '%s:%s' % (scn['kind'], 'header' if scn['header'] else 'plain')
    for e in tr['events']:
        yield '%s:%s' % (e['op'], e['out'])
        if e['op'] == 'invalid':
            yield 'invalid:%s' % min(len(e['found']), 5)


def csv_check(run, prop):
    big = run.thorough
    vlib.design_check(run, 'CsvTablesMC', 'CsvTablesMC.cfg', consts={
        'MaxRows': 2 if big else 1, 'MaxOps': 2,
        'MaxFiles': 3}, workers=2)
    [schema] = vlib.tlc_scenarios(run, 'CsvTablesMC', 'CsvTablesSchema.cfg')
    fields = schema['fields']

    def enum():
        rnd = random.Random(run.seed)
        walks = vlib.tlc_scenarios(run, 'CsvTablesMC', 'CsvTablesEnum.cfg',
                                   workers=2)
        walks.sort(key=str)
        if not big:
            walks = rnd.sample(walks, 450)
        scns = []
        for n, w in enumerate(walks):
            kind = ['mem', 'dir', 'zip'][(n + run.seed) % 3]
            ops, last = [], None
            for o in w['ops']:
                if o['op'] == 'session':
                    op = dict(op='session', prefix=o['prefix'],
                              written=o['rows'], fail=rnd.random() < .3)
                    last = o['prefix'], o['rows'][0]['rt']
                else:
                    op = dict(op='put', name=o['name'], given=o['rows'],
                              style=rnd.randrange(8))
                    if '__' in o['name'] and o['name'].rsplit(
                            '__')[-1][:-4] in fields:
                        last = o['name'][:-4].rsplit('__', 1)
                ops.append(op)
                if last and prop == 'C07':
                    ops.append(dict(op='read', prefix=last[0], rt=last[1],
                                    n=-1))
            if prop == 'C06':
                ops += [dict(op='invalid', prefix='', limit=x)
                        for x in (-1, 0, 1, 2, 3)]
            else:
                for p in ('a', 'a__b', ''):
                    ops.append(dict(op='set', prefix=p))
                if last:
                    ops.append(dict(op='table', prefix=last[0], rt=last[1]))
                ops.append(dict(op='raw'))
            scns.append(dict(call='csv', kind=kind, header=w['header'],
                             init=[dict(name='q', rows=[['q']], style=0)]
                             if kind == 'zip' else [], ops=ops))
        vlib.section(run, 'small-archives', 'convert', 'CsvTablesTrace',
                     scns, shards=2, classify=cls_csv)

    def walk():
        rnd = random.Random(run.seed + 1)
        scns = [csv_scn(rnd, schema, prop)
                for _ in range(8000 if big else 600)]
        vlib.section(run, 'histories-random', 'convert', 'CsvTablesTrace',
                     scns, shards=3, classify=cls_csv)
    vlib.together(enum, walk)


TECH = ('explicit TLA+ specification model-checked with TLC; behaviours of '
        'the specification replayed on the real code, and the recorded '
        'histories validated against it by TLC')
CHECKS = {}
for _p in ('C06', 'C07'):
    CHECKS[_p] = dict(run=lambda run, p=_p: csv_check(run, p),
                      level='model_checking', technique=TECH)
