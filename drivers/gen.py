"""openquake.commonlib.general: blocks, weighted sequences, deep comparison
and the small utilities"""
import os
import shutil
from dlib import main, t, exc_name, SCRATCH
from openquake.commonlib import general


# ------------------------------------------------------------- blocks

class Item(object):
    def __init__(self, n, w, k):
        self.n, self.w, self.k = n, w, k


class Alike(Item):
    """Equal to any item of the same weight and kind"""
    def __eq__(self, other):
        return (self.w, self.k) == (other.w, other.k)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((self.w, self.k))


def scaled(x, unit):
    y = x / unit
    return int(y) if y == int(y) else t(repr(y))


def blocks(scn):
    unit = scn.get('unit', 1) * (1. / scn.get('q', 1))
    cls = Alike if scn.get('alike') else Item
    items = [cls(i['n'], i['w'] * unit, i['k']) for i in scn['items']]
    src = {'list': lambda: items, 'tuple': lambda: tuple(items),
           'gen': lambda: (i for i in items),
           'iter': lambda: iter(items)}[scn.get('src', 'list')]()
    kw = {}
    if not scn.get('noweight'):
        kw['weight'] = lambda i: i.w
    if not scn.get('nokind'):
        kw['kind'] = lambda i: i.k
    out, res = 'end', []
    try:
        if scn['call'] == 'hint':
            it = general.split_in_blocks(src, scn['hint'], **kw)
        else:
            it = general.block_splitter(src, scn['max'] * unit, **kw)
        for b in it:
            res.append(b)
    except Exception as exc:
        out = exc_name(exc)
    return dict(call=scn['call'], items=scn['items'], max=scn.get('max', 1),
                hint=scn.get('hint', 1), q=scn.get('q', 1), out=out,
                blocks=[dict(ns=[i.n for i in b], w=scaled(b.weight, unit))
                        for b in res])


# ------------------------------------------------- weighted sequences

def wseqs(scn):
    unit = scn.get('unit', 1)
    WS = general.WeightedSequence
    pool = [WS(), WS([])]
    events = []
    pairs = lambda ps: [(x, w * unit) for x, w in ps]
    for op in scn['ops']:
        out, name = 'ok', op['op']
        try:
            if name == 'append':
                pool[op['i'] - 1].append((op['x'], op['w'] * unit))
            elif name == 'insert':
                pool[op['i'] - 1].insert(op['p'], (op['x'], op['w'] * unit))
            elif name == 'extend':
                pool[op['i'] - 1].extend(pairs(op['ps']))
            elif name == 'iadd':
                pool[op['i'] - 1] += pairs(op['ps'])
            elif name == 'add':
                pool.append(pool[op['i'] - 1] + pool[op['j'] - 1])
            elif name == 'merge':
                pool.append(WS.merge([pool[i - 1] for i in op['is']]))
            elif name == 'new':
                pool.append(WS(iter(pairs(op['ps']))))
        except Exception as exc:
            out = exc_name(exc)
        order = sorted(range(len(pool)), key=lambda i: pool[i])
        events.append(dict(
            op, out=out,
            seqs=[dict(items=list(s), len=len(s),
                       weight=scaled(s.weight, unit)) for s in pool],
            lt=[[bool(a < b) for b in pool] for a in pool],
            gt=[[bool(a > b) for b in pool] for a in pool],
            sorted=[i + 1 for i in order]))
    return dict(events=events)


# ---------------------------------------------------- deep comparison

class A(object):
    pass


class B(A):
    pass


class SA(object):
    __slots__ = ['x', 'y']


class SB(SA):
    __slots__ = ['x', 'y']

class SC(SA):    # inherits the slots of SA
    __slots__ = ['z']


class SD(SA):    # and may have any other attribute
    pass


class SE(object):
    __slots__ = 'x'

CLS = dict(A=A, B=B, SA=SA, SB=SB, A2=type('A', (object,), {}), SC=SC, SD=SD,
           SE=SE)


def keyof(key):
    """#1 is the number, 1 the text"""
    return int(key[1:]) if key[:1] == '#' else key


def mk(v, dec):
    k = v['t']
    if k == 'num':
        if v['u'] == 0 and v.get('int', v['m'] % 2 == 0):
            return long(v['m']) if v.get('long') else v['m']
        return v['m'] + v['u'] * 10. ** -(dec + 1)
    elif k == 'unicode':
        return v['v'].decode('utf-8')
    elif k == 'str':
        return v['v']
    elif k == 'bool':
        return v['v'] == 'True'
    elif k == 'none':
        return None
    elif k == 'inf':
        return float(v['v'])
    elif k == 'cplx':
        return complex(*[mk(x, dec) for x in v['of']])
    elif k == 'list':
        return [mk(x, dec) for x in v['of']]
    elif k == 'tuple':
        return tuple([mk(x, dec) for x in v['of']])
    elif k == 'iter':
        return (mk(x, dec) for x in v['of'])
    items = [(key, mk(x, dec)) for key, x in zip(v['keys'], v['of'])]
    if k == 'dict':
        return dict((keyof(key), x) for key, x in items)
    obj = CLS[v['cls']]()
    for key, x in items:
        setattr(obj, key, x)
    return obj


def compare(a, b, dec, ex):
    a, b = mk(a, dec), mk(b, dec)
    kw = {}
    if dec != 7:
        kw['decimal'] = dec
    if ex:
        kw['exclude'] = list(ex)
    try:
        eq, msg = general.deep_eq(a, b, **kw)
    except Exception as exc:
        return dict(out=exc_name(exc), eq=False, msg=0)
    return dict(out='ok', eq=bool(eq), msg=len(msg))


def deep(scn):
    dec = scn.get('dec', 7)
    a, b, ex = scn['a'], scn['b'], scn['ex']
    return dict(a=a, b=b, ex=ex, ab=compare(a, b, dec, ex),
                ba=compare(b, a, dec, ex), aa=compare(a, a, dec, ex))


# ---------------------------------------------------------- utilities

_n = [0]


def value(text):
    """#1 is the number, (a,b) a tuple, None is None; else the text"""
    if text[:1] == '#':
        return int(text[1:])
    elif text[:1] == '(':
        return tuple(text[1:-1].split(','))
    return None if text == 'None' else text


def name(x):
    if isinstance(x, tuple):
        return '(%s)' % ','.join(x)
    return '#%d' % x if isinstance(x, int) else 'None' if x is None else t(x)


def misc(scn):
    call = scn['call']
    res = dict(scn, out='ok')
    if call == 'writetmp':
        _n[0] += 1
        dname = os.path.join(SCRATCH, 'w%d' % _n[0])
        top = dname
        if scn['nested']:
            dname = os.path.join(dname, 'a', 'b')
        if scn['exists']:
            os.makedirs(dname)
            open(os.path.join(dname, 'other'), 'w').close()
        before = (os.listdir(dname) if scn['exists'] else [])
        res.update(isfile=False, indir=False, base='', read='', created=0,
                   fresh=False)
        try:
            kw = dict(dir=dname, prefix=scn['prefix'], suffix=scn['suffix'])
            if scn['content'] or scn['pass_empty']:
                kw['content'] = scn['content']
            path = general.writetmp(**kw)
            res['created'] = len(os.listdir(dname)) - len(before)
            other = general.writetmp(**kw)
            res.update(
                isfile=os.path.isfile(path),
                indir=os.path.realpath(os.path.dirname(path)) ==
                os.path.realpath(dname),
                base=t(os.path.basename(path)),
                read=t(open(path, 'rb').read()),
                fresh=path != other)
        except Exception as exc:
            res['out'] = exc_name(exc)
        shutil.rmtree(top, ignore_errors=True)
        return res
    try:
        if call == 'distinct':
            keys = map(value, scn['keys'])
            src = keys if scn.get('src') != 'gen' else (k for k in keys)
            res.update(result=[], after=map(name, keys))
            res.update(result=map(name, general.distinct(src)),
                       after=map(name, keys))
        elif call == 'ceil':
            u = scn.get('unit', 1)
            res.update(result=0, isint=False)
            q = general.ceil(scn['a'] * u + scn['eps'] * 2. ** -40,
                             scn['b'] * u)
            res.update(result=int(q), isint=q == int(q))
        else:
            res.update(result=False)
            r = general.str2bool(scn['text'])
            res.update(result=r if isinstance(r, bool) else t(repr(r)))
    except Exception as exc:
        res['out'] = exc_name(exc)
    return res


def handle(scn):
    if scn['call'] in ('split', 'hint'):
        return blocks(scn)
    elif scn['call'] == 'wseqs':
        return wseqs(scn)
    elif scn['call'] == 'deep':
        return deep(scn)
    return misc(scn)

if __name__ == '__main__':
    main(handle)
