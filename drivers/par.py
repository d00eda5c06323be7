"""Histories of real task managers, pickled sequences and monitors; the pool
of processes and the readings of the memory are stand-ins (see stubs/)"""
import cPickle
import gc
import logging
import os
import re
import time
import weakref

CLOCK = [1000.0]
time.time = staticmethod(lambda: CLOCK[0])

import psutil
from concurrent import futures
from dlib import main, exc_name
from openquake.commonlib import parallel

EVENTS = []
IDX2ID = {}
OWNER = {}      # task -> manager
CURRENT = [None]
SPEC = {}       # task -> description


class Custom(Exception):
    pass


class Special(ValueError):
    def __str__(self):
        return 'special %s' % self.args[0]

EXC = dict(ValueError=ValueError, KeyError=KeyError, Custom=Custom,
           Special=Special, SystemExit=SystemExit, RuntimeError=RuntimeError,
           KeyboardInterrupt=KeyboardInterrupt, StopIteration=StopIteration,
           AssertionError=AssertionError, IOError=IOError,
           NotImplementedError=NotImplementedError)


def token(id):
    return 'because of %dx %%s' % id


def on_step(kind, idx):
    if kind == 'run':
        CURRENT[0] = idx
    elif kind == 'complete':
        id = IDX2ID.get(idx, 0)
        EVENTS.append(dict(ev='complete', id=id, m=OWNER.get(id, 0)))
futures.on_step = on_step


def explode(id, deep=0):
    if deep:
        explode_deeper(id, deep)
    raise EXC[SPEC[id]['fails']](token(id))


def explode_deeper(id, deep):
    explode(id, deep - 1)


def value(code):
    """The value returned by a task"""
    return {-1: None, -2: '', -3: [], -4: ('a', ValueError), -5: False,
            -6: ValueError('x'), -7: (1, 2, 3), -8: KeyError,
            -9: ([], None)}.get(code, code)


def code_of(val):
    for code in range(-9, 0):
        if repr(value(code)) == repr(val):
            return code
    return val


def work(fname, args):
    id = args[0] if args else 0
    if futures.in_worker[0]:
        IDX2ID[CURRENT[0]] = id
    t = SPEC.get(id, {})
    EVENTS.append(dict(
        ev='call', id=id, m=OWNER.get(id, 0),
        ok=args == (id,) + tuple(t.get('args', ())) and
        t.get('func') == fname))
    if t.get('fails'):
        explode(id, t.get('deep', 0))
    return value(t.get('val'))


def task_a(*args):
    return work('task_a', args)


def other_task(*args):
    return work('other_task', args)

FUNCS = dict(task_a=task_a, other_task=other_task)


def progress_of(m, name):
    def progress(msg, *args):
        text = msg % args if args else msg
        named = name in text
        text = text.replace(name, '')
        mo = re.search(r'(\d+)\s*%', text)
        if mo:
            EVENTS.append(dict(ev='pct', m=m, p=int(mo.group(1)),
                               named=named))
        else:
            EVENTS.append(dict(ev='told', m=m, named=named,
                               ns=map(int, re.findall(r'\d+', text))))
    return progress


class Handler(logging.Handler):
    def emit(self, record):
        if record.levelno == logging.INFO and LOGTO[0]:
            LOGTO[0]('%s', record.getMessage())
LOGTO = [None]
logging.getLogger().addHandler(Handler())
logging.getLogger().setLevel(logging.INFO)


class AggBoom(Exception):
    pass


class AggKeyError(AggBoom, KeyError):
    pass


class AggValueError(AggBoom, ValueError):
    pass


def aggregator(m, boom=0):
    calls = []

    def agg(acc, val):
        val = code_of(val)
        calls.append(val)
        if len(calls) == boom:
            EVENTS.append(dict(ev='aggboom', m=m, acc=list(acc), val=val,
                               same=False))
            raise [AggBoom, AggKeyError, AggValueError][boom % 3](
                'on purpose', m)
        EVENTS.append(dict(ev='agg', m=m, acc=list(acc), val=val))
        return acc + [val]
    return agg


def collected(m, how, tasks, func):
    """Log how a collection ends"""
    try:
        res = func()
    except BaseException as exc:
        if EVENTS and EVENTS[-1]['ev'] == 'aggboom':
            EVENTS[-1]['same'] = (isinstance(exc, AggBoom) and
                                  exc.args == ('on purpose', m))
            return False
        text = str(exc)
        EVENTS.append(dict(
            ev='raise', m=m, cls=exc_name(exc),
            names=[t['id'] for t in tasks if t['fails'] and
                   EXC[t['fails']].__name__ in text],
            msgs=[t['id'] for t in tasks if t['fails'] and
                  token(t['id']) in text],
            tb=all('explode' in text and text.count('in explode') >=
                   1 + 2 * t.get('deep', 0)
                   for t in tasks if t['fails'] and
                   token(t['id']) in text)))
        return False
    EVENTS.append(dict(ev='return', m=m,
                       acc=res if how == 'collecting' else [],
                       value=res if how == 'waiting' else 0))
    return True


def submitted(m, t):
    SPEC[t['id']] = t
    OWNER[t['id']] = m
    EVENTS.append(dict(ev='submit', m=m, id=t['id'], name=t['func'],
                       fails=bool(t['fails']), val=t['val']))
    return (t['id'],) + tuple(t['args'])


def pool(scn):
    del EVENTS[:]
    for d in (IDX2ID, OWNER, SPEC):
        d.clear()
    os.environ.pop('OQ_NO_DISTRIBUTE', None)
    if scn['env']:
        os.environ['OQ_NO_DISTRIBUTE'] = scn['env']
    managers, pend, dead = {}, {}, set()
    for op in scn['ops']:
        m = op['m']
        if m in dead:
            continue
        func, name = FUNCS[op['func']], op['name'] or op['func']
        if op['op'] != 'map_reduce' and m not in managers:
            kw = dict(name=op['name']) if op['name'] else {}
            managers[m] = parallel.TaskManager(func, progress_of(m, name),
                                               **kw)
        futures.schedule[:] = [p - 1 for p in op.get('order', [])]
        if op['op'] == 'submit':
            for t in op['tasks']:
                args = submitted(m, t)
                pend.setdefault(m, []).append(t)
                try:
                    managers[m].submit(*args)
                    out = 'ok'
                except BaseException as exc:
                    out = exc_name(exc)
                EVENTS.append(dict(ev='submitted', m=m, out=out))
        elif op['op'] == 'collect':
            EVENTS.append(dict(ev='start', m=m, how='collecting',
                               acc=op['acc']))
            if not collected(m, 'collecting', pend.pop(m, []), lambda:
                             managers[m].aggregate_results(
                                 aggregator(m, op.get('boom', 0)), list(op['acc']))):
                dead.add(m)
        elif op['op'] == 'wait':
            EVENTS.append(dict(ev='start', m=m, how='waiting', acc=[]))
            if not collected(m, 'waiting', pend.pop(m, []),
                             lambda: managers[m].wait()):
                dead.add(m)
        elif op['op'] == 'map_reduce':
            LOGTO[0] = progress_of(m, name)
            n = len(op['tasks'])

            def arguments():
                for t in op['tasks']:
                    yield submitted(m, t)
                EVENTS.append(dict(ev='start', m=m, how='collecting',
                                   acc=op['acc']))
            kw = dict(name=op['name']) if op['name'] else {}
            if not collected(m, 'collecting', op['tasks'], lambda:
                             parallel.map_reduce(
                                 func, arguments(),
                                 aggregator(m, op.get('boom', 0)),
                                 list(op['acc']), **kw)):
                dead.add(m)
            LOGTO[0] = None
    return dict(env=scn['env'], managers=scn['managers'],
                events=list(EVENTS))


# ------------------------------------------------------------ pickles

class Thing(object):
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Thing(%r)' % (self.v,)


class Old:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Old(%r)' % (self.v,)


class Addresses(object):
    """Stand-in for id() where the memory of dead objects is used again"""
    def __init__(self):
        self.refs = []

    def __call__(self, obj):
        if not isinstance(obj, Thing):
            return -1 - sum(1 for _ in ()) - hash(repr(type(obj))) % 7919
        for n, ref in enumerate(self.refs):
            if ref() is obj:
                return n
        gc.collect()
        end = 5
        while end and not any(ref() is None for ref in self.refs):
            _sleep(0.005)
            gc.collect()
            end -= 1
        for n, ref in enumerate(self.refs):
            if ref() is None:
                self.refs[n] = weakref.ref(obj)
                return n
        self.refs.append(weakref.ref(obj))
        return len(self.refs) - 1

_sleep = time.sleep


def build(kind, v):
    if kind == 'int':
        return v
    elif kind in ('float', 'long', 'complex', 'bool'):
        return dict(float=float, long=long, complex=complex,
                    bool=bool)[kind](v)
    elif kind == 'text':
        return str(v)
    elif kind == 'unitext':
        return unicode(v)
    elif kind == 'floats':
        return (float(v),)
    elif kind == 'ints':
        return (v,)
    elif kind == 'str':
        return 's%d' % v
    elif kind == 'unicode':
        return u'\xe9%d' % v
    elif kind == 'list':
        return [v, 'x']
    elif kind == 'dict':
        return {'v': v}
    elif kind == 'big':
        return ['0123456789' * 40 + str(v + i) for i in range(10)]
    elif kind == 'none':
        return None
    elif kind == 'tuple':
        return ((v,), [])
    elif kind == 'old':
        return Old(v)
    return Thing(v)

CALLS = []


def listing(*args):
    CALLS.append(map(repr, args))
    return list(args)


def failing(*args):
    raise Custom('listing %d things' % len(args))


def pickles(scn):
    items, objs = [], {}
    for d in scn['items']:
        if d['obj'] not in objs:
            o = build(d['kind'], d['v'])
            inner = o
            if d['pre']:
                o = parallel.Pickled(o)
            objs[d['obj']] = (o, inner)
        o, inner = objs[d['obj']]
        items.append(dict(
            obj=d['obj'], cls=inner.__class__.__name__, val=repr(inner),
            pre=d['pre'],
            size=len(cPickle.dumps(inner, cPickle.HIGHEST_PROTOCOL))))
    res = dict(items=items, out='ok', wrappers=[], call=dict(made=False))
    given = [objs[d['obj']][0] for d in scn['items']]
    try:
        if scn['src'] == 'temporaries':
            del given, objs, o, inner
            parallel.id = Addresses()
            out = parallel.pickle_sequence(
                build('thing', d['v']) for d in scn['items'])
            given = [None] * len(items)
        elif scn['src'] == 'gen':
            out = parallel.pickle_sequence(o for o in given)
        else:
            out = parallel.pickle_sequence(
                tuple(given) if scn['src'] == 'tuple' else given)
    except Exception as exc:
        return dict(res, out=exc_name(exc))
    finally:
        parallel.__dict__.pop('id', None)
    known = []
    for n, w in enumerate(out):
        for j, x in enumerate(known):
            if x is w:
                break
        else:
            j = len(known)
            known.append(w)
        isw = isinstance(w, parallel.Pickled)
        mo = re.match(r'<Pickled (\S+) (\d+)K>', repr(w))
        res['wrappers'].append(dict(
            w=j + 1, iswrapper=isw, given=n < len(given) and w is given[n],
            cls=w.clsname, size=len(w), val=repr(w.unpickle()),
            repcls=mo.group(1) if mo else '',
            repk=int(mo.group(2)) if mo else -1))
    if scn['call']:
        func = failing if scn['call'] == 'failing' else listing
        originals = [w.unpickle() for w in out]
        val, etype = parallel.safely_call(func, originals)
        del CALLS[:]
        c = dict(made=True, out='ok', iswrapper=False, res='', etype='',
                 plain=repr(val) if etype is None else val[-60:],
                 plainetype=etype.__name__ if etype else '',
                 got=[], raised='Custom', described=False)
        try:
            r = parallel.safely_call(func, out, pickle=True)
            c['iswrapper'] = isinstance(r, parallel.Pickled)
            val, etype = r.unpickle()
            c['res'] = repr(val) if etype is None else val[-60:]
            c['etype'] = etype.__name__ if etype else ''
            if CALLS:
                c['got'] = CALLS[0]
            c['described'] = etype is not None and (
                'Custom' in val and 'listing %d things' % len(out) in val and
                'failing' in val)
        except Exception as exc:
            c['out'] = exc_name(exc)
        res['call'] = c
    return res


# ------------------------------------------------------------ monitor

class Boom(Exception):
    pass


BOOMS = dict(EXC, Boom=Boom, GeneratorExit=GeneratorExit)


def monitor(scn):
    if scn.get('given') in ('default', 'empty'):
        scn['pids'] = [os.getpid()]
    hooks = []
    now = {}

    class Monitor(parallel.PerformanceMonitor):
        def on_exit(self):
            hooks.append((list(self.mem), self.exc))
            if scn['default_hook']:
                super(Monitor, self).on_exit()

    def rss_of(pid):
        n = scn['pids'].index(pid)
        if now['rd'][n] < 0:
            raise (psutil.AccessDenied if now['rd'][n] == -1 else
                   psutil.NoSuchProcess)(pid)
        return now['rd'][n]
    psutil.rss_of = rss_of
    mon = (Monitor() if scn.get('given') == 'default' else
           Monitor([]) if scn.get('given') == 'empty' else
           Monitor(scn.get('given') or scn['pids']))
    blocks = []
    for b in scn['blocks']:
        e = dict(b, entered='ok', self=False, excin='', propagated='',
                 exc='', mem=[], hooks=0, hookmem=[], hookexc='', start=0,
                 duration=0, clock0=0, clock1=0)
        CLOCK[0] += b['before']
        e['clock0'] = int(CLOCK[0])
        now['rd'] = b['rd0']
        boom = BOOMS[b.get('cls', 'Boom')]('boom')
        state = ['entering']
        try:
            with mon as m:
                state[0] = 'in'
                e['self'] = m is mon
                e['excin'] = '' if mon.exc is None else 'left'
                now['rd'] = b['rd1']
                CLOCK[0] += b['inside']
                e['clock1'] = int(CLOCK[0])
                if b['how']:
                    raise boom
        except BaseException as exc:
            if state[0] == 'entering':
                e['entered'] = exc_name(exc)
            e['propagated'] = ('boom' if exc is boom else exc_name(exc))
        if e['entered'] == 'ok':
            def tag(x):
                return '' if x is None else 'boom' if x is boom else 'other'
            e.update(exc=tag(mon.exc), mem=list(mon.mem or []),
                     hooks=len(hooks),
                     hookmem=hooks[-1][0] if hooks else [],
                     hookexc=tag(hooks[-1][1]) if hooks else 'none',
                     start=int(time.mktime(mon.start_time.timetuple())),
                     duration=int(round(mon.duration or 0)))
        blocks.append(e)
    return dict(pids=scn['pids'], blocks=blocks)


def handle(scn):
    return globals()[scn['call_']](scn)

if __name__ == '__main__':
    main(handle)
