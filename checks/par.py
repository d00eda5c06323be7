import itertools
import random
import vlib

ENV_OFF = ['1', 'true', 'TRUE', 'True', 'yes', 'YES', 'Yes', 'tRuE', 'yEs']
ENV_ON = ['', '', '', '0', 'false', 'no', 'n', '2', '11', 'truee', 'on']
EXC = ['ValueError', 'KeyError', 'Custom', 'Special', 'SystemExit',
       'KeyboardInterrupt', 'StopIteration', 'AssertionError', 'IOError',
       'RuntimeError', 'NotImplementedError']
ARGS = [[], [1], ['x', [1, 2]], [{'a': 1}], ['', None], [u'\xe9', 0.5]]


class Maker(object):
    def __init__(self, rnd, sameval=False):
        self.rnd = rnd
        self.count = 0

    def task(self, fails, func):
        self.count += 1
        return dict(id=self.count, fails=self.rnd.choice(EXC) if fails else '',
                    val=self.rnd.choice([self.count * 10, self.count * 10, 0,
                                         7, -self.rnd.randrange(1, 10)]),
                    deep=self.rnd.choice([0, 0, 0, 1, 4]), func=func,
                    args=self.rnd.choice(ARGS))

    def look(self):
        f = self.rnd.choice(['task_a', 'other_task'])
        return dict(func=f, name=self.rnd.choice(['', '', 'nice name']))


def from_plan(rnd, s):
    """A history enumerated by TLC, on one manager or through map_reduce"""
    mk = Maker(rnd)
    ops = []
    look = mk.look()
    direct = (len(s['rounds']) == 1 and s['rounds'][0]['how'] == 'collect' and
              rnd.random() < .4)
    for r in s['rounds']:
        tasks = [mk.task(f, look['func']) for f in r['fails']]
        acc = rnd.choice([[], [], [-5]])
        if direct:
            ops.append(dict(look, op='map_reduce', m=1, tasks=tasks,
                            acc=acc, order=r['order']))
            continue
        if tasks:
            ops.append(dict(look, op='submit', m=1, tasks=tasks))
        ops.append(dict(look, op=r['how'], m=1, acc=acc, order=r['order']))
    return dict(call_='pool', managers=1, ops=ops, env=rnd.choice(
        ENV_OFF if s['mode'] == 'seq' else ENV_ON))


def boom(rnd, n):
    """The call of the aggregation function that raises an error, or 0"""
    return rnd.randrange(1, n + 2) if rnd.random() < .1 else 0


def rnd_pool(rnd, biggest, failing):
    mk = Maker(rnd)
    nm = rnd.choice([1, 1, 2, 3])
    looks = [mk.look() for _ in range(nm)]
    pend = [0] * nm
    ops = []
    for _ in range(rnd.randrange(1, 9)):
        m = rnd.randrange(nm)
        look = looks[m]
        k = rnd.random()
        n = rnd.choice([1, 2, 3, rnd.randrange(biggest)])
        fails = lambda: rnd.random() < failing
        if k < .5:
            ops.append(dict(look, op='submit', m=m + 1, tasks=[
                mk.task(fails(), look['func']) for _ in range(n)]))
            pend[m] += n
            continue
        if k < .65:
            # through map_reduce, as a manager of its own
            nm2 = len(pend) + 1
            pend.append(0)
            looks.append(look)
            order = list(range(1, n + 1))
            rnd.shuffle(order)
            ops.append(dict(look, op='map_reduce', m=nm2, tasks=[
                mk.task(fails(), look['func']) for _ in range(n)],
                acc=rnd.choice([[], [3, 4]]), order=order,
                boom=boom(rnd, n)))
            continue
        order = list(range(1, pend[m] + 1))
        rnd.shuffle(order)
        ops.append(dict(look, op='collect' if k < .88 else 'wait', m=m + 1,
                        acc=rnd.choice([[], [-1, -2]]), order=order,
                        boom=boom(rnd, pend[m])))
        pend[m] = 0
    return dict(call_='pool', managers=len(pend), ops=ops,
                env=rnd.choice(ENV_OFF if rnd.random() < .4 else ENV_ON))


def cls_pool(scn, tr):
    for e in tr['events']:
        if e['ev'] in ('return', 'raise', 'aggboom', 'submit', 'agg', 'pct'):
            yield e['ev']


def design(run):
    vlib.design_check(run, 'PoolMC', 'PoolMC.cfg', consts={
        'MaxTasks': 4 if run.thorough else 3,
        'MaxRounds': 2})
    vlib.design_check(run, 'PoolMC', 'PoolMC.cfg', consts={
        'MaxTasks': 3 if run.thorough else 2, 'MaxRounds': 2,
        'MayBoom': 'TRUE'})


def plans(run, keep, n):
    rnd = random.Random(run.seed)
    scns = sorted(vlib.tlc_scenarios(run, 'PoolMC', 'PoolEnum.cfg',
                                     workers=2), key=str)
    scns = [s for s in scns if keep(s)]
    if not run.thorough:
        rnd.shuffle(scns)
        scns = scns[:n]
    return [from_plan(rnd, s) for s in scns]


def randoms(run, n, biggest, failing):
    rnd = random.Random(run.seed + 7)
    return [rnd_pool(rnd, biggest, failing)
            for _ in range(n * (12 if run.thorough else 1))]


def any_fails(s):
    return any(any(r['fails']) for r in s['rounds'])


def run_p01(run):
    design(run)
    vlib.together(
        lambda: vlib.section(
            run, 'histories-enumerated', 'par', 'PoolTrace',
            plans(run, lambda s: not any_fails(s), 700), shards=2,
            classify=cls_pool),
        lambda: vlib.section(
            run, 'histories-random', 'par', 'PoolTrace',
            randoms(run, 300, 9, 0.02), shards=2, classify=cls_pool))


def run_p02(run):
    design(run)
    vlib.together(
        lambda: vlib.section(
            run, 'failures-enumerated', 'par', 'PoolTrace',
            plans(run, any_fails, 900), shards=2, classify=cls_pool),
        lambda: vlib.section(
            run, 'failures-random', 'par', 'PoolTrace',
            randoms(run, 300, 7, 0.3), shards=2, classify=cls_pool),
        lambda: run_pickled_failures(run))


def run_pickled_failures(run):
    rnd = random.Random(run.seed)
    scns = [dict(call_='pickles', src='list', call='failing', items=[
        dict(obj=o, kind=rnd.choice(KINDS), v=o, pre=rnd.random() < .3)
        for o in range(1, n + 1)]) for n in list(range(8)) * 5]
    vlib.section(run, 'pickled-arguments', 'par', 'PicklesTrace', scns)


def run_p03(run):
    design(run)
    rnd = random.Random(run.seed)
    scns = []
    top = 130 if run.thorough else 40
    # (50, 100, 150...: the shares whose floating point form is below them)
    for n in list(range(top)) + [50, 99, 100, 101, 150, 200] + [
            rnd.randrange(top, 400 if run.thorough else 120)
            for _ in range(40 if run.thorough else 4)]:
        mk = Maker(rnd)
        look = mk.look()
        order = list(range(1, n + 1))
        rnd.shuffle(order)
        op = dict(look, m=1, acc=[], order=order,
                  op=['collect', 'wait', 'map_reduce'][n % 3])
        tasks = [mk.task(False, look['func']) for _ in range(n)]
        ops = [dict(op, tasks=tasks)]
        if op['op'] != 'map_reduce':
            ops = [dict(look, op='submit', m=1, tasks=tasks), op]
            if n < 40 and rnd.random() < .5:
                ops += [dict(look, op='submit', m=1, tasks=[
                    mk.task(False, look['func']) for _ in range(n // 2)]),
                    dict(op, order=[])]
        scns.append(dict(call_='pool', managers=1, ops=ops, env=rnd.choice(
            ENV_OFF if rnd.random() < .4 else ENV_ON)))
    vlib.section(run, 'numbers-of-tasks', 'par', 'PoolTrace', scns, shards=4,
                 classify=cls_pool)


KINDS = ['int', 'str', 'list', 'dict', 'big', 'tuple', 'thing', 'unicode',
         'old']


def run_p04(run):
    rnd = random.Random(run.seed)
    plans = sorted(vlib.tlc_scenarios(run, 'PicklesMC', 'PicklesMC.cfg',
                                      workers=2), key=str)
    if not run.thorough:
        plans = plans[run.seed % 2::2]
    scns = []
    for s in plans:
        kind = dict((o, rnd.choice(KINDS)) for o in (1, 3, 4))
        kind[2] = kind[1]
        v = {1: 5, 2: 5, 3: 6, 4: 7}
        scns.append([dict(obj=o, kind=kind[o], v=v[o] if kind[o] not in (
            'int', 'str', 'unicode') else o, pre=o == 4) for o in s['objs']])
    for _ in range(4000 if run.thorough else 300):
        n = rnd.randrange(1, 14)
        objs = [dict(obj=o, kind=rnd.choice(['list', 'dict', 'big', 'thing',
                                             'tuple']), v=rnd.randrange(3),
                     pre=rnd.random() < .2) for o in range(1, 6)]
        scns.append([rnd.choice(objs) for _ in range(n)])
    # equal values of different types
    similar = [dict(obj=2 * n + v + 1, kind=k, v=v, pre=False)
               for n, k in enumerate(['int', 'float', 'long', 'complex',
                                      'bool', 'text', 'unitext', 'floats',
                                      'ints']) for v in (0, 1)]
    for _ in range(2000 if run.thorough else 150):
        scns.append([rnd.choice(similar) for _ in range(
            rnd.randrange(2, 9))])
    scns = [dict(call_='pickles', items=items,
                 src=rnd.choice(['list', 'tuple', 'gen']),
                 call=rnd.choice(['', 'listing', 'listing', 'failing']))
            for items in scns]
    for _ in range(300 if run.thorough else 24):
        # objects which nothing else keeps alive
        scns.append(dict(
            call_='pickles', src='temporaries', call='listing',
            items=[dict(obj=o, kind='thing', v=rnd.randrange(9), pre=False)
                   for o in range(1, rnd.randrange(2, 6))]))
    vlib.section(run, 'sequences', 'par', 'PicklesTrace', scns, shards=3,
                 classify=lambda s, t: ['%s:%s' % (s['src'], t['out'])])


def run_p05(run):
    rnd = random.Random(run.seed)
    vlib.design_check(run, 'MonitorMC', 'MonitorMC.cfg')
    plans = sorted(vlib.tlc_scenarios(run, 'MonitorMC', 'MonitorEnum.cfg',
                                      workers=2), key=str)
    if not run.thorough:
        rnd.shuffle(plans)
        plans = plans[:900]
    pats = [s['denied'] for s in plans]
    for _ in range(6000 if run.thorough else 500):
        n, b = rnd.randrange(1, 7), rnd.randrange(1, 5)
        q = rnd.choice([0, .05, .2, .5])
        pats.append([[rnd.random() < q for _ in range(n)]
                     for _ in range(2 * b)])
    scns = []
    for p in pats:
        n = len(p[0])
        why = rnd.choice([[-1], [-2], [-1, -2]])
        gone = set()

        def rd(d):  # access denied, or the process ended (it stays so)
            out = [-2 if n in gone else rnd.choice(why) if x
                   else rnd.randrange(10 ** 6) for n, x in enumerate(d)]
            gone.update(n for n, x in enumerate(out) if x == -2)
            return out
        pids = rnd.sample(range(1, 4000), n)
        given = []
        if rnd.random() < .1:       # pids that are not known (None, 0)
            given = list(pids)
            for _ in range(rnd.randrange(1, 3)):
                given.insert(rnd.randrange(len(given) + 1),
                             rnd.choice([0, None]))
        elif n == 1 and rnd.random() < .3:
            given = rnd.choice(['default', 'empty'])
        scns.append(dict(
            call_='monitor', pids=pids, given=given,
            default_hook=rnd.random() < .3, blocks=[
                dict(rd0=rd(a), rd1=rd(b), how=rnd.choice(['', '', 'boom']),
                     cls=rnd.choice(['Boom', 'Boom', 'GeneratorExit'] + EXC),
                     before=rnd.randrange(100), inside=rnd.randrange(50))
                for a, b in zip(p[::2], p[1::2])]))
    vlib.section(run, 'blocks', 'par', 'MonitorTrace', scns, shards=3,
                 classify=lambda s, t: ['blocks:%d' % len(t['blocks'])] + [
                     'mem:%d' % len(b['mem']) for b in t['blocks']])

LV = 'model_checking'
POOL = ('TLA+ machine of workers and collector, model checked with its '
        'progress and termination; ')
CHECKS = {
    'P01': dict(run=run_p01, level=LV, technique=POOL + (
        'TLC-enumerated and random histories replayed on the code over a '
        'deterministic pool, every call and aggregation validated by TLC')),
    'P02': dict(run=run_p02, level=LV, technique=POOL + (
        'failures placed by TLC and at random, the errors of the code '
        'validated by TLC')),
    'P03': dict(run=run_p03, level=LV, technique=POOL + (
        'progress messages of the code for every number of tasks validated '
        'by TLC')),
    'P04': dict(run=run_p04, level=LV, technique=(
        'TLA+ machine of the sharing of pickled elements, model checked; '
        'TLC-enumerated patterns of repetition pickled by the code and '
        'validated by TLC')),
    'P05': dict(run=run_p05, level=LV, technique=(
        'TLA+ machine of a monitor whose processes become unreadable, model '
        'checked; TLC-enumerated and random patterns of denied access run on '
        'the code and validated by TLC')),
}
