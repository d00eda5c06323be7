#!/usr/bin/env python3
"""Demonstrate the binding: corrupt recorded traces, one observation at a time.

corrupt.py DUMPDIR [-n TRACES] [-m MODULE,...]
DUMPDIR holds the traces dumped by checks run with VERIF_DUMP=DUMPDIR.  Each
corrupted trace must be refused by the trace specification; those accepted are
grouped by the place of the corruption (most of them are inputs repeated in
the trace, or texts that the specification does not constrain)."""
import argparse
import collections
import copy
import glob
import json
import os
import random
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + '/bin')
import vlib  # noqa


def observations(scn, tr):
    """The parts of a trace that are not inputs: (path, value)"""
    def given(key, val):
        return key in scn and scn[key] == val
    for k in sorted(tr):
        if k == 'events':
            ops = scn.get('ops') or scn.get('events') or []
            for n, ev in enumerate(tr[k]):
                if not isinstance(ev, dict):
                    yield (k, n), ev
                    continue
                op = ops[n] if n < len(ops) else {}
                for key in sorted(ev):
                    if not (isinstance(op, dict) and key in op and
                            op[key] == ev[key]):
                        yield (k, n, key), ev[key]
        elif not given(k, tr[k]):
            yield (k,), tr[k]


def label(tr, path):
    """A generic name, with the operation of an event"""
    text = generic(path)
    if path[0] == 'events' and isinstance(tr['events'][path[1]], dict):
        return '[%s] ' % tr['events'][path[1]].get('op', '') + text
    return text


def leaves(x, path=()):
    """Places where something can be corrupted"""
    if isinstance(x, dict):
        for k in sorted(x):
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        if x:
            yield path, 'drop'
            if any(a != x[0] for a in x):
                yield path, 'swap'
        for n, y in enumerate(x):
            yield from leaves(y, path + (n,))
    elif x is not None:
        yield path, 'value'


def corrupt(rnd, x, how):
    if how == 'drop':
        n = rnd.randrange(len(x))
        return x[:n] + x[n + 1:]
    if how == 'swap':
        i = 0
        j = rnd.choice([k for k in range(len(x)) if x[k] != x[0]])
        x = list(x)
        x[i], x[j] = x[j], x[i]
        return x
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x + rnd.choice([1, -1, 2])
    return rnd.choice([x + 'x', x[:-1] + 'q', 'ok' if x != 'ok' else
                       'ValueError'])


def generic(path):
    return '.'.join('*' if isinstance(p, int) else p for p in path)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('dir')
    ap.add_argument('-n', type=int, default=60)
    ap.add_argument('-m', default='')
    ap.add_argument('-s', type=int, default=1)
    args = ap.parse_args()
    total = [0, 0]
    for fname in sorted(glob.glob(args.dir + '/*.json')):
        d = json.load(open(fname))
        if args.m and d['module'] not in args.m.split(','):
            continue
        rnd = random.Random(args.s)
        values = collections.defaultdict(set)
        for scn, tr in zip(d['scns'], d['traces']):
            for path, val in observations(scn, tr):
                values[label(tr, path)].add(json.dumps(val))
        used = collections.Counter()
        bad, where = [], []
        some = rnd.sample(range(len(d['traces'])),
                          min(args.n, len(d['traces'])))
        for scn, tr in [(d['scns'][k], d['traces'][k]) for k in some]:
            places = [(label(tr, path), path + sub, how)
                      for path, val in observations(scn, tr)
                      if path[-1] not in ('msg', 'what')
                      and len(values[label(tr, path)]) > 1 - (val is True)
                      for sub, how in leaves(val)]
            places = [(label(tr, p), p, how) for l, p, how in places]
            for _ in range(4):
                if not places:
                    continue
                # prefer the places not corrupted yet
                few = rnd.sample(places, min(len(places), 40))
                lab, path, how = min(few, key=lambda p: used[p[0], p[2]])
                used[lab, how] += 1
                new = copy.deepcopy(tr)
                obj = new
                for p in path[:-1]:
                    obj = obj[p]
                old = obj[path[-1]]
                obj[path[-1]] = corrupt(rnd, old, how)
                if obj[path[-1]] == old:
                    used[lab, how] -= 1
                    continue
                bad.append(new)
                where.append((lab, how, old, obj[path[-1]]))
        run = vlib.Run(d['prop'], 'quick', 1)
        try:
            got = []
            for lo in range(0, len(bad), 20):
                got += judge(run, d, bad[lo:lo + 20])
        finally:
            run.cleanup()
        accepted = [w for w, v in zip(where, got) if v == 'ok']
        total[0] += len(bad)
        total[1] += len(accepted)
        print('%s %s %s: %d corrupted, %d refused' % (
            d['module'], d['prop'], d['kind'], len(bad),
            len(bad) - len(accepted)))
        classes = {}
        for w in accepted:
            classes.setdefault(w[:2], []).append(w[2:])
        for (p, how), ex in sorted(classes.items()):
            print('    accepted: %s (%s) x%d/%d e.g. %s' % (
                p, how, len(ex), used[p, how], str(ex[0])[:120]))
        sys.stdout.flush()
    print('%d corrupted, %d accepted' % tuple(total))


def judge(run, d, traces):
    """ok or not, also when the specification cannot evaluate a trace"""
    cfg = d['cfg'] or d['module'] + '.cfg'
    rc, out, verdicts, _ = vlib._validate_once(
        run, d['module'], cfg, traces, 1, 4, 300)
    if rc == 0 and len(verdicts) == len(traces):
        return [verdicts[i][1] for i in range(len(traces))]
    if len(traces) == 1:
        return [verdicts[0][1] if 0 in verdicts and rc == 0 else 'no-meaning']
    mid = len(traces) // 2
    return judge(run, d, traces[:mid]) + judge(run, d, traces[mid:])


main()
