#!/usr/bin/env python3
"""Mutation analysis: mutate.py MODULE MUTATIONS.json DUMPDIR OUT [-j JOBS]

Every mutation of openquake/commonlib/MODULE.py is tried on a sample of the
dumped scenarios (VERIF_DUMP) of the relevant drivers, in scratch copies of
/repo.  A mutation is `same` when no trace changes, `accepted` when traces
change and the specification accepts them all, and otherwise killed."""
import argparse
import collections
import concurrent.futures
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + '/bin')
import vlib  # noqa

REPO = os.environ.get('MUT_REPO', '/repo')
FAST = os.environ.get('MUT_FAST')     # any change counts as killed

DRIVER = dict(
    Tables='tables', TableSets='tables', Refusal='tables', Records='recs',
    Equality='equality', Texts='texts', Blocks='gen', WSeqs='gen',
    DeepEq='gen', Misc='gen', Pool='par', Pickles='par', Monitor='par',
    LogicTree='trees', SourceGroups='sources', Splitting='sources',
    Conversion='sources', Archives='convert', CsvTables='convert',
    Models='convert', Script='convert', JobConfig='inputs',
    RiskModels='inputs', RecordTypes='rtypes')
USES = dict(
    record=['rtypes', 'tables', 'recs', 'equality', 'convert'],
    records=['recs', 'convert', 'tables'], converter=['convert'],
    csvmanager=['convert'], general=['gen', 'equality', 'convert'],
    parallel=['par'], valid=['texts', 'recs'], logictree=['trees'],
    source=['sources', 'trees'], readini=['inputs'], riskloaders=['inputs'])

ONLY = dict(readini=['JobConfig'], riskloaders=['RiskModels'],
            csvmanager=['Archives', 'CsvTables', 'Models', 'Script'])


def clean(x):
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items()
                if not (k == 'msg' and isinstance(v, str))}
    if isinstance(x, list):
        return [clean(y) for y in x]
    return x


class Sections(object):
    def __init__(self, dumps, drivers, n, only=()):
        self.groups = collections.defaultdict(list)    # driver -> (sec, scn)
        self.sections = {}
        rnd = random.Random(5)
        for f in sorted(glob.glob(dumps + '/*.json')):
            d = json.load(open(f))
            if only and not any(name in d['module'] for name in only):
                continue
            driver = DRIVER[d['module'].replace('Trace', '')]
            if driver not in drivers:
                continue
            name = os.path.basename(f)
            self.sections[name] = (d['module'], d['cfg'])
            for s in rnd.sample(d['scns'], min(n, len(d['scns']))):
                self.groups[driver].append((name, s))

    def drive(self, repo):
        """[(section, trace)] per driver; repo: where the code is"""
        run = vlib.Run('mutate', 'quick', 1)
        res = {}
        try:
            for driver, items in self.groups.items():
                env = dict(JYTHONPATH=':'.join([vlib.STUBS, repo,
                                                vlib.DRIVERS]))
                got = vlib._drive_shard(
                    run, driver, list(enumerate([s for _, s in items])), 0,
                    20, env)
                res[driver] = [got.get(k) for k in range(len(items))]
                yield driver, res[driver]
        finally:
            run.cleanup()


def judge(module, cfg, traces):
    run = vlib.Run('mutate', 'quick', 1)
    try:
        got = vlib.validate(run, module, traces, cfg, workers=2)
    except Exception as exc:
        return 'harness %s' % str(exc)[:200]
    finally:
        run.cleanup()
    for v in got:
        if v is None or v[1] != 'ok':
            return v[1] if v else 'no verdict'
    return None


def mutated(src, m):
    lines = src.splitlines(True)
    l1, c1, l2, c2, new, kind = m
    lines[l1 - 1:l2] = [lines[l1 - 1][:c1] + new + lines[l2 - 1][c2:]]
    return ''.join(lines)


def attempt(secs, base, module, src, m):
    tmp = tempfile.mkdtemp(prefix='mut')
    try:
        copy = tmp + '/repo'
        shutil.copytree(REPO, copy, ignore=shutil.ignore_patterns(
            '.git', '*.class', 'tests'))
        with open('%s/openquake/commonlib/%s.py' % (copy, module), 'w') as f:
            f.write(mutated(src, m))
        accepted = 0
        try:
            for driver, traces in secs.drive(copy):
                diff = collections.defaultdict(list)
                for (name, scn), a, b in zip(secs.groups[driver],
                                             base[driver], traces):
                    if b is None or 'crash' in b or 'driver_error' in b:
                        return 'killed', str(b)[:200]
                    if clean(a) != clean(b):
                        diff[name].append(b)
                if diff and FAST:
                    return 'killed', 'changed'
                for name, ts in diff.items():
                    why = judge(*secs.sections[name], ts[:40])
                    if why:
                        return 'killed', '%s %s' % (name, why[:200])
                    accepted += len(ts)
        except vlib.DriverCrash as exc:
            return 'killed', 'driver crash ' + str(exc)[-200:]
        return ('accepted' if accepted else 'same'), accepted
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('module')
    ap.add_argument('mutations')
    ap.add_argument('dumps')
    ap.add_argument('out')
    ap.add_argument('-j', type=int, default=5)
    ap.add_argument('-n', type=int, default=60)
    ap.add_argument('-x', default='text')
    args = ap.parse_args()
    secs = Sections(args.dumps, USES[args.module], args.n,
                    ONLY.get(args.module, ()))
    src = open('%s/openquake/commonlib/%s.py' % (REPO, args.module)).read()
    muts = [m for m in json.load(open(args.mutations))
            if m[5] not in args.x.split(',')]
    done = set()
    if os.path.exists(args.out):
        done = set(json.dumps(json.loads(l)['m']) for l in open(args.out))
    muts = [m for m in muts if json.dumps(m) not in done]
    base = dict(secs.drive(REPO))
    lines = src.splitlines()
    with open(args.out, 'a') as out, \
            concurrent.futures.ThreadPoolExecutor(args.j) as pool:
        futs = {pool.submit(attempt, secs, base, args.module, src, m): m
                for m in muts}
        for fut in concurrent.futures.as_completed(futs):
            m = futs[fut]
            try:
                res, why = fut.result()
            except Exception as exc:
                res, why = 'error', repr(exc)[:300]
            out.write(json.dumps(dict(
                m=m, res=res, why=why, line=lines[m[0] - 1].strip())) + '\n')
            out.flush()


main()
