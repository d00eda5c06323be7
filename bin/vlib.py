"""The machinery shared by all checks: running TLC, running the Jython drivers
against /repo, validating traces with TLC, reporting."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
DRIVERS = os.path.join(VERIF, 'drivers')
STUBS = os.path.join(VERIF, 'stubs')
JYTHON = '/usr/share/java/jython.jar'
TLAJARS = ('/opt/veriftools/tla/tla2tools.jar:'
           '/opt/veriftools/tla/CommunityModules-deps.jar')


class HarnessError(Exception):
    """The check itself could not run"""


class Run(object):
    """Everything one check run accumulates"""
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        self.states = 0
        self.transitions = 0
        self.design_runs = []
        self.sections = []
        self.violations = []     # (verdict, scenario, trace)
        self.known = []
        self.notes = []
        self.background = []
        self.errors = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def path(self, name):
        return os.path.join(self.tmp, name)

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def _java(args, env=None, timeout=800, heap='3g'):
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap,
           '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8',
           '-Dsun.stdout.encoding=UTF-8', '-cp', TLAJARS,
           'tlc2.TLC'] + args
    e = dict(os.environ)
    e.update(env or {})
    e['LC_ALL'] = 'C.UTF-8'
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as exc:
        return -9, (exc.stdout or b'').decode('utf-8', 'replace')
    return p.returncode, p.stdout.decode('utf-8', 'replace')


_seq = [0]
_lock = threading.Lock()


def tlc(run, module, cfg, env=None, workers=4, extra=(), timeout=800,
        consts=None, heap='3g'):
    """Run TLC, return (rc, output).  `consts` are appended to the cfg."""
    with _lock:
        _seq[0] += 1
        n = _seq[0]
    meta = run.path('meta%d' % n)
    os.makedirs(meta)
    if consts:
        text = open(os.path.join(SPEC, cfg)).read()
        for k, v in consts.items():
            text, cnt = re.subn(r'(?m)\b%s\s*(?:=|<-)\s*.*$' % k,
                                ('%s <- %s' % (k, v[2:].strip()) if
                                 str(v).startswith('<-') else
                                 '%s = %s' % (k, v)), text)
            if not cnt:
                raise HarnessError('no constant %s in %s' % (k, cfg))
        cfg = run.path('cfg%d.cfg' % n)
        open(cfg, 'w').write(text)
    return _java(['-workers', str(workers), '-metadir', meta,
                  '-noGenerateSpecTE', '-config', cfg] + list(extra)
                 + [module + '.tla'], env, timeout, heap)


_STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def design_check(run, module, cfg, consts=None, workers=4, timeout=800):
    """Model check a bounded instance of the specification itself (in the
    background: the result is collected by `finish`)."""
    th = threading.Thread(target=_design_check, args=(
        run, module, cfg, consts, workers, timeout))
    th.start()
    run.background.append(th)


def _design_check(run, module, cfg, consts, workers, timeout):
    try:
        _design_check1(run, module, cfg, consts, workers, timeout)
    except Exception as exc:
        run.errors.append(exc)


def _design_check1(run, module, cfg, consts, workers, timeout):
    t = time.time()
    rc, out = tlc(run, module, cfg, workers=workers, consts=consts,
                  timeout=timeout)
    mo = None
    for mo in _STATS.finditer(out):
        pass
    if rc != 0 or mo is None:
        raise HarnessError('TLC on %s/%s failed (rc=%s):\n%s' % (
            module, cfg, rc, out[-3000:]))
    run.transitions += int(mo.group(1))
    run.states += int(mo.group(2))
    run.design_runs.append(dict(
        module=module, cfg=cfg, consts=consts or {},
        states=int(mo.group(2)), transitions=int(mo.group(1)),
        wall_s=round(time.time() - t, 1)))


def _scn_lines(out):
    scns = []
    for line in out.splitlines():
        if line.startswith('"SCN '):
            scns.append(json.loads(json.loads(line)[4:]))
    return scns


def tlc_scenarios(run, module, cfg, consts=None, simulate=None, depth=None,
                  seed=None, timeout=600, workers=1):
    """Scenarios printed by TLC: exhaustively, or by random walks."""
    extra = []
    if simulate:
        extra = ['-simulate', 'num=%d' % simulate, '-depth', str(depth),
                 '-seed', str(run.seed if seed is None else seed)]
    rc, out = tlc(run, module, cfg, workers=workers, extra=extra,
                  consts=consts, timeout=timeout)
    scns = _scn_lines(out)
    if rc != 0 or not scns:
        raise HarnessError('scenario generation with %s/%s failed (rc=%s):'
                           '\n%s' % (module, cfg, rc, '\n'.join(
                               l for l in out.splitlines()
                               if 'SCN' not in l)[-3000:]))
    if not simulate:
        mo = None
        for mo in _STATS.finditer(out):
            pass
        if mo:
            run.transitions += int(mo.group(1))
            run.states += int(mo.group(2))
            run.design_runs.append(dict(
                module=module, cfg=cfg, consts=consts or {},
                states=int(mo.group(2)), transitions=int(mo.group(1)),
                role='exhaustive scenario generation'))
    # canonical order: independent of the TLC worker interleaving
    return scns


# ------------------------------------------------------------- drivers

class DriverCrash(Exception):
    def __init__(self, text, in_repo):
        Exception.__init__(self, text)
        self.in_repo = in_repo


def _drive_shard(run, driver, scns, n, limit, env):
    """Run one Jython process over the scenarios (list of (k, scn)); restart
    it after a scenario that hangs or kills it."""
    results = {}
    todo = list(scns)
    part = 0
    with _lock:
        _seq[0] += 1
        driver_run = '%s_%d' % (driver, _seq[0])
    while todo:
        part += 1
        inp = run.path('in_%s_%d_%d' % (driver_run, n, part))
        outp = run.path('out_%s_%d_%d' % (driver_run, n, part))
        with open(inp, 'w') as f:
            for k, s in todo:
                f.write(json.dumps([k, s]) + '\n')
        scratch = run.path('scratch_%s_%d_%d' % (driver_run, n, part))
        os.makedirs(scratch)
        e = dict(os.environ)
        e.update(JYTHONPATH=':'.join([STUBS, REPO, DRIVERS]),
                 LC_ALL='C.UTF-8', VERIF_SCRATCH=scratch, TMPDIR=scratch)
        e.pop('OQ_NO_DISTRIBUTE', None)
        e.update(env or {})
        p = subprocess.Popen(
            ['java', '-Xss16m', '-Xmx2g', '-XX:+UseSerialGC'] +
            # short runs do not repay the optimizing compiler
            ([] if run.thorough else ['-XX:TieredStopAtLevel=1']) +
            ['-Djava.io.tmpdir=' + scratch, '-jar', JYTHON,
             '-Dpython.home=/usr', '-Dpython.cachedir.skip=true', '-B',
             os.path.join(DRIVERS, driver + '.py'), inp, outp],
            cwd=scratch, env=e, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
            start_new_session=True)
        buf = []
        reader = threading.Thread(
            target=lambda: buf.append(p.stdout.read()))
        reader.start()
        last_size, last_change = -1, time.time()
        hung = False
        while p.poll() is None:
            time.sleep(0.1)
            size = os.path.getsize(outp) if os.path.exists(outp) else 0
            if size != last_size:
                last_size, last_change = size, time.time()
            elif time.time() - last_change > (
                    limit if size > 0 else limit + 60):
                hung = True
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                break
        p.wait()
        reader.join(10)
        text = (buf[0] if buf else b'').decode('utf-8', 'replace')
        started = None
        if os.path.exists(outp):
            with open(outp, 'rb') as f:
                for line in f:
                    if not line.endswith(b'\n'):
                        continue
                    rec = json.loads(line.decode('utf-8'))
                    if 'start' in rec:
                        started = rec['start']
                    else:
                        results[rec['k']] = rec['trace']
                        started = None
        shutil.rmtree(scratch, ignore_errors=True)
        done = [k for k, _ in todo if k in results]
        if started is None and not hung and len(done) == len(todo):
            break
        if started is None:
            raise DriverCrash('driver %s ended early (rc=%s, hung=%s):\n%s'
                              % (driver, p.returncode, hung, text[-3000:]),
                              (REPO + '/openquake' in text
                               or REPO + '/bin' in text) and
                              'Traceback' in text)
        results[started] = dict(crash='hang' if hung else 'death',
                                text=text[-1500:])
        todo = [(k, s) for k, s in todo if k not in results]
        if sum(1 for r in results.values() if 'crash' in r) > 3:
            break
    return results


def drive(run, driver, scns, shards=None, limit=60, env=None):
    """Execute the scenarios on the real code; returns the list of traces."""
    scns = list(enumerate(scns))
    if shards is None:
        shards = max(1, min(4, len(scns) // 400))
    groups = [scns[i::shards] for i in range(shards)]
    results, errors = {}, []

    def work(i):
        try:
            results.update(_drive_shard(run, driver, groups[i], i, limit,
                                        env))
        except Exception as exc:
            errors.append(exc)
    threads = [threading.Thread(target=work, args=(i,))
               for i in range(shards)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    if errors:
        raise errors[0]
    return [results.get(k) for k, _ in scns]


# ---------------------------------------------------------- validation

_VERDICT = re.compile(r'^"VERDICT (\d+) (-?\d+) (.*)"$')


def _validate_once(run, module, cfg, traces, n, workers, timeout):
    with _lock:
        _seq[0] += 1
        fname = run.path('traces_%s_%d.ndjson' % (module, _seq[0]))
    with open(fname, 'w') as f:
        for t in traces:
            f.write(json.dumps(t) + '\n')
    rc, out = tlc(run, module, cfg, env=dict(TRACE=fname), workers=workers,
                  timeout=timeout)
    os.remove(fname)
    verdicts = {}
    for line in out.splitlines():
        mo = _VERDICT.match(line)
        if mo:
            verdicts.setdefault(int(mo.group(1)) - 1,
                                (int(mo.group(2)), mo.group(3)))
    mo = None
    for mo in _STATS.finditer(out):
        pass
    stats = (int(mo.group(1)), int(mo.group(2))) if mo else (0, 0)
    return rc, out, verdicts, stats


def validate(run, module, traces, cfg=None, workers=4, timeout=700,
             chunk=4000):
    """Give every trace to TLC; returns a list of (step, verdict)."""
    cfg = cfg or module + '.cfg'
    result = [None] * len(traces)
    stack = [(i, min(i + chunk, len(traces)))
             for i in range(0, len(traces), chunk)]
    n = 0
    errors = 0
    while stack:
        lo, hi = stack.pop()
        n += 1
        rc, out, verdicts, stats = _validate_once(
            run, module, cfg, traces[lo:hi], n, workers, timeout)
        if rc == 0 and len(verdicts) == hi - lo:
            run.transitions += stats[0]
            run.states += stats[1]
            for i, v in verdicts.items():
                result[lo + i] = v
            continue
        if 'Parsing or semantic analysis failed' in out or \
                'Could not parse' in out or rc == -9:
            raise HarnessError('TLC on %s failed:\n%s' % (
                module, out[-3000:]))
        if hi - lo == 1:
            # the specification cannot even evaluate this observation: a
            # value of a shape it gives no meaning to
            why = [l for l in out.splitlines() if 'rror' in l or
                   'ttempted' in l]
            result[lo] = (0, 'observation-has-no-meaning-in-the-'
                          'specification ' + ' '.join(why)[:400])
            errors += 1
            if errors > 3:
                break
            continue
        for i, v in verdicts.items():   # keep what was decided
            if v[1] != 'ok':
                result[lo + i] = v
        if errors > 2:
            continue
        mid = (lo + hi) // 2
        stack.append((mid, hi))
        stack.append((lo, mid))
    return result


def together(*funcs):
    """Run the functions in threads; the first exception is raised"""
    errors = []

    def work(f):
        try:
            f()
        except Exception as exc:
            errors.append(exc)
    threads = [threading.Thread(target=work, args=(f,)) for f in funcs]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    if errors:
        raise errors[0]


# ----------------------------------------------------------- reporting

def known_findings():
    fname = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fname):
        return []
    return json.load(open(fname)).get('findings', [])


def matches(finding, prop, verdict, scn):
    if finding.get('property') != prop or 'fixed' in finding:
        return False
    if finding.get('verdict') and finding['verdict'] != verdict:
        return False
    return finding.get('scenario') == scn


def save_replay(run, kind, verdict, scn, trace, step):
    d = os.path.join(VERIF, 'replays', run.prop)
    os.makedirs(d, exist_ok=True)
    body = dict(property=run.prop, kind=kind, verdict=verdict, step=step,
                scenario=scn, trace=trace, tier=run.tier, seed=run.seed)
    h = hashlib.sha1(json.dumps([kind, scn], sort_keys=True).encode(
    )).hexdigest()[:12]
    fname = os.path.join(d, '%s.json' % h)
    json.dump(body, open(fname, 'w'), indent=1)
    return fname


def section(run, kind, driver, module, scns, shards=None, limit=60, env=None,
            nontrivial=None, cfg=None, classify=None, chunk=4000):
    """One replay-and-validate pass: scenarios -> real code -> TLC."""
    if not scns:
        raise HarnessError('no scenarios for %s' % kind)
    t = time.time()
    try:
        traces = drive(run, driver, scns, shards, limit, env)
    except DriverCrash as exc:
        if not exc.in_repo:
            raise HarnessError(str(exc))
        run.violations.append(
            ('the code under test cannot be exercised: ' + str(exc)[-800:],
             dict(driver=driver), str(exc), kind, 0))
        return
    t1 = time.time()
    good = []
    classes = {}
    for k, (scn, tr) in enumerate(zip(scns, traces)):
        if tr is None:
            continue
        if 'crash' in tr:
            run.violations.append(('process-' + tr['crash'], scn, tr, kind,
                                   0))
        elif 'driver_error' in tr:
            if tr.get('in_repo'):
                run.violations.append(('unexpected-exception', scn, tr, kind,
                                       0))
            else:
                raise HarnessError('driver %s: %s' % (driver,
                                                      tr['driver_error']))
        else:
            good.append(k)
            for c in (classify(scn, tr) if classify else ()):
                classes[c] = classes.get(c, 0) + 1
    if os.environ.get('VERIF_DUMP'):      # for tools/corrupt.py
        with open(os.path.join(os.environ['VERIF_DUMP'], '%s-%s-%s.json' % (
                module, run.prop, kind)), 'w') as f:
            json.dump(dict(module=module, cfg=cfg, prop=run.prop, kind=kind,
                           scns=[scns[k] for k in good][:3000],
                           traces=[traces[k] for k in good][:3000]), f)
    verdicts = validate(run, module, [traces[k] for k in good], cfg,
                        chunk=chunk)
    n_ok = 0
    for k, v in zip(good, verdicts):
        if v is None:
            continue
        step, verdict = v
        if verdict == 'ok':
            n_ok += 1
            continue
        run.violations.append((verdict, scns[k], traces[k], kind, step))
    distinct = len(set(json.dumps(s, sort_keys=True) for s in scns))
    run.sections.append(dict(
        kind=kind, driver=driver, spec=module, scenarios=len(scns),
        distinct_scenarios=distinct, traces_validated=len(
            [v for v in verdicts if v is not None]), accepted=n_ok,
        outcome_classes=dict(sorted(classes.items())),
        execution_s=round(t1 - t, 1), validation_s=round(
            time.time() - t1, 1),
        sample=dict(scenario=scns[len(scns) // 2],
                    trace=traces[len(scns) // 2])))


def shorten(x, n=1500):
    s = json.dumps(x, sort_keys=True)
    return x if len(s) <= n else s[:n] + '...'


def finish(run, level, technique):
    for th in run.background:
        th.join()
    if run.errors:
        raise run.errors[0]
    found = known_findings()
    run.sections.sort(key=lambda s: s['kind'])
    real, seen = [], []
    for v in run.violations:
        verdict, scn = v[0], v[1]
        f = next((f for f in found if matches(f, run.prop, verdict, scn)),
                 None)
        if f is None:
            real.append(v)
        elif f not in seen:
            seen.append(f)
    for f in seen:
        print('KNOWN-FINDING: property=%s %s' % (run.prop, f['what']))
    real.sort(key=lambda v: len(json.dumps(v[1])))
    replays = []
    for verdict, scn, tr, kind, step in real[:5]:
        replays.append((save_replay(run, kind, verdict, scn, tr, step),
                        kind, step, verdict))
    validated = sum(s['traces_validated'] for s in run.sections)
    cov = dict(states=run.states, transitions=run.transitions,
               traces_validated_against_impl=validated,
               evaluations=sum(s['scenarios'] for s in run.sections),
               distinct_nontrivial=sum(s['distinct_scenarios']
                                       for s in run.sections),
               rule='scenarios are histories/inputs printed by TLC from the '
               'specification (exhaustive small instances and seeded random '
               'walks) and seeded generators; counted once each when '
               'syntactically distinct',
               design_runs=run.design_runs,
               sections=[dict(s, sample=shorten(s['sample']))
                         for s in run.sections],
               samples=[shorten(s['sample']) for s in run.sections][:3])
    ev = dict(property=run.prop, tier=run.tier, seed=run.seed, level=level,
              coverage=cov, wall_s=round(time.time() - run.t0, 1),
              violations=len(real), assumptions=[
                  'the stand-ins in stubs/ behave like the third party '
                  'packages they replace on what is exercised',
                  'the Jython 2.7 interpreter of the sandbox runs the code'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', run.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d spec states, %d traces of the real code validated, '
          '%d violations, %.1fs' % (run.prop, run.states, validated,
                                    len(real), time.time() - run.t0))
    for s in run.sections:
        print('  %-28s %5d scenarios %5d accepted  exec %.1fs  tlc %.1fs %s' %
              (s['kind'], s['scenarios'], s['accepted'], s['execution_s'],
               s['validation_s'], s['outcome_classes'] or ''))
    for fname, kind, step, verdict in replays:
        print('  [%s] step %s: %s' % (kind, step, verdict))
        print('VIOLATION property=%s replay=%s' % (run.prop, fname))
    return 1 if real else 0
