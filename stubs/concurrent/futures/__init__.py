"""Stand-in for concurrent.futures.

The pool is a deterministic simulation of a process pool: function and
arguments are pickled at submission, unpickled and run "in the worker" (the
result is pickled back), and as_completed yields in the order given by the
module level `schedule`, a list of submission indices set by a driver; without
a schedule the order is that of submission.  `on_step(kind, idx)` lets a
driver follow the steps."""
import cPickle
import os

schedule = []       # completion order, as positions in the list waited upon
in_worker = [False]


def on_step(kind, idx):
    pass


class Future(object):
    def __init__(self, idx, payload):
        self.idx = idx
        self.payload = payload
        self.finished = False
        self._result = None
        self._exc = None

    def run(self):
        if self.finished:
            return
        on_step('run', self.idx)
        fn, args, kwargs = cPickle.loads(self.payload)
        in_worker[0] = True
        try:
            self._result = cPickle.dumps(fn(*args, **kwargs), 2)
        except Exception as exc:
            self._exc = exc
        finally:
            in_worker[0] = False
        self.finished = True

    def done(self):
        return self.finished

    def result(self, timeout=None):
        self.run()
        if self._exc is not None:
            raise self._exc
        return cPickle.loads(self._result)

    def exception(self, timeout=None):
        self.run()
        return self._exc


class ProcessPoolExecutor(object):
    def __init__(self, max_workers=None):
        self.count = 0

    def submit(self, fn, *args, **kwargs):
        fut = Future(self.count, cPickle.dumps((fn, args, kwargs), 2))
        self.count += 1
        on_step('submit', fut.idx)
        return fut

    def map(self, fn, *iterables, **kw):
        futs = [self.submit(fn, *args) for args in zip(*iterables)]
        return (f.result() for f in futs)

    def shutdown(self, wait=True):
        pass

    def __enter__(self):
        return self

    def __exit__(self, etype, exc, tb):
        return False


ThreadPoolExecutor = ProcessPoolExecutor


def as_completed(fs, timeout=None):
    pending = list(fs)
    uniq = []
    for f in pending:       # the original works on a set of futures
        if not any(f is g for g in uniq):
            uniq.append(f)
    order = [i for i in schedule if i < len(uniq)]
    order += [i for i in range(len(uniq)) if i not in order]
    for i in order:
        uniq[i].run()
        on_step('complete', uniq[i].idx)
        yield uniq[i]


def wait(fs, timeout=None, return_when='ALL_COMPLETED'):
    for f in as_completed(fs):
        pass
    return set(fs), set()
