"""Jython side: read scenarios, run them on the real code, log what is seen.
The drivers contain no oracle; they only call the public API and record."""
import json
import os
import sys
import traceback

SCRATCH = os.environ.get('VERIF_SCRATCH', '/nonexistent')


def s(x):
    """Python 2 text of a scenario value (JSON gives unicode)"""
    if isinstance(x, unicode):
        try:
            return x.encode('ascii')
        except UnicodeError:
            return x.encode('utf-8')
    if isinstance(x, list):
        return [s(i) for i in x]
    if isinstance(x, dict):
        return dict((s(k), s(v)) for k, v in x.items())
    return x


def t(x):
    """Text for the log"""
    if isinstance(x, unicode):
        return x
    if isinstance(x, str):
        return x.decode('utf-8', 'replace')
    return u'<%s %s>' % (type(x).__name__, t(repr(x)))


def exc_name(exc):
    return type(exc).__name__


def outcome(func, *args, **kw):
    """('ok', value) or (exception class name, None)"""
    try:
        return 'ok', func(*args, **kw)
    except Exception as exc:
        return exc_name(exc), None


def put(fname, text):
    f = open(fname, 'w')
    f.write(text)
    f.close()


def main(handler, inp=None, outp=None):
    inp, outp = sys.argv[1:3]
    out = open(outp, 'w')
    for line in open(inp):
        k, scn = json.loads(line)
        out.write(json.dumps({'start': k}) + '\n')
        out.flush()
        try:
            trace = handler(s(scn))
        except (Exception,) as exc:
            tb = traceback.format_exc()
            # raised by the code under test where no exception is foreseen?
            frames = traceback.extract_tb(sys.exc_info()[2])
            in_repo = any('/openquake/commonlib/' in f[0] or
                          '/bin/' in f[0] for f in frames)
            trace = {'driver_error': t(tb), 'in_repo': in_repo}
        out.write(json.dumps({'k': k, 'trace': trace}) + '\n')
        out.flush()
    out.close()
