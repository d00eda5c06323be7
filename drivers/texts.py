"""The validators of openquake.commonlib.valid applied to texts"""
from dlib import main, t, exc_name
from openquake.commonlib import valid


def rule(r):
    name = r['r']
    if name in ('str', 'int', 'float'):
        return dict(str=str, int=int, float=float)[name]
    if name == 'range':
        return valid.FloatRange(float(r['lo']), float(r['hi']))
    if name == 'choice':
        return valid.Choice(*r['of'])
    if name == 'noneor':
        return valid.NoneOr(rule(r['sub']))
    return getattr(valid, name)


def show(v):
    if v is None:
        return dict(t='none', v='')
    elif isinstance(v, bool):
        return dict(t='bool', v=str(v))
    elif isinstance(v, (int, long)):
        return dict(t='int', v=str(v))
    elif isinstance(v, float):
        return dict(t='float', v=repr(v))
    elif isinstance(v, basestring):
        return dict(t='str', v=t(v))
    elif isinstance(v, list):
        return dict(t='list', v=map(t, v))
    elif isinstance(v, valid.IMT):
        return dict(t='imt', v=[v.imt if isinstance(v.imt, str)
                                else repr(v.imt)] + map(repr, v[1:]))
    return dict(t='other', v=t(repr(v)))


def call(r, text):
    try:
        v = rule(r)(text)
    except ValueError:
        return dict(rule=r, out='ValueError', value=show(None))
    except Exception as exc:
        return dict(rule=r, out=exc_name(exc), value=show(None))
    return dict(rule=r, out='ok', value=show(v))


def handle(scn):
    return dict(text=t(scn['text']),
                calls=[call(r, scn['text']) for r in scn['rules']])

if __name__ == '__main__':
    main(handle)
