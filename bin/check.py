#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'checks'))
sys.dont_write_bytecode = True
import vlib  # noqa


def registry():
    reg = {}
    for fname in sorted(os.listdir(os.path.join(vlib.VERIF, 'checks'))):
        if fname.endswith('.py') and not fname.startswith('_'):
            mod = importlib.import_module(fname[:-3])
            reg.update(mod.CHECKS)
    return reg


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay', help='re-run one saved scenario')
    ap.add_argument('--keep', action='store_true')
    args = ap.parse_args()
    check = registry()[args.prop]
    run = vlib.Run(args.prop, args.tier, args.seed)
    try:
        if args.replay:
            body = json.load(open(args.replay))
            run.only = (body['kind'], body['scenario'])
            orig = vlib.section

            def only(run_, kind, driver, module, scns, **kw):
                if kind == body['kind']:
                    kw['shards'] = 1
                    orig(run_, kind, driver, module, [body['scenario']],
                         **kw)
            vlib.section = only
            vlib.design_check = lambda *a, **k: None
            check['run'](run)
        else:
            check['run'](run)
        rc = vlib.finish(run, check['level'], check['technique'])
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if not args.keep:
            run.cleanup()
    sys.exit(rc)


if __name__ == '__main__':
    main()
