#!/opt/veriftools/pyvenv/bin/python3
"""check.py P01 [--tier quick|thorough] [--seed N] [--replay FILE]
Decides one property on the code in /repo; see DESIGN.md."""
import argparse
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'   # never trust a stale .pyc
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only', action='append')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    from vf import core
    try:
        importlib.import_module('riemann')
        importlib.import_module('vf.props.' + a.prop.lower())
    except Exception as e:
        if not any(f.filename.startswith(REPO) for f in
                   traceback.extract_tb(e.__traceback__)):
            raise
        # the library does not even import: nothing it promises holds
        fail = {'kind': 'exception', 'msg': 'importing the library: %r' % e,
                'key': 'import', 'tb': '', 'case': 'null'}
        path = core.write_replay(a.prop, 'import', fail)
        print(fail['msg'])
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    if a.replay:
        info, fail = core.replay(a.replay)
        if fail:
            print(fail['tb'])
            print('%s: %s' % (a.prop, fail['msg']))
            print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
            return 1
        print('%s: the case of %s passes' % (a.prop, a.replay))
        return 0
    ev = os.environ.get('VERIF_EVIDENCE_DIR', os.path.join(HERE, 'evidence'))
    return core.run_property(a.prop, a.tier, a.seed,
                             os.path.join(ev, a.prop + '.json'),
                             a.only, a.scale)


if __name__ == '__main__':
    sys.exit(main())
