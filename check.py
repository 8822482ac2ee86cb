"""python check.py C01 [--tier quick|thorough] [--case ID] [--replay FILE]"""
import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args()
    work = tempfile.mkdtemp(prefix='symot-')
    os.environ['OPENMDAO_WORKDIR'] = work
    os.chdir(work)
    try:
        return run(a)
    finally:
        os.chdir('/')
        shutil.rmtree(work, ignore_errors=True)


def run(a):
    from symot import runner
    mod = importlib.import_module('checks.' + a.prop.lower())
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cases = mod.cases(a.tier)
    if a.list:
        for c in cases:
            print(c.id)
        return 0
    if a.replay:
        with open(a.replay) as f:
            doc = json.load(f)
        cs = [c for c in mod.cases('thorough') + cases if c.id == doc['case']]
        bad = cs[0].replay(doc)
        print('violated: %s' % bad if bad else 'holds')
        return 1 if bad else 0
    if a.case:
        cases = [c for c in cases if a.case in c.id]
    return runner.run_check(a.prop, mod.TITLE, cases, getattr(mod, 'BOUNDS', {}),
                            getattr(mod, 'ASSUMPTIONS', []), a.tier, seed,
                            outside=getattr(mod, 'OUTSIDE', ''))


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
