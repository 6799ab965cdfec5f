#!/usr/bin/env python3
"""Run one check:  run.py P01 [--tier quick|thorough] [--only SCENARIO]"""
import argparse
import importlib
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python'


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=None)
    parser.add_argument('--only', default=None)
    parser.add_argument('--repo', default=None)
    args = parser.parse_args()
    tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    if os.environ.get('VERIF_CHILD') != '1':
        # A fixed hash seed owns set iteration order, a private bytecode
        # cache guarantees that the current source is what runs.
        cache = tempfile.mkdtemp(prefix='verif-pyc-')
        env = dict(os.environ, VERIF_CHILD='1', PYTHONHASHSEED='0',
                   PYTHONPYCACHEPREFIX=cache, PYTHONNOUSERSITE='1',
                   TZ='UTC')
        if args.repo:
            env['VERIF_REPO'] = args.repo
        import subprocess
        try:
            code = subprocess.call([PYTHON, '-W', 'ignore', '-B',
                                    os.path.abspath(__file__)] + sys.argv[1:],
                                   env=env, cwd=HERE)
        finally:
            shutil.rmtree(cache, ignore_errors=True)
        sys.exit(code if code in (0, 1) else 2)

    import warnings
    warnings.simplefilter('ignore')
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    sys.setrecursionlimit(1500)
    from mc import core
    import properties
    want = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
    if not os.path.realpath(properties.__file__).startswith(want + os.sep):
        print('properties was imported from %s' % properties.__file__)
        sys.exit(2)
    try:
        module = importlib.import_module('checks.' + args.property.lower())
    except Exception as exc:
        import traceback
        traceback.print_exc()
        frames = traceback.extract_tb(exc.__traceback__)
        here = os.path.join(want, 'properties') + os.sep
        if isinstance(exc, ImportError) or not any(
                os.path.realpath(f.filename).startswith(here)
                for f in frames):
            sys.exit(2)
        # The library refused declarations the check starts from.
        sys.exit(core.refused(args.property, tier, seed, exc))
    ctx = core.run(module, tier, seed, args.only)
    sys.exit(core.finish(ctx, module))


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:       # a crash of the harness is no verdict
        import traceback
        traceback.print_exc()
        sys.exit(2)
