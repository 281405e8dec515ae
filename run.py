#!/usr/bin/env python3-vt
"""run.py ID [--tier quick|thorough] [--sub NAME]... [--procs N] [--scale X] | run.py ID --replay FILE"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
os.chdir(HERE)

import core  # noqa: E402


def main():
    a = argparse.ArgumentParser()
    a.add_argument('id')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a.add_argument('--seed', type=int, default=None)
    a.add_argument('--sub', action='append')
    a.add_argument('--procs', type=int)
    a.add_argument('--scale', type=float, default=1.0)
    a.add_argument('--replay')
    o = a.parse_args()
    try:
        seed = o.seed if o.seed is not None else int(os.environ.get('VERIF_SEED') or '1')
    except ValueError:
        seed = 1
    if o.replay: return core.replay(o.id, o.replay)
    return core.main(o.id, o.tier if o.tier in ('quick', 'thorough') else 'quick', seed, o.sub, o.procs, o.scale)


try:
    rc = main()
except Exception:
    import traceback
    traceback.print_exc()
    rc = 3
sys.exit(rc)
