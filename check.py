#!/usr/bin/env python3
"""Entry point of every check:  check.py PROPERTY [--tier quick|thorough] [--seed N] [--scale F]
                               check.py --replay FILE      (re-judge a saved counterexample)
Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: it does not hold."""
import argparse
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, d) for d in ('lib', 'gens', 'checks')]

import batch      # noqa: E402
import harness    # noqa: E402
import registry   # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--scale', type=float, default=None, help='factor on the number of generated cases')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        return registry.replay(a.replay)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    scale = a.scale if a.scale is not None else (1.0 if tier == 'quick' else registry.THOROUGH)
    ck = batch.Check(a.prop, tier, a.seed)
    try:
        registry.run(ck, scale)
    except harness.BuildError as e:
        # nothing could be explored: the tree does not compile, which is not a statement about the property
        ck.errors.append('umlcc does not build: %s' % e)
        ck.finish()
        print('umlcc does not build:\n%s' % e, file=sys.stderr)
        return 2
    except Exception:
        ck.errors.append(traceback.format_exc())
    rc = ck.finish()
    if rc == 0 and ck.evaluations == 0:
        print('nothing was explored', file=sys.stderr)
        return 2
    return rc


if __name__ == '__main__':
    sys.exit(main())
