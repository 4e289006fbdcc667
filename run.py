"""Entry point of every check.

  run.py --property P01 [--tier quick|thorough] [--seed N] [--cases N]
  run.py --replay FILE
  run.py --list
"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('--property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER')
                        or 'quick')
    parser.add_argument('--seed', type=int,
                        default=int(os.environ.get('VERIF_SEED') or 1))
    parser.add_argument('--cases', type=int)
    parser.add_argument('--workers', type=int)
    parser.add_argument('--replay')
    parser.add_argument('--list', action='store_true')
    options = parser.parse_args()
    from vlib import engine
    from vlib.registry import CHECKS
    if options.list:
        from vlib import api
        print(*sorted(CHECKS))
        return 1 if api.MISSING else 0
    if options.replay:
        return engine.replay(CHECKS, options.replay)
    return engine.run(CHECKS[options.property], options.tier, options.seed,
                      options.workers, cases=options.cases)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
