#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decides one property on /repo's current source."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import common
from props import PROPS


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod, fn, explanation, assumptions = PROPS[pid]
    body = getattr(importlib.import_module(mod), fn)
    sys.exit(common.run_check(pid, tier, body, explanation, assumptions))


if __name__ == '__main__':
    main()
