#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough]: decide one property of the current /repo tree by static analysis."""
import argparse
import importlib
import os
import resource
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except (ValueError, OSError):
        pass
    from sa.harness import Check
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ck = Check(a.pid, 'thorough' if a.tier == 'thorough' else 'quick', seed)
    m = importlib.import_module('checks.' + a.pid.lower())
    kw = m.run(ck) or {}
    sys.exit(ck.finish(**kw))


if __name__ == '__main__':
    import threading
    threading.stack_size(256 << 20)
    main()
