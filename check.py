#!/usr/bin/env python3-vt
"""check.py ID            decide one property (VERIF_TIER, VERIF_SEED)
check.py --replay FILE   replay a reported violation on /repo's current tree"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import run, build  # noqa: E402


def load(pid):
    return importlib.import_module('vp.props.' + pid.lower())


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    verbose = '-v' in argv
    argv = [a for a in argv if a != '-v']
    pid = argv[0]
    only = argv[1] if len(argv) > 1 else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    m = load(pid)
    scs = m.scenarios(tier)
    if only:
        scs = [s for s in scs if only in s.name]
    return run.Runner(pid, tier, seed, m.META, verbose).run(scs)


def replay(path):
    with open(path) as f:
        v = json.load(f)
    m = load(v['property'])
    for tier in ('quick', 'thorough'):
        for sc in m.scenarios(tier):
            if sc.name == v['scenario']:
                b = build.Build()
                try:
                    nat = build.Native(b.native(sc.harness, sc.flags, sc.tag, v.get('sanitizer', False)))
                    t = [float.fromhex(x) if isinstance(x, str) else x for x in v['tape']]
                    r = nat.run(sc.entry, [t])[0]
                    bad = run.judge(sc, t, r)
                finally:
                    b.close()
                print('tape %s\noutcome %s\nfailed claims: %s' % (t, r, bad))
                return 1 if bad else 0
    print('unknown scenario', v['scenario'])
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
