#!/usr/bin/env python3
"""determinism.py [--runs N] [--seed S] [PROPERTY...]: the same seeds in two different settings must give the same event logs.

The settings differ in the number of workers, in PYTHONHASHSEED of the workers, and (always) in the address space layout.
"""
import argparse
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.environ.get('DST_CHILD') != '1':
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], dict(os.environ, DST_CHILD='1', PYTHONUTF8='1', PYTHONWARNINGS='ignore', PYTHONDONTWRITEBYTECODE='1'))
sys.path.insert(0, HERE)
from dst import runner  # noqa: E402


def digests(prop, seed, runs, workers, hashseed):
    known = [k[0] for k in runner.known_findings(prop)]
    procs = runner.spawn_workers(prop, seed, 'quick', runs, workers, 3000, known, (hashseed,), ('digests',))
    summaries, violations, unconfirmed, failed = runner.collect(procs, False)
    out = {}
    for s in summaries:
        out.update({int(k): v for k, v in s['digests'].items()})
    return out, len(violations), len(unconfirmed), len(failed)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--runs', type=int, default=300)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('properties', nargs='*')
    a = ap.parse_args()
    props = a.properties or sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'dst', 'props')) if f.startswith('p') and f.endswith('.py'))
    bad = 0
    for prop in props:
        one = digests(prop, a.seed, a.runs, 4, '0')
        two = digests(prop, a.seed, a.runs, 3, '4711')
        differ = sorted(i for i in set(one[0]) | set(two[0]) if one[0].get(i) != two[0].get(i))
        bad += bool(differ)
        print(prop, json.dumps({'runs': len(one[0]), 'differ': differ[:20], 'violations': [one[1], two[1]], 'undecided': [one[2], two[2]]}), flush=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
