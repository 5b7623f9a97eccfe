#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
    'N01': 'A pure function of two documents: no schedule, clock, I/O, fault or interleaving that the scores depend on; reference implementations and example data would decide it, not a simulator.',
    'N02': 'Each transformation is a pure function of one tree; its linguistic post-condition depends on no schedule, fault or history. The structural part (well-formed trees, refused operations, purity of reads) is claimed under P01-P04 and P13.',
    'N03': 'A pure function of the text; nothing to schedule or to fail. That no text is lost is part of P19.',
    'N04': 'Validity of an output format is a pure function of the document; delivery of the bytes under faults is claimed under P09 and P12.',
}
TECH = 'deterministic simulation: seeded search over histories, schedules and faults, with minimised replay'


def main():
    checks, na = [], []
    for line in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8'):
        p = json.loads(line)
        pid = p['id']
        path = os.path.join(HERE, 'dst', 'props', pid.lower() + '.py')
        if not os.path.exists(path):
            na.append({'property': pid, 'reason': NA.get(pid, 'Not claimed yet: the check is being built.')})
            continue
        mod = importlib.import_module('dst.props.' + pid.lower())
        checks.append({
            'property': pid, 'quick_cmd': f'python3 check.py {pid} --tier quick', 'thorough_cmd': f'python3 check.py {pid} --tier thorough',
            'technique': getattr(mod, 'TECHNIQUE', TECH), 'level': 'exploration',
            'level_note': getattr(mod, 'LEVEL_NOTE', f"Sampled, not exhaustive: {mod.RUNS['quick']} (quick) or up to {mod.RUNS['thorough']} (thorough) seeded runs of real code. ")
            + ' Assumes: ' + '; '.join(mod.ASSUMPTIONS)})
    man = {'version': 1,
           'setup_cmd': 'python3 check.py --selftest',
           'hooks': {'guard': 'none', 'enable': 'No hook was added to /repo: all seams are patched from /verif at run time.', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'check.py PROPERTY [--tier T] [--seed N]; check.py --replay FILE [--log]. Details in DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
