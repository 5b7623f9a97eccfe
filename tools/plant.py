#!/usr/bin/env python3
"""plant.py SPEC.py...: make planted bugs from specs and keep those that are confirmed.

A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source; exit 0 = property holds).
Confirmed: the patch applies, the stable tests pass with it, the demo passes without and fails with it.
Works in a scratch copy below /tmp and removes it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\n# exit 0: the property holds; nonzero: it is broken.  Run in the repository after the build.\n' \
     'here="$(cd "$(dirname "$0")" && pwd)"\npy=/opt/venv/bin/python; [ -x "$py" ] || py=python3\n' \
     'tmp="$(mktemp -d)"; trap \'rm -rf "$tmp"\' EXIT\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 PYTHONHASHSEED=0 REPO="$PWD"\n' \
     'cd "$tmp" && timeout 120 "$py" -W ignore "$here/demo.py"\n'


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def main(spec):
    s = runpy.run_path(spec)
    work = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    copy = os.path.join(work, 'repo')
    try:
        run(f'cp -a /repo {copy} && git -C {copy} checkout -q -- .', '/')
        for path, old, new in s['EDITS']:
            p = os.path.join(copy, path)
            text = open(p, encoding='utf-8').read()
            assert text.count(old) == 1, f'{path}: {text.count(old)} x {old!r}'
            open(p, 'w', encoding='utf-8').write(text.replace(old, new))
        patch = run('git diff', copy).stdout
        base_lines = run('git diff 036db3a HEAD', copy).stdout
        out = os.path.join(HERE, 'seeded', s['ID'])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w', encoding='utf-8').write(patch)
        open(os.path.join(out, 'demo.py'), 'w', encoding='utf-8').write(s['DEMO'].lstrip())
        open(os.path.join(out, 'demo.sh'), 'w', encoding='utf-8').write(SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
                  open(os.path.join(out, 'meta.json'), 'w', encoding='utf-8'), indent=1)
        added = [l[1:] for l in base_lines.splitlines() if l.startswith('+') and not l.startswith('+++')]
        removed = [l[1:] for l in patch.splitlines() if l.startswith('-') and not l.startswith('---')]
        own = [l for l in removed if l.strip() and l in added]
        ok, why = True, []
        t = run(f'sed "s#/repo#{copy}#g" /opt/vp/test.sh > {work}/test.sh; bash {work}/test.sh {work}/out.json', copy)
        line = (t.stdout.strip().splitlines() or ['?'])[-1]
        if '20 passed, 0 failed' not in line:
            ok = False
            why.append('tests: ' + line)
        bad = run(f'bash {out}/demo.sh', copy)
        if bad.returncode == 0:
            ok = False
            why.append('demo passes with the patch')
        run('git checkout -q -- .', copy)
        good = run(f'bash {out}/demo.sh', copy)
        if good.returncode != 0:
            ok = False
            why.append('demo fails without the patch: ' + (good.stdout + good.stderr)[-800:])
        print(f"{s['ID']}: {'KEPT' if ok else 'REJECTED'} {'; '.join(why)} {'own lines touched: %r' % own if own else ''}\n    with patch: {(bad.stdout + bad.stderr).strip()[-200:]!r}")
        if not ok:
            shutil.rmtree(out)
    finally:
        shutil.rmtree(work)


for a in sys.argv[1:]:
    main(a)
