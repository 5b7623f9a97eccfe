#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] | check.py --replay FILE [--log]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('DST_CHILD') != '1':
    # one fixed interpreter and hash seed for the search itself; other hash seeds are part of the plans
    e = dict(os.environ, PYTHONHASHSEED='0', DST_CHILD='1', PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', PYTHONWARNINGS='ignore',
             PYTHONPYCACHEPREFIX='/nonexistent/pycache')
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.join(HERE, 'check.py')] + sys.argv[1:], e)
sys.path.insert(0, HERE)
from dst.runner import main  # noqa: E402

if __name__ == '__main__':
    sys.exit(main())
