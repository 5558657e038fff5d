#!/usr/bin/env python3
"""run.py <PROPERTY> [quick|thorough] [--replay=FILE]  - decide one property on /repo's working tree."""
import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['PYTHONPYCACHEPREFIX'] = '/nonexistent-pycache'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core  # noqa: E402
if __name__ == '__main__':
    sys.setrecursionlimit(3000)
    rc = core.main(sys.argv)
    sys.stdout.flush()
    os._exit(rc)
