#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   prove the property on /repo's current tree
   check.py --replay <file>               run a recorded failing input against the real code"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python'
if os.environ.get('DV_STAGE') != '1':
    env = dict(os.environ, DV_STAGE='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    os.execve(PY if os.path.exists(PY) else sys.executable, [PY, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)

sys.dont_write_bytecode = True
sys.path[:0] = [os.environ.get('DV_REPO', '/repo'), HERE]
import glob
sys.path += glob.glob('/opt/venv/lib/python3*/site-packages')
sys.setrecursionlimit(20000)
if os.environ.get("DV_STACK"):
    import faulthandler, signal
    faulthandler.register(signal.SIGUSR1)

if __name__ == '__main__':
    from dv import main
    sys.exit(main.main(sys.argv[1:], HERE))
