#!/usr/bin/env python3
"""Entry point of every check: check.py <property> [--tier quick|thorough]."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('PV_REPO', '/repo'))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

if __name__ == '__main__':
    if sys.executable != '/opt/venv/bin/python' and \
            os.path.exists('/opt/venv/bin/python'):
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv('/opt/venv/bin/python',
                 ['/opt/venv/bin/python', os.path.abspath(__file__)] +
                 sys.argv[1:])
    from pv.runner import main
    sys.exit(main())
