""" Usage: run.py PROPERTY [quick|thorough] [--replay FILE] [--only TEXT]    or    run.py --setup """
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/vp/venv/bin/python'
if os.path.realpath(sys.prefix) != os.path.realpath('/opt/vp/venv'):
    os.execv(PYTHON, [PYTHON] + sys.argv)
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.dont_write_bytecode = True

if sys.argv[1] == '--setup':
    import buildsys
    print(buildsys.build(*buildsys.VARIANTS))
else:
    import mc
    sys.exit(mc.main(sys.argv[1:]))
