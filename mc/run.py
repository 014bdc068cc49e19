import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
# the working tree of /repo, and nothing else, is the code under test
sys.path[:0] = [REPO, VERIF]
sys.dont_write_bytecode = True
os.environ['PYTHONPATH'] = REPO + os.pathsep + VERIF
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'

if __name__ == '__main__':
    from mc.core import main
    sys.exit(main())
