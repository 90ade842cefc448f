"""./check <id> [thorough]: run the check of one property."""
import importlib
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('GALGEBRA_REPO', '/repo')
sys.path[:0] = [REPO, HERE, os.path.join(ROOT, 'checks')]
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.setrecursionlimit(5000)


def main():
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    import vlib
    pid = sys.argv[1].upper()
    rep = vlib.Report(pid)
    import galgebra
    assert os.path.realpath(os.path.dirname(galgebra.__file__)) == os.path.realpath(os.path.join(REPO, 'galgebra'))
    mod = importlib.import_module(pid.lower())
    mod.run(rep)
    sys.exit(rep.finish())


main()
