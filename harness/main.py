"""check <property> [quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core   # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER',
                                                                'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        core.build_extension()
        import mpi4py
        mpi4py.rc.initialize = False
        mpi4py.rc.finalize = False
        sys.path.insert(0, os.path.join(core.REPO, 'src'))
        import warnings
        warnings.simplefilter('ignore')
        import logging
        logging.disable(logging.CRITICAL)
        import pyuoi
        if not pyuoi.__file__.startswith(core.REPO + '/src/'):
            raise core.Machinery('pyuoi comes from ' + pyuoi.__file__)
        mod = importlib.import_module('p_' + pid.lower())
        check = core.Check(pid, tier, seed)
        mod.run(check)
        rc = check.finish(exhaustive=getattr(mod, 'EXHAUSTIVE', False),
                          assumptions=getattr(mod, 'ASSUMPTIONS', ()))
    except core.Machinery as e:
        print('MACHINERY: %s' % e)
        rc = 3
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)


main()
