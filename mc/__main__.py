"""python -m mc P01 [--thorough] [--family NAME] | python -m mc --replay FILE"""
import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ[_v] = "1"
sys.dont_write_bytecode = True

import importlib
import json

from mc import core

sys.path.insert(0, core.REPO)


def get(pid):
    return importlib.import_module("mc.checks." + pid.lower())


if __name__ == "__main__":
    args = sys.argv[1:]
    if args[0] == "--replay":
        sys.exit(core.replay(get(json.load(open(args[1]))["property"]), args[1]))
    try:
        check = get(args[0])
    except Exception as e:
        import traceback
        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if not any(f.startswith(core.REPO + os.sep) for f in files) and not (
                isinstance(e, ImportError) and "src" in str(e)):
            raise
        sys.exit(core.import_failure(args[0], f"import failed: {type(e).__name__}: {e}"))
    sys.exit(core.main(check, args[1:]))
