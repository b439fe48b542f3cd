import glob
import importlib.util
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


def load_check(pid):
    found = glob.glob(os.path.join(VERIF, "checks", pid.lower() + "_*.py"))
    if len(found) != 1:
        raise SystemExit("no unique check for %s: %s" % (pid, found))
    spec = importlib.util.spec_from_file_location("check_" + pid, found[0])
    mod = importlib.util.module_from_spec(spec)
    sys.modules["check_" + pid] = mod
    spec.loader.exec_module(mod)
    return mod


if __name__ == "__main__":
    import warnings

    warnings.filterwarnings("ignore")
    from mc import build, core

    build.load()
    import torch

    torch.set_num_threads(1)
    sys.exit(core.main(load_check(sys.argv[1]), sys.argv[2:]))
