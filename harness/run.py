import argparse
import importlib
import os
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    vlib.setup_imports()
    warnings.filterwarnings("ignore")
    mod = importlib.import_module(f"check_{a.pid.lower()}")
    chk = vlib.Check(a.pid, a.tier, a.seed)
    try:
        mod.run(chk)
    except Exception as ex:
        print(f"MACHINERY-ERROR property={a.pid}: {ex}" if isinstance(ex, vlib.MachineryError) else traceback.format_exc())
        if not chk.violations:
            return 3
        print("(violations found before the machinery failed are reported)")
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
