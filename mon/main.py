import os
import sys
import warnings

warnings.simplefilter("ignore")

from . import core      # noqa: E402


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(core.replay(sys.argv[2]))
    if sys.argv[1] == "--selftest":
        core.load_real()
        for i in range(1, 29):
            core.load_prop(f"C{i:02}")
        print("OK: the monitors and bibleref can be loaded")
        sys.exit(0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(core.main(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))))
