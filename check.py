#!/opt/venv/bin/python
"""check.py C01            run the check of one property (VERIF_SEED, VERIF_TIER)
check.py --self-test      run a few plans of every property twice, in two processes with different hash seeds
check.py --replay FILE  re-run one recorded plan in a fresh process
"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import core  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(core.main_replay(os.path.abspath(sys.argv[2])))
    if sys.argv[1:] == ["--self-test"]:
        core.setup_process()
        sys.exit(core.self_test())
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    core.setup_process()
    try:
        rc = core.main_check(sys.argv[1], tier, seed)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
