import os
import sys
import traceback


def main():
    if len(sys.argv) < 3:
        print(__doc__ or "usage: check <id> quick|thorough|replay")
        return 2
    pid, tier = sys.argv[1], sys.argv[2]
    from harness import core

    try:
        if tier == "replay":
            return core.run_replay(pid, sys.argv[3])
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return core.run_check(pid, tier, seed)
    except core.MachineryError as ex:
        print("ERROR", ex, file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 3


rc = main()
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)
