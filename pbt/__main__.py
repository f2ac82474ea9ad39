import os, sys
from . import core

def main():
    cmd = sys.argv[1]
    if cmd == "setup":
        from . import rust
        rust.build()
        rust.build_miri()
        return 0
    if cmd == "check":
        pid = sys.argv[2]
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        return core.run_check(pid, tier, int(os.environ.get("VERIF_SEED", "1")))
    if cmd == "replay":
        return core.run_replay(sys.argv[2])
    print("usage: setup | check ID [tier] | replay FILE", file=sys.stderr)
    return 2

if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
