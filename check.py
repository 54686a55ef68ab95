#!/usr/bin/env python3
"""Usage: check.py <property id> — decides one property of /repo's current source."""
import importlib, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    subprocess.run(["bash", os.path.join(HERE, "frontend", "build.sh")], check=True, stdout=subprocess.DEVNULL)
    from flai.check import Check
    if pid == "warm":
        from flai.program import Program
        Program()
        return 0
    from checks.registry import CHECKS
    mod, fn = CHECKS[pid][:2]
    chk = Check(pid, tier, seed)
    text = getattr(importlib.import_module("checks." + mod), fn)(chk)
    return chk.finish(text)


if __name__ == "__main__":
    rc = [3]

    def run():
        try:
            rc[0] = main()
        except SystemExit as e:
            rc[0] = e.code
        except BaseException:
            import traceback
            traceback.print_exc()
            rc[0] = 3
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if isinstance(rc[0], int) else 3)
