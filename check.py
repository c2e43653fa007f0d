#!/usr/bin/env python3
"""check.py <property id> [--replay file]   (run with python3-vt)"""
import importlib, os, sys, threading, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "props"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(200000)
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")


def main():
    pid = sys.argv[1]
    import vf
    try:
        mod = importlib.import_module(pid.lower())
        prop = mod.build()
        if "--replay" in sys.argv:
            return vf.replay(prop, sys.argv[sys.argv.index("--replay") + 1])
        rc = vf.run(prop)
        return rc
    except vf.BuildError as e:
        print("the driver does not build against /repo:", str(e)[-2000:])
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    threading.stack_size(1 << 29)
    rc = [2]
    t = threading.Thread(target=lambda: rc.__setitem__(0, main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
