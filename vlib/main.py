import importlib
import os
import sys
import traceback

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)


def run():
    pid = sys.argv[1]
    from vlib import h
    try:
        mod = importlib.import_module(f"checks.{pid.lower()}")
    except Exception:
        tb = traceback.format_exc()
        print(tb)
        if f"{h.REPO}/rubin_sim" in tb:
            # the code under test cannot even be imported
            import json
            rdir = os.path.join(here, "replays", pid)
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "import.json")
            json.dump(dict(property=pid, scenario="import", traceback=tb), open(path, "w"))
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        return 3
    return h.main(mod.check, sys.argv[2:])


if __name__ == "__main__":
    rc = run()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
