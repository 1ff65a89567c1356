"""python -m rv.worker PID: reads one JSON case per line, executes it under the monitor, answers
with one JSON line.  Everything the code under test prints goes to stderr, which the driver drops."""
import faulthandler
import importlib
import json
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings


def main():
    pid = sys.argv[1]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    faulthandler.enable()
    warnings.simplefilter("ignore")
    from rv.env import REPO
    sys.path.insert(0, REPO)
    import logging
    logging.getLogger("matplotlib").setLevel(logging.ERROR)
    logging.getLogger("matplotlib.font_manager").setLevel(logging.CRITICAL)
    try:
        chk = importlib.import_module("rv." + pid.lower())
        for m in ("bandstructure", "scattering", "conductivity", "admr"):
            importlib.import_module("cuprates_transport." + m)
    except Exception:
        # the check imports the package under test: tell the driver which of the two failed
        tb = traceback.format_exc()
        out.write(json.dumps({"import_error": tb[-3000:], "in_repo": (REPO + "/cuprates_transport/") in tb}) + "\n")
        return
    import cuprates_transport
    src = os.path.realpath(os.path.dirname(cuprates_transport.__file__))
    if src != os.path.realpath(os.path.join(REPO, "cuprates_transport")):
        out.write(json.dumps({"import_error": "package comes from " + src, "in_repo": False}) + "\n")
        return
    from rv.mon import Monitor
    out.write(json.dumps({"ready": True}) + "\n")
    scratch0 = tempfile.mkdtemp(prefix="rv_")
    os.chdir(scratch0)
    import shutil
    for line in sys.stdin:
        case = json.loads(line)
        mon = Monitor()
        mon.scratch = tempfile.mkdtemp(dir=scratch0)
        harness = None
        t0 = time.time()
        try:
            chk.run(case, mon)
        except MemoryError:
            harness = "MemoryError"
        except (KeyboardInterrupt,):
            raise
        except BaseException as e:     # SystemExit too: some code under test calls exit()
            tb = traceback.format_exc()
            # The same case passes on the unchanged tree, so an exception here is behaviour of the tree.
            mon.fail("exception", {"type": type(e).__name__, "msg": str(e)[:300], "tb": tb[-1800:]})
        try:
            import matplotlib.pyplot as plt
            plt.close("all")
        except Exception:
            pass
        os.chdir(scratch0)
        shutil.rmtree(mon.scratch, ignore_errors=True)
        r = mon.result()
        r["seconds"] = round(time.time() - t0, 2)
        if harness:
            r["harness_error"] = harness
        out.write(json.dumps(r) + "\n")
        out.flush()
    os.chdir("/")
    shutil.rmtree(scratch0, ignore_errors=True)


main()
