"""Driver: /opt/venv/bin/python -m rv.run PID [--tier quick|thorough] [--replay FILE] [--workers N]

exit 0  the property held on everything explored
exit 1  VIOLATION line(s) printed
exit 2  inconclusive (a monitor never reached, a worker died, time ran out): neither of the two"""
import argparse
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


class Worker:
    def __init__(self, pid, envname):
        from rv.env import worker_env
        e = worker_env(envname)
        e["PYTHONPATH"] = HOME
        self.err = open(os.devnull, "w") if not os.environ.get("RV_DEBUG") else None
        self.p = subprocess.Popen([PY, "-m", "rv.worker", pid], cwd="/tmp", env=e, text=True,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  start_new_session=True)
        self.q = queue.Queue()
        threading.Thread(target=self._pump, daemon=True).start()
        self.ready = False

    def _pump(self):
        for line in self.p.stdout:
            self.q.put(line)
        self.q.put(None)

    def wait(self, timeout):
        try:
            line = self.q.get(timeout=max(0.1, timeout))
        except queue.Empty:
            return "timeout"
        return json.loads(line) if line is not None else None

    def run(self, case, timeout):
        if not self.ready:
            r = self.wait(max(120, timeout))
            if not isinstance(r, dict) or "ready" not in r:
                return r
            self.ready = True
        try:
            self.p.stdin.write(json.dumps(case) + "\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            return None
        return self.wait(timeout)

    def stop(self, hard=False):
        try:
            if not hard:
                self.p.stdin.close()
                self.p.wait(10)
                return
        except Exception:
            pass
        try:
            os.killpg(self.p.pid, 9)
        except Exception:
            pass


def merge(tot, r, case):
    for k in ("events", "evals"):
        for a, b in r[k].items():
            tot[k][a] = tot[k].get(a, 0) + b
    for a, b in r["worst"].items():
        if b > tot["worst"].get(a, -1):
            tot["worst"][a] = b
    tot["nontrivial"].update(r["nontrivial"])
    tot["nviol"] += r["nviol"]
    for v in r["violations"]:
        tot["violations"].append((v, case))
    for k, d in r["known"].items():
        tot["known"].setdefault(k, []).extend(d)


def load_known():
    """known_findings.txt: `KNOWN property=<id> kf=<kid> <text>` and `fixed: property=<id> <commit> <text>`"""
    out = {}
    try:
        for line in open(os.path.join(HOME, "known_findings.txt")):
            if line.startswith("KNOWN "):
                f = line.split(None, 3)
                out[(f[1].split("=", 1)[1], f[2].split("=", 1)[1])] = f[3].strip()
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("RV_WORKERS", "8")))
    ap.add_argument("--only")
    a = ap.parse_args()
    pid = a.pid.upper()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, HOME)
    chk = importlib.import_module("rv." + pid.lower())    # the driver only generates cases: no import of the repo here
    import numpy as np
    if a.replay:
        cases = [json.load(open(a.replay))["case"]]
    else:
        cases = chk.cases(np.random.default_rng([seed, int(pid[1:])]), tier)
    for i, c in enumerate(cases):
        c.setdefault("env", "nojit")
        c.setdefault("id", i)
    if a.only:
        cases = [c for c in cases if str(c["id"]) == a.only]
    budget = float(os.environ.get("RV_BUDGET", 560 if tier == "quick" else 6 * 3600))
    case_timeout = getattr(chk, "CASE_TIMEOUT", 200 if tier == "quick" else 1800)
    work = {}
    for c in cases:
        work.setdefault(c["env"], []).append(c)
    tot = {"events": {}, "evals": {}, "worst": {}, "violations": [], "known": {}, "nontrivial": set(), "nviol": 0}
    problems, done = [], [0]
    lock = threading.Lock()
    nw = min(a.workers, getattr(chk, "MAX_WORKERS", 8))
    # one queue per environment; a thread moves on to the next environment when one is empty
    qs = {e: list(reversed(cs)) for e, cs in work.items()}

    def take(prefer):
        with lock:
            if time.time() - t0 > budget:
                return None
            for e in ([prefer] if prefer in qs else []) + [x for x in qs if x != prefer]:
                if qs[e]:
                    return qs[e].pop()
        return None

    def loop(idx):
        envs = sorted(qs)
        w, wenv = None, envs[idx % len(envs)]
        while True:
            c = take(wenv)
            if c is None:
                break
            if w is None or c["env"] != wenv:
                if w is not None:
                    w.stop()
                w, wenv = Worker(pid, c["env"]), c["env"]
            r = w.run(c, case_timeout)
            with lock:
                if r == "timeout":
                    problems.append("case %s timed out" % c["id"])
                elif r is None:
                    problems.append("worker died in case %s" % c["id"])
                elif "import_error" in r:
                    if r.get("in_repo"):
                        tot["violations"].append(({"kind": "import", "detail": r["import_error"]}, c))
                        tot["nviol"] += 1
                    else:
                        problems.append("import: " + r["import_error"])
                else:
                    merge(tot, r, c)
                    done[0] += 1
                    if r.get("harness_error"):
                        problems.append(r["harness_error"])
                    if os.environ.get("RV_DEBUG"):
                        print("case", c["id"], r["seconds"], "s", r["events"], r["nviol"], file=sys.stderr)
            if r in ("timeout", None) or "import_error" in r:
                w.stop(hard=True)
                w = None
        if w is not None:
            w.stop()

    th = [threading.Thread(target=loop, args=(i,)) for i in range(min(nw, max(1, len(cases))))]
    for x in th:
        x.start()
    for x in th:
        x.join()

    left = sum(len(v) for v in qs.values())
    known = load_known()
    viol = list(tot["violations"])
    for kid, det in tot["known"].items():
        if (pid, kid) not in known:
            viol.append(({"kind": "finding " + kid, "detail": det[:1]}, cases[0]))
    out_lines = []
    if not a.replay and not a.only:
        for (p, kid), text in known.items():
            if p == pid and kid in tot["known"]:
                out_lines.append("KNOWN-FINDING: property=%s %s (%s)" % (pid, text, kid))
    shown = {}
    rdir = os.path.join(HOME, "evidence", "replay")
    for v, c in viol:
        k = v["kind"]
        if k in shown:
            shown[k] += 1
            continue
        shown[k] = 1
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (pid, len(shown)))
        json.dump({"property": pid, "kind": k, "detail": v["detail"], "case": c, "seed": seed, "tier": tier,
                   "rerun": "cd %s && /opt/venv/bin/python -m rv.run %s --replay %s" % (HOME, pid, path)}, open(path, "w"), indent=1)
        out_lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        out_lines.append("  %s: %s" % (k, json.dumps(v["detail"])[:700]))
        if len(shown) >= 12:
            break
    need = {} if (a.replay or a.only) else dict(getattr(chk, "NEED", {}))
    miss = ["%s: %d < %d" % (k, tot["evals"].get(k, 0) + tot["events"].get(k, 0), n) for k, n in need.items()
            if tot["evals"].get(k, 0) + tot["events"].get(k, 0) < n]
    if left:
        problems.append("%d cases not run within the time budget" % left)
    if miss:
        problems.append("monitors not reached: " + ", ".join(miss))
    wall = time.time() - t0
    if not a.replay and not a.only:
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": int(sum(tot["evals"].values())),
                           "distinct_nontrivial": len(tot["nontrivial"]),
                           "rule": chk.RULE,
                           "cases_generated": len(cases), "cases_executed": done[0],
                           "observed_events": tot["events"], "oracle_evaluations": tot["evals"],
                           "worst_error_over_tolerance": {k: float("%.4g" % v) for k, v in tot["worst"].items()},
                           "known_findings_observed": {k: v[:2] for k, v in tot["known"].items()},
                           "inconclusive": problems,
                           "samples": [c for c in cases[:3]]},
              "assumptions": getattr(chk, "ASSUMPTIONS", []),
              "wall_s": round(wall, 2), "violations": int(tot["nviol"])}
        os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HOME, "evidence", pid + ".json"), "w"), indent=1)
    for l in out_lines:
        print(l)
    print("%s %s seed=%d: %d/%d cases, %d oracle evaluations, %d distinct, %d violations, %.1f s"
          % (pid, tier, seed, done[0], len(cases), sum(tot["evals"].values()), len(tot["nontrivial"]), len(viol), wall))
    print("  observed: " + json.dumps(tot["events"]))
    print("  worst err/tol: " + json.dumps({k: float("%.3g" % v) for k, v in tot["worst"].items()}))
    if viol:
        return 1
    if problems:
        print("INCONCLUSIVE: " + "; ".join(problems[:6])[:2000])
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
