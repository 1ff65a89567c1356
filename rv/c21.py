"""C21: parallel fits.  Every evaluation in every process is logged (appended by the wrapper the optimizer is given), with injected delays and faults;
the log is then compared with the result and re-evaluated in the parent."""
import copy
import functools
import gc
import json
import os
import time

import numpy as np

from . import fits, wl
from .c19 import fits_equal, put

RULE = ("multi-temperature and single-temperature parallel fits with 1 to 4 workers, one to four free parameters, one to a dozen generations, members evaluated in worker processes with random injected delays, one worker failing in some runs; "
        "re-evaluation of logged members in the parent, same seed with another number of workers. Distinct = distinct members evaluated.")
NEED = {"members": 60, "bounds": 60, "best": 8, "same value": 20, "consistent": 8, "inputs kept": 10, "no worker left": 10, "several processes": 4, "faults": 1, "workers agree": 1, "multi": 3, "one": 3}
CASE_TIMEOUT = 600
MAX_WORKERS = 4

R = {"gamma_0": [6, 18], "gamma_k": [0, 70], "power": [2, 12], "tz": [0.02, 0.09], "mu": [-0.88, -0.78], "energy_scale": [110, 200], "Bamp": [5, 60]}


def cases(rng, tier):
    out = []
    for i in range(10 if tier == "quick" else 120):
        kind = ["multi", "one"][i % 2]
        names = [str(x) for x in rng.permutation(sorted(R))[: int(rng.integers(1, 4))]]
        if i % 10 in (2, 6, 7):             # a long one: the best member is replaced many times, partly and wholly
            names = [str(x) for x in rng.permutation(sorted(R))[: int(rng.integers(3, 5))]]
        out.append({"env": "jit", "kind": kind, "free": names, "common": bool(rng.integers(0, 2)), "norm": bool(i // 2 % 2), "seed": int(rng.integers(0, 1 << 30)), "band": fits.band_dict(rng, "b0"),
                    "workers": [3, 2, 1, 4][i % 4 if i % 8 < 4 else (i + 1) % 4], "percent": [100, 50, 100, 1][int(rng.integers(0, 4))] if i % 3 == 2 else 100,
                    "pop": 3 if i % 10 in (2, 6, 7) else int(rng.integers(2, 6)), "gen": int(rng.integers(7, 12)) if i % 10 in (2, 6, 7) else int(rng.integers(1, 4)), "recomb": 0.2 if i % 10 in (2, 7) else float(rng.choice([0.7, 0.4, 0.9])), "fault": i % 5 == 3, "twice": i % 5 == 4, "twoT": kind == "multi" and i % 4 == 0})
    return out


class Logged:
    """what the optimizer is given instead of the objective: logs, delays, fails when told to"""

    def __init__(self, func, log, seed, fault):
        self.func, self.log, self.seed, self.fault = func, log, seed, fault

    def __call__(self, x, *a):
        h = abs(hash((self.seed, tuple(np.round(x, 9))))) % 1000
        time.sleep(h % 40 / 1000)
        n = os.path.getsize(self.log) if os.path.exists(self.log) else 0
        if self.fault and n > self.fault:
            raise FloatingPointError("injected")
        v = self.func(x, *a)
        with open(self.log, "a") as f:
            f.write(json.dumps([os.getpid(), [float(t) for t in x], float(v)]) + "\n")
        return v


def hook(mod, log, seed, gens, fault, found):
    import scipy.optimize as so
    real = so.differential_evolution

    @functools.wraps(real)
    def de(func, bounds, *a, **k):
        k["maxiter"], k["seed"] = gens, seed
        found["bounds"] = [tuple(map(float, b)) for b in bounds]
        r = real(Logged(func, log, seed, fault), bounds, *a, **k)
        found["res"] = r
        return r
    old = {"so": real, "mod": getattr(mod, "differential_evolution", None)}
    so.differential_evolution = de
    if old["mod"] is not None:
        mod.differential_evolution = de

    def undo():
        so.differential_evolution = old["so"]
        if old["mod"] is not None:
            mod.differential_evolution = old["mod"]
    return undo


def children():
    import psutil
    out = []
    for c in psutil.Process().children(recursive=True):
        try:
            if "resource_tracker" not in " ".join(c.cmdline()) and c.status() != psutil.STATUS_ZOMBIE:
                out.append(c.pid)
        except psutil.Error:
            pass
    return out


def gone(mon, info):
    gc.collect()
    t = time.time()
    while children() and time.time() - t < 8:
        time.sleep(0.05)
    left = children()
    mon.ok("no worker left", not left, lambda: {"left": left, **info()})
    import psutil
    for p in left:
        try:
            psutil.Process(p).kill()
        except psutil.Error:
            pass


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    multi = case["kind"] == "multi"
    mon.event(case["kind"])
    Ts = [25, 6] if case["twoT"] else [25]
    data = {}
    th = np.arange(-5, 96, 3.7)
    for T in [25, 6]:
        for phi in (0, 30) if case["seed"] % 2 else (15,):
            f = fits.path(mon, "c21_%s_%s.dat" % (T, phi))
            fits.write_data(f, [th, fits.curve(phi, T, th)], rng)
            data[T, phi] = [f, 0, 1, 0, 60, 20, 0, 1.0] if multi else [f, 0, 1, 65, 6e-5]
    phis = sorted({p for _, p in data})
    if multi:
        import cuprates_transport.fitting_admr_parallel_multiT as mod
        params = {T: {"b0": dict(fits.snap(case["band"]), Bamp=case["band"]["Bamp"] + T / 10)} for T in Ts}
        where = ["all" if case["common"] else Ts[0]] + ([] if case["common"] else Ts[1:])
        bounds = {w: {"b0": {k: R[k] for k in (case["free"] if w == where[0] else case["free"][:1])}} for w in where}
        labels = [(w, "b0", k) for w in bounds for k in bounds[w]["b0"]]
        args = (params, bounds, {k: v for k, v in data.items() if k[0] in Ts})
    else:
        import cuprates_transport.fitting_admr_parallel_oneT as mod
        member = dict(fits.snap(case["band"]), fixdoping=2, Btheta_min=0, Btheta_max=60, Btheta_step=20, Bphi_array=phis, data_T=25, data_p=0.24)
        bounds = {k: R[k] for k in case["free"]}
        labels = [(None, None, k) for k in sorted(bounds)]
        args = (member, bounds, data)
    shot = fits.snap(args)

    def go(workers, percent, tag, fault=0):
        log, found = fits.path(mon, "log_" + tag), {}
        here = fits.path(mon, "cwd_" + tag)
        os.makedirs(here)
        os.chdir(here)
        undo = hook(mod, log, case["seed"] % 100000, case["gen"], fault, found)
        kw = dict(normalized_data=case["norm"], popsize=case["pop"], num_cpu=workers, percent_workers=percent, recombination=case["recomb"])
        err = None
        r = None
        try:
            r = mod.fit_admr_parallel(*args, filename="result", **kw) if not multi else mod.fit_admr_parallel(*args, **kw)
        except FloatingPointError as e:
            if not fault:
                raise
            err = repr(e)
        finally:
            undo()
            os.chdir(mon.scratch)
        if err:
            del r
        rows = [json.loads(x) for x in open(log)] if os.path.exists(log) else []
        return (None if err else r), rows, found, here
    info = lambda: {k: case[k] for k in ("kind", "free", "workers", "percent", "norm", "pop", "gen")}
    if case["fault"]:
        # one evaluation fails in a worker: the fit says so, leaves nothing running and nothing changed
        r, rows, found, _ = go(case["workers"], 100, "fault", fault=150)
        mon.event("faults")
        mon.ok("best", r is None, lambda: {"what": "a failed evaluation went unnoticed", **info()})
        mon.ok("inputs kept", fits.same(args, shot), info)
        gone(mon, lambda: {"after": "fault", **info()})
    r, rows, found, here = go(case["workers"], case["percent"], "a")
    mon.ok("inputs kept", fits.same(args, shot), info)
    gone(mon, info)
    if not mon.ok("members", len(rows) >= 5 and "bounds" in found, lambda: {"rows": len(rows), **info()}):
        return
    pids = {x[0] for x in rows}
    if len(pids - {os.getpid()}) > 1:
        mon.event("several processes")
    mon.event("members", len(rows))
    for x in rows:
        mon.seen(case["seed"], x[1])
    # the vector follows the bounds of the objects: labels from the objective built in the parent
    if multi:
        F = mod.Fitness(*[fits.snap(args[i]) for i in (2, 0, 1)], normalized_data=case["norm"])
        order = [tuple(x) for x in F.free_params_labels]
        val = lambda x: float(F.compute_fitness(list(x)))
    else:
        F = mod.FittingADMRParallel(*fits.snap(args), normalized_data=case["norm"], folder=mon.scratch)
        order = [(None, None, k) for k in F.free_pars_name]
        val = lambda x: float(F.compute_diff2(np.array(x)))
    lim = [(R[k][0], R[k][1]) for _, _, k in order]
    for x in rows:
        mon.ok("bounds", len(x[1]) == len(lim) and all(lo - 1e-12 <= v <= hi + 1e-12 for v, (lo, hi) in zip(x[1], lim)), lambda: {"x": x[1], "bounds": lim, **info()})
    # evaluated in a worker or here: the same
    for i in rng.permutation(len(rows))[:4]:
        mon.close("same value", val(rows[i][1]), rows[i][2], 1e-9, lambda: {"x": rows[i][1], **info()})
    best = min(x[2] for x in rows)

    def at(P, w, b, k):
        q = P[w if w != "all" else Ts[0]][b] if multi else P
        for d in (q, q["band_params"], q["scattering_params"]):
            if k in d:
                return d[k]
    P = r.params_dict if multi else r
    got = [float(at(P, *lab)) for lab in order]
    mon.ok("bounds", all(lo <= v <= hi for v, (lo, hi) in zip(got, lim)), lambda: {"returned": got, "bounds": lim})
    mon.ok("best", any(x[1] == got and x[2] == best for x in rows), lambda: {"returned": got, "best": [x for x in rows if x[2] == best][:1], "labels": order, **info()})
    mon.close("best", val(got), best, 1e-9, lambda: {"returned": got, **info()})
    # everything else as the caller gave it; the simulation belongs to the parameters
    if multi:
        Q = fits.snap(params)
        for (w, b, k), v in zip(order, got):
            for T in (Q if w == "all" else [w]):
                put(Q, T, b, k, v)
        mon.ok("consistent", fits_equal(r.params_dict, Q), lambda: {"returned": r.params_dict, "want": Q})
        for T in Ts:
            mon.ok("consistent", r.rhozz_sim_dict[T].shape == (len(phis), len(r.thetas_dict[T])), info)
            mon.close("consistent", r.rhozz_sim_dict[T], F.rhozz_sim_dict[T], 1e-9, info)
            mon.close("consistent", r.rzz_sim_dict[T], F.rzz_sim_dict[T], 1e-9, info)
        want, _ = fits.simulate(Q[Ts[0]], r.phis_dict[Ts[0]], r.thetas_dict[Ts[0]])
        mon.close("consistent", r.rhozz_sim_dict[Ts[0]], want, 1e-8, info)
    else:
        Q = fits.snap(member)
        for (_, _, k), v in zip(order, got):
            for d in (Q, Q["band_params"], Q["scattering_params"]):
                if k in d:
                    d[k] = v
                    break
        keys = [k for k in Q if k not in ("Bphi_array", "Btheta_min", "Btheta_max", "Btheta_step")]
        mon.ok("consistent", all(fits_equal(r[k], Q[k]) for k in keys) and set(r) == set(Q), lambda: {"returned": r, "want": Q})
        files = sorted(os.listdir(here))
        mon.ok("consistent", files == ["result.json", "result.pdf"], lambda: {"files": files})
        if "result.json" in files:
            back = json.load(open(os.path.join(here, "result.json")))
            mon.ok("consistent", fits_equal(back, r), lambda: {"file": back, "returned": r})
    if case["twice"]:
        # the number of workers changes nothing
        n = 1 if case["workers"] > 1 else 3
        r2, rows2, _, _ = go(n, 100, "b")
        P2 = r2.params_dict if multi else r2
        mon.ok("workers agree", [float(at(P2, *lab)) for lab in order] == got and sorted(x[1:] for x in rows2) == sorted(x[1:] for x in rows), lambda: {"first": got, "members": [len(rows), len(rows2)], **info()})
        gone(mon, info)
