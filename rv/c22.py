"""C22: residuals of the single-temperature and sequential fits against newly built simulations; finished fits (all evaluations logged) against their log and their files."""
import copy
import json
import os
import re

import numpy as np

from . import fits, wl
from .c19 import fits_equal, own_curve

RULE = ("objectives of the parallel single-temperature, sequential single- and multi-temperature classes over random free parameters (band, scattering, lattice, energy scale, field, own to a temperature), imposed doping or none, "
        "normalized or not, histories with revisits; finished sequential fits by least squares and differential evolution with logged evaluations, default and given file names, folder or current directory. Distinct = distinct (member, ranges, values).")
NEED = {"residual": 400, "pure": 30, "doping": 20, "member": 30, "best": 6, "file": 12, "read back": 6, "figure": 6, "where": 6, "one": 6, "series": 6, "seriesM": 6, "imposed doping": 6, "energy scale": 4, "field": 4, "zero": 4, "own to T": 3}
CASE_TIMEOUT = 600

R = {"gamma_0": [6, 18], "gamma_k": [0, 70], "power": [2, 12], "tp": [-0.16, -0.1], "tpp": [0.0, 0.07], "tz": [0.02, 0.09], "mu": [-0.88, -0.78], "energy_scale": [110, 200], "Bamp": [0, 60], "c": [11.0, 15.0], "a": [3.6, 3.9]}
ZERO = ("gamma_k", "tpp", "Bamp")


def cases(rng, tier):
    out = []
    n, m = (30, 9) if tier == "quick" else (500, 90)
    for i in range(n + m):
        fit = i >= n
        kind = ["one", "series", "seriesM"][i % 3] if not fit else ["series", "seriesM"][i % 2]
        dop = i % 3 == (i // 3) % 3 and not fit or (fit and i % 4 == 3)
        names = [str(x) for x in rng.permutation(sorted(R))[: int(rng.integers(1, 5 if not fit else 3))]]
        if fit:
            names = [str(x) for x in rng.permutation(["gamma_0", "tz", "energy_scale", "Bamp"])[: 1 + int(i % 4 == 2)]]
        if dop and not fit and rng.random() < 0.8:
            names = [k for k in names if k != "mu"] or ["tp"]
        out.append({"env": "nojit", "kind": kind, "fit": fit, "free": names, "norm": bool(rng.integers(0, 2)) if kind != "seriesM" or fit else i % 2 == 0, "doping": wl.U(rng, 0.1, 0.35, 3) if dop else float(rng.choice([2, -5])),
                    "member": fits.band_dict(rng, "b%d" % int(rng.integers(0, 9))), "Ts": [[25, 6], [12], [4.2, 25, 60.0]][int(rng.integers(0, 3))] if not fit else [[25, 6], [4.2, 12]][i % 4 // 2],
                    "own": bool(rng.integers(0, 3)) and kind == "seriesM", "self": i % 4 == 0 or fit, "method": ["least_square", "differential_evolution"][(i // 2) % 2], "name": [None, "my fit"][i % 3 % 2],
                    "folder": i % 5 != 4, "seed": int(rng.integers(0, 1 << 30)), "evals": 3 if tier == "quick" else 6})
    return out


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    kind = case["kind"]
    mon.seen(case)
    mon.event(kind)
    Ts = case["Ts"] if kind == "seriesM" else case["Ts"][:1]
    lo, hi, st = [(0, 60, 20), (-10, 50, 20), (0, 50, 25)][int(rng.integers(0, 3))]
    phis = [[0, 45], [15.0], [0]][int(rng.integers(0, 3))] if not case["fit"] else [15.0]
    member = dict(copy.deepcopy(case["member"]), fixdoping=case["doping"], Btheta_min=lo, Btheta_max=hi, Btheta_step=st, Bphi_array=list(phis), data_T=list(Ts) if kind == "seriesM" else Ts[0], data_p=0.24)
    if case["doping"] < 1 and case["doping"] > -1:
        mon.event("imposed doping")
    imposed = -1 <= case["doping"] <= 1
    R_ = {k: list(R[k]) for k in case["free"]}
    if case["own"]:        # values (and ranges) of each temperature
        for k in ("Bamp", "energy_scale"):
            if k in R_ or rng.random() < 0.5:
                member[k] = {T: wl.U(rng, *([20, 50] if k == "Bamp" else [120, 190]), 1) for T in Ts}
                if k in R_:
                    R_[k] = {T: list(R[k]) for T in Ts}
                mon.event("own to T")
    labels = []
    for k in R_:
        labels += [(k, T) for T in Ts] if isinstance(R_[k], dict) else [(k, None)]
    if "energy_scale" in R_:
        mon.event("energy scale")
    if "Bamp" in R_:
        mon.event("field")
    grid = np.arange(lo, hi + 0.1, st)

    def member_at(x, T):
        P = copy.deepcopy(member)
        for k in ("Bamp", "energy_scale"):
            if isinstance(P[k], dict):
                P[k] = P[k][T]
        P["data_T"] = T
        for (k, t), v in x.items():
            if t is None or t == T:
                for d in (P, P["band_params"], P["scattering_params"]):
                    if k in d:
                        d[k] = v
                        break
        return P

    def draw():
        x = {}
        for k, T in labels:
            v = wl.U(rng, *R[k], 4)
            if k in ZERO and rng.random() < 0.3 and not case["fit"]:
                v = 0.0
            x[k, T] = v
        return x

    def simulate(P):
        P = {k: v for k, v in P.items() if k not in ("Btheta_min", "Btheta_max", "Btheta_step", "Bphi_array", "fixdoping", "data_T", "data_p")}
        return fits.simulate({"b": P}, phis, grid)
    truth = draw()
    data = {}
    for T in Ts:
        if case["self"]:
            P = member_at(truth, T)
            rho, _ = simulate(P)
            g = grid
        else:
            g = np.arange(lo - 5, hi + 6, 4.3)
            rho = np.array([fits.curve(p, T, g) for p in phis])
        for i, p in enumerate(phis):
            f = fits.path(mon, "c22_%s_%s.dat" % (T, p))
            fits.write_data(f, [g, rho[i]], rng)
            data[T, p] = [f, 0, 1, 90, float(np.interp(0, g, rho[i])) if case["self"] else wl.U(rng, 3, 9, 3) * 1e-5]
    data[77, 0] = ["/nowhere.dat", 0, 1, 5, 1]
    here, there = fits.path(mon, "here"), fits.path(mon, "asked")
    os.makedirs(here)
    os.makedirs(there)
    os.chdir(here)
    kw = dict(normalized_data=case["norm"])
    if case["folder"]:
        kw["folder"] = there
    if kind == "one":
        from cuprates_transport.fitting_admr_parallel_oneT import FittingADMRParallel as C
    elif kind == "series":
        from cuprates_transport.fitting_admr_series_oneT import FittingADMR as C
    else:
        from cuprates_transport.fitting_admr_series_multi_T import FittingADMR as C
    if kind != "one":
        kw["method"] = case["method"]

    def mk():
        F = C(copy.deepcopy(member), copy.deepcopy(R_), dict(data), **kw)
        wl.clamp_grid(F.bandObject, 30)
        return F
    weight = 0.0

    def params_of(F):
        return {T: F.member_dict[T] for T in Ts} if kind == "seriesM" else {Ts[0]: F.member}

    def names(F):
        """lmfit parameter of every label: found by name, per temperature by order of addition"""
        out, seen = {}, list(F.pars)
        for k, T in labels:
            if T is None:
                out[k, T] = k
            else:
                mine = [n for n in seen if n.startswith(k + "_") or n == k]
                out[k, T] = mine[Ts.index(T)]
        return out

    def value(F, x):
        if kind == "one":
            return float(F.compute_diff2(np.array([x[k, None] for k in F.free_pars_name])))
        q, nm = copy.deepcopy(F.pars), names(F)
        for lab, v in x.items():
            q[nm[lab]].value = v
        return np.array(F.compute_diff(q), float)

    def reference(x, F):
        """data minus simulation, from the values alone; with an imposed doping mu comes from the member after it was checked"""
        r = []
        S = {}
        for T in Ts:
            P = member_at(x, T)
            if imposed:
                P["band_params"]["mu"] = float(params_of(F)[T]["band_params"]["mu"])
            rho, rzz = S[T] = simulate(P)
            for i, p in enumerate(phis):
                f, ct, cr, cut, r0 = data[T, p]
                at = own_curve(f, ct, cr)
                y = np.array([at(t) / at(0.0) for t in grid])
                if case["norm"] or kind == "seriesM":
                    r += list(y - rzz[i])
                else:
                    r += list((y * r0 - rho[i]) * 1e5)
                if kind == "seriesM" and not case["norm"]:
                    r.append(weight * (r0 - float(np.interp(0, grid, rho[i]))) * 1e5)
        return np.array(r), S
    info = lambda: {"kind": kind, "free": labels, "norm": case["norm"], "fixdoping": case["doping"], "Ts": Ts}

    def doping_ok(F, x):
        for T in Ts:
            P = params_of(F)[T]
            mu = float(P["band_params"]["mu"])
            if not imposed:
                want = member_at(x, T)["band_params"]["mu"]
                mon.ok("doping", mu == want, lambda: {"mu": mu, "want": want, **info()})
            elif T == Ts[0]:
                p = [own_doping(member_at(x, T), mu + d) - case["doping"] for d in (-0.002, 0.002)]
                mon.ok("doping", p[0] * p[1] <= 0, lambda: {"mu": mu, "doping off by": p, **info()})
    if case["fit"]:
        finished(case, mon, mk, Ts, labels, truth, data, here, there, params_of, names, value, info, member_at, imposed, kind)
        return
    F = mk()
    if kind == "seriesM" and not case["norm"]:
        weight = F.weight_rhozz = float(rng.choice([0, 2.5]))
    xs = [truth] + [draw() for _ in range(case["evals"] - 1)]
    rng.shuffle(xs)
    seen = []
    for j, x in enumerate(xs):
        got = value(F, x)
        for v in x.values():
            if v == 0:
                mon.event("zero")
        doping_ok(F, x)
        want, S = reference(x, F)
        if kind == "one":
            mon.close("residual", got, float(np.sum(want ** 2)), 1e-8, lambda: {"x": str(x), **info()}, scale=float(np.sum(want ** 2)) + 1e-12)
            mon.event("values", 1)
        else:
            mon.close("residual", np.sort(got), np.sort(want), 1e-8, lambda: {"x": str(x), **info()}, scale=np.max(np.abs(want)) + 1e-2)
        for T in Ts:
            P, Q = params_of(F)[T], member_at(x, T)
            for (k, t), v in x.items():
                if (t is None or t == T) and not (imposed and k == "mu"):
                    mon.ok("member", any(d.get(k) == v for d in (P, P["band_params"], P["scattering_params"])), lambda: {"param": k, "T": T, "want": v, **info()})
            same = {k: v for k, v in Q.items() if k not in ("Bphi_array", "Btheta_min", "Btheta_max", "Btheta_step", "band_params", "data_T")}
            mon.ok("member", all(fits_equal(P[k], v) for k, v in same.items()) and {k: v for k, v in P["band_params"].items() if k != "mu"} == {k: v for k, v in Q["band_params"].items() if k != "mu"},
                   lambda: {"member": P, "want": Q})
        seen.append((x, got))
        if j and rng.random() < 0.7:
            x0, v0 = seen[int(rng.integers(0, j + 1))]
            mon.ok("pure", np.array_equal(value(F, x0), v0), lambda: {"x": str(x0), **info()})
    G = mk()
    if kind == "seriesM" and not case["norm"]:
        G.weight_rhozz = weight
    x0, v0 = seen[int(rng.integers(0, len(seen)))]
    mon.ok("pure", np.array_equal(value(G, x0), v0), lambda: {"x": str(x0), "new object": True, **info()})
    mon.ok("where", os.listdir(here) == [] and os.listdir(there) == [], "an evaluation wrote files")


def own_doping(P, mu, n=30):
    env = dict(P["band_params"], a=P["a"], b=P["b"], c=P["c"], cos=np.cos, sin=np.sin, sqrt=np.sqrt, pi=np.pi)
    env["mu"] = mu
    k = [np.linspace(-P["k_max"][i] / P[x], P["k_max"][i] / P[x], n) for i, x in enumerate("abc")]
    env["kx"], env["ky"], env["kz"] = np.meshgrid(*k, indexing="ij")
    E = P["energy_scale"] * eval(P["band_model"], {"__builtins__": {}}, env)
    return 1 - 2 * np.sum(E <= 0) / n ** 3 / P.get("number_of_bz", 1)


def finished(case, mon, mk, Ts, labels, truth, data, here, there, params_of, names, value, info, member_at, imposed, kind):
    """a whole fit: every evaluation is logged through the minimizer it uses"""
    import importlib
    import lmfit
    mod = importlib.import_module("cuprates_transport.fitting_admr_series_" + ("oneT" if kind == "series" else "multi_T"))
    F = mk()
    log = []
    real = lmfit.minimize

    def minimize(fcn, params, *a, **k):
        def logged(p, *b, **c):
            r = fcn(p, *b, **c)
            log.append(({n: float(p[n].value) for n in p}, float(np.sum(np.asarray(r) ** 2))))
            return r
        if k.get("method", a[0] if a else "leastsq") == "differential_evolution":
            gens = []

            def stop(xk, convergence):
                gens.append(1)
                return len(gens) >= 2
            k.update(popsize=3, polish=False, seed=case["seed"] % 1000, callback=stop)
        else:
            k.update(ftol=1e-6, xtol=1e-6)
        return real(logged, params, *a, **k)
    old = mod.minimize if hasattr(mod, "minimize") else None
    lmfit.minimize = minimize
    if old is not None:
        mod.minimize = minimize
    try:
        F.runFit(**({} if case["name"] is None else {"filename": case["name"]}))
    finally:
        lmfit.minimize = real
        if old is not None:
            mod.minimize = old
    if not mon.ok("best", len(log) > 2, lambda: {"evaluations": len(log), **info()}):
        return
    mon.event("evaluations", len(log))
    best = min(v for _, v in log)
    nm = names(F)
    P = params_of(F)
    x = {}
    for k, T in labels:
        Q = P[T if T is not None else Ts[0]]
        x[k, T] = next(float(d[k]) for d in (Q, Q["band_params"], Q["scattering_params"]) if k in d)
        for t in Ts:
            if T is None or t == T:
                Q = P[t]
                mon.ok("member", next(float(d[k]) for d in (Q, Q["band_params"], Q["scattering_params"]) if k in d) == x[k, T], lambda: {"param": k, "T": t, **info()})
        lo, hi = R[k]
        mon.ok("best", lo <= x[k, T] <= hi, lambda: {"value out of its range": k, "x": str(x)})
    for T in Ts:
        Q = member_at(x, T)
        mon.ok("member", all(fits_equal(P[T][k], Q[k]) for k in Q if k not in ("Bphi_array", "Btheta_min", "Btheta_max", "Btheta_step", "band_params", "data_T"))
               and {k: v for k, v in P[T]["band_params"].items() if k != "mu" or not imposed} == {k: v for k, v in Q["band_params"].items() if k != "mu" or not imposed},
               lambda: {"member": P[T], "want": Q})
    got = float(np.sum(np.asarray(value(mk(), x)) ** 2))
    start = log[0][1]
    mon.ok("best", got <= best * (1 + 1e-6) + (1e-9 if case["method"] == "differential_evolution" else 1e-4) * start + 1e-14, lambda: {"of the member": got, "best evaluated": best, "x": str(x), **info()})
    # files
    mon.event("fits")
    where = there if case["folder"] else here
    other = here if case["folder"] else there
    fs = sorted(os.listdir(where))
    js, pdf = [f for f in fs if f.endswith(".json")], [f for f in fs if f.endswith(".pdf")]
    mon.ok("where", os.listdir(other) == [] and len(fs) == 2 and len(js) == len(pdf) == 1, lambda: {"asked": fs, "elsewhere": os.listdir(other), **info()})
    mon.ok("where", not [f for f in os.listdir(mon.scratch) if not (f.startswith("c22_") or f in ("here", "asked"))], lambda: {"scratch": os.listdir(mon.scratch)})
    if not js or not pdf:
        return
    if case["name"]:
        mon.ok("file", js[0] == case["name"] + ".json" and pdf[0] == case["name"] + ".pdf", lambda: {"files": fs})
    else:
        mon.ok("file", js[0][:-5] == pdf[0][:-4] and "p0.24" in js[0] and all("%.1f" % T in js[0] for T in Ts), lambda: {"files": fs})
    pages = len(re.findall(rb"/Type\s*/Page\b", open(os.path.join(where, pdf[0]), "rb").read()))
    mon.ok("figure", pages == 2 * len(Ts), lambda: {"pages": pages, **info()})
    with open(os.path.join(where, js[0])) as f:
        raw = json.load(f)
    want = {str(T): P[T] for T in Ts} if kind == "seriesM" else P[Ts[0]]
    mon.ok("file", fits_equal(raw, json.loads(json.dumps(want))), lambda: {"file": raw, "member": want})
    # read by another object, which then has the same residual
    G = mk()
    G.json_name = js[0]
    G.load_member_from_json()
    mon.ok("read back", fits_equal(params_of(G), P), lambda: {"read": params_of(G), "member": P})
    r1, r2 = value(F, x), value(G, x)
    mon.ok("read back", np.array_equal(r1, r2), info)
