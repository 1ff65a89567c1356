"""C19: the multi-temperature objective against newly built simulations and an own reading of the data files, over histories of evaluations."""
import copy

import numpy as np

from . import fits, wl

RULE = ("fits of one to three temperatures and one or two bands with random free parameters (band, scattering, lattice, energy scale, field, temperature; own to a temperature and band, or common), normalized or not, "
        "zero values, data files with own angles; histories of evaluations with revisits and failing vectors; data equal to the simulation. Distinct = distinct (parameters, bounds, vector).")
NEED = {"objective": 45, "pure": 30, "labels": 20, "own": 20, "zero": 10, "vanishes": 5, "common": 8, "sim": 20, "bands>1": 2, "revisit": 15, "temperature free": 1, "field free": 3}
CASE_TIMEOUT = 400

RANGES = {"gamma_0": [6, 18], "gamma_k": [0, 70], "power": [2, 12], "tp": [-0.16, -0.1], "tpp": [0.02, 0.07], "tz": [0.02, 0.09], "mu": [-0.88, -0.78], "energy_scale": [110, 200],
          "Bamp": [0, 60], "c": [11.0, 15.0], "number_of_bz": [1, 2], "a": [3.6, 3.9]}
ZERO = ("gamma_k", "Bamp", "tpp")


def cases(rng, tier):
    out = []
    for i in range(20 if tier == "quick" else 500):
        Ts = [[25], [25, 6], [4.2, 90.0], [25, 10, 6]][i % 4]
        nb = 2 if i % 4 in (0, 1) and i % 3 == 1 or i % 8 == 2 else 1
        names = [str(x) for x in rng.permutation(["hole", "LargePocket", "e2"])[:nb]]
        params = {}
        base = {n: fits.band_dict(rng, n, models=[["isotropic", "cos2phi"], ["isotropic"]][j]) for j, n in enumerate(names)}
        for T in Ts:
            params[str(T)] = {}
            for n in names:
                p = copy.deepcopy(base[n])
                if rng.random() < 0.5:
                    p["scattering_params"]["gamma_0"] = wl.U(rng, 8, 15, 3)
                if rng.random() < 0.5:
                    p["Bamp"] = wl.U(rng, 20, 50, 1)
                params[str(T)][n] = p
        B = {}
        where = [str(T) for T in Ts] + ["all"]
        kind = int(rng.integers(0, 4))        # only common, only own, both, both
        keys = {0: ["all"], 1: where[:-1], 2: where, 3: where[::-1]}[kind]
        for w in keys:
            B[w] = {}
            for n in [str(x) for x in rng.permutation(names)]:
                k = [str(x) for x in rng.permutation(sorted(RANGES))[: int(rng.integers(1, 4))]]
                if (n != names[0] or w != "all") and rng.random() < 0.5:
                    k = k[:2]
                k = [x for x in k if not (w == "all" and any(x in B.get(v, {}).get(n, {}) for v in B)) and not (w != "all" and x in B.get("all", {}).get(n, {}))]
                if not k and w != "all":
                    k = ["scattering"]
                    k = [x for x in ("gamma_0", "energy_scale") if x not in B.get("all", {}).get(n, {})][:1]
                B[w][n] = {x: RANGES[x] for x in k}
        if i % 13 == 12:        # the temperature of the simulation itself
            params = {str(Ts[0]): {names[0]: dict(params[str(Ts[0])][names[0]], N_epsilon=3, dfdE_cut_percent=0.2, T=3.0)}}
            Ts, names, B = Ts[:1], names[:1], {str(Ts[0]): {names[0]: {"T": [2, 9], "gamma_0": [6, 18]}}}
        out.append({"env": "nojit", "T": Ts, "names": names, "params": params, "bounds": B, "norm": bool(i % 2), "self": i % 3 == 0, "seed": int(rng.integers(0, 1 << 30)),
                    "evals": 3 if tier == "quick" else 5})
    return out


def own_curve(path, ct, cr):
    pts = []
    with open(path) as f:
        for ln in f:
            ln = ln.split("#")[0].split()
            if ln:
                pts.append((float(ln[ct]), float(ln[cr])))
    pts.sort()
    x, y = [p[0] for p in pts], [p[1] for p in pts]

    def at(v):
        if v <= x[0]:
            return y[0]
        if v >= x[-1]:
            return y[-1]
        k = max(i for i in range(len(x)) if x[i] <= v)
        return y[k] + (y[k + 1] - y[k]) * (v - x[k]) / (x[k + 1] - x[k])
    return at


def put(P, T, band, name, v):
    q = P[T][band]
    for d in (q, q["band_params"], q["scattering_params"]):
        if name in d:
            d[name] = v
            return
    raise KeyError(name)


def run(case, mon):
    from cuprates_transport.fitting_admr_parallel_multiT import Fitness
    rng = np.random.default_rng(case["seed"])
    key = {str(T): T for T in case["T"]}
    P = {key[k]: v for k, v in case["params"].items()}
    B = {key.get(k, k): v for k, v in case["bounds"].items()}
    P0 = fits.snap(P)
    nT = len(P)
    data, angles = {}, {}
    for T in P:
        phis = [[0, 45], [0.0], [15.0, 30.0]][int(rng.integers(0, 3))] if nT < 3 else [0]
        lo, hi, st, nrm = [(0, 60, 20, 0), (-20, 40, 20, 10), (5, 55, 20, 30), (0, 75, 25, 12.5)][int(rng.integers(0, 4))]
        angles[T] = (phis, lo, hi, st, nrm)
    labels = [(w, b, k) for w in B for b in B[w] for k in B[w][b]]
    if not labels:
        return
    for w, b, k in labels:
        if k == "T":
            mon.event("temperature free")
        if k == "Bamp":
            mon.event("field free")
    if len(case["names"]) > 1:
        mon.event("bands>1")

    def params_at(x):
        Q = fits.snap(P0)
        for (w, b, k), v in zip(labels, x):
            for T in (Q if w == "all" else [w]):
                put(Q, T, b, k, v)
        return Q

    def draw():
        x = []
        for w, b, k in labels:
            lo, hi = B[w][b][k]
            v = wl.U(rng, lo, hi, 4)
            if k == "number_of_bz":
                v = int(rng.integers(1, 3))
            if k in ZERO and rng.random() < 0.3:
                v = 0.0
            x.append(v)
        return x

    def sims(x, grid):
        Q = params_at(x)
        return {T: fits.simulate(Q[T], angles[T][0], grid[T], angles[T][4]) for T in Q}
    truth = draw()
    # data: made-up curves, or the simulation itself on the angles of the fit
    for T in P:
        phis, lo, hi, st, nrm = angles[T]
        n = int((hi - lo) / st)
        if case["self"]:
            g = np.linspace(lo, hi, n)
            rho, _ = fits.simulate(params_at(truth)[T], phis, g, nrm)
        else:
            g = np.arange(lo - 7, hi + 9, 4.7)
            rho = np.array([fits.curve(phi, T, g) for phi in phis])
        for i, phi in enumerate(phis):
            f = fits.path(mon, "c19_%d_%s_%s.dat" % (case["seed"], T, phi))
            fits.write_data(f, [rho[i], g], rng)
            data[T, phi] = [f, 1, 0, lo, hi, st, nrm, 1.0 if case["self"] else float(rng.choice([wl.U(rng, 0.5, 2, 3), 40.0, 3e3, 1e-5]))]
    reg = list(data)
    data = {reg[i]: data[reg[i]] for i in rng.permutation(len(reg))}      # registered in any order
    kw = {"normalized_data": case["norm"]}
    F = Fitness(data, P, B, **kw)
    mon.seen(case)
    info = lambda: {"labels": labels, "norm": case["norm"], "T": list(P)}
    got = [tuple(x) for x in F.free_params_labels]
    if not mon.ok("labels", sorted(map(str, got)) == sorted(map(str, labels)) and len(F.bounds) == len(got), lambda: {"got": got, **info()}):
        return
    perm = [labels.index(x) for x in got]
    mon.ok("labels", all(tuple(F.bounds[i]) == tuple(B[w][b][k]) for i, (w, b, k) in enumerate(got)), lambda: {"bounds": F.bounds, **info()})
    grid = {T: np.array(F.thetas_dict[T], float) for T in P}
    for T in P:
        mon.ok("labels", sorted(float(p) for p in F.phis_dict[T]) == sorted(map(float, angles[T][0])) and grid[T].size >= 2, lambda: {"phis": F.phis_dict[T], "thetas": grid[T]})
        if sorted(float(p) for p in F.phis_dict[T]) != sorted(map(float, angles[T][0])):
            return
    row = {T: [[float(p) for p in F.phis_dict[T]].index(float(p)) for p in angles[T][0]] for T in P}
    want_d = {}
    for T in P:
        for phi in angles[T][0]:
            f, ct, cr, _, _, _, nrm, fac = data[T, phi]
            at = own_curve(f, ct, cr)
            want_d[T, phi] = np.array([at(t) / at(nrm) if case["norm"] else at(t) * fac for t in grid[T]])

    def reference(x):
        S = sims(x, grid)
        chi = 0.0
        size = 0.0
        for T in P:
            for i, phi in enumerate(angles[T][0]):
                s = S[T][1][i] if case["norm"] else S[T][0][i]
                chi += float(np.sum((want_d[T, phi] - s) ** 2))
                size += float(np.sum(s ** 2))
        return chi, size, S
    vec = lambda x: [x[i] for i in perm]
    xs = [draw() for _ in range(case["evals"])]
    if case["self"]:
        xs[0] = truth
    seen = {}
    fails = 0
    for j, x in enumerate(xs):
        v = vec(x)
        v = [v, np.array(v, float), tuple(v)][j % 3]
        v0 = copy.deepcopy(v)
        got = F.compute_fitness(v)
        mon.ok("pure", fits.same(v, v0), lambda: {"x": v0, "after": v})
        chi, size, S = reference(x)
        mon.close("objective", got, chi, 1e-8, lambda: {"x": x, **info()}, scale=chi + 1e-9 * size)
        if case["self"] and x is truth:
            mon.ok("vanishes", got <= 1e-16 * size, lambda: {"value": got, "size": size, "x": x, **info()})
        for k, val in zip(labels, x):
            if val == 0:
                mon.event("zero")
        seen[j] = (v0, got)
        for T in P:
            mon.close("sim", np.array(F.rhozz_sim_dict[T])[row[T]], S[T][0], 1e-8, info, scale=np.abs(S[T][0]))
            mon.close("sim", np.array(F.rzz_sim_dict[T])[row[T]], S[T][1], 1e-8, info, scale=np.abs(S[T][1]))
        # the parameters it holds are those of the vector and of nothing else
        mon.ok("own", fits_equal(F.params_dict, params_at(x)), lambda: {"holds": F.params_dict, "want": params_at(x), **info()})
        if any(w == "all" for w, _, _ in labels) and nT > 1:
            mon.event("common")
        # revisit an earlier vector, perhaps after one that fails
        if j and rng.random() < 0.8:
            if rng.random() < 0.4 and any(k == "mu" for _, _, k in labels):
                bad = vec([40.0 if k == "mu" else val for (_, _, k), val in zip(labels, x)])
                try:
                    F.compute_fitness(bad)
                except Exception:
                    fails += 1
            k = int(rng.integers(0, j + 1))
            mon.ok("pure", F.compute_fitness(seen[k][0]) == seen[k][1], lambda: {"revisit": k, "after": j, **info()})
            mon.event("revisit")
    if fails:
        mon.event("failing vector", fails)
    # a new object gives the same; without a vector it takes the parameters it holds
    G = Fitness(data, fits.snap(P0), fits.snap(B), **kw)
    j = int(rng.integers(0, len(xs)))
    mon.ok("pure", G.compute_fitness(seen[j][0]) == seen[j][1], lambda: {"new object": j, **info()})
    mon.ok("pure", G.compute_fitness() == seen[j][1], lambda: {"no vector": j, **info()})
    # one free parameter moves: only its own temperatures and band notice
    i = int(rng.integers(0, len(labels)))
    w, b, k = labels[i]
    x2 = list(xs[j])
    x2[i] = 2 if k == "number_of_bz" and x2[i] == 1 else 1 if k == "number_of_bz" else x2[i] * 1.01 + 0.001
    before = {T: np.array(G.rhozz_sim_dict[T]) for T in P}
    G.compute_fitness(vec(x2))
    for T in P:
        if w != "all" and T != w:
            mon.ok("own", np.array_equal(before[T], G.rhozz_sim_dict[T]), lambda: {"moved": labels[i], "but changed": T})
        elif len(case["names"]) == 1 and not (k in ("power", "gamma_k", "c", "a", "number_of_bz")):
            p = params_at(x2)[T][b]
            if p["Bamp"] or k != "tpp":
                mon.ok("own", not np.array_equal(before[T], G.rhozz_sim_dict[T]), lambda: {"moved": labels[i], "without effect at": T, "to": x2[i]})


def fits_equal(a, b):
    """equal contents (order of keys free)"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(fits_equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(fits_equal(x, y) for x, y in zip(a, b))
    return a == b
