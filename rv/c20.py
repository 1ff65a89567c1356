"""C20: the data held by every fit class against an own reading of the files (plain text parsing, sorting and straight-line interpolation)."""
import numpy as np

from . import fits, wl
from .c19 import own_curve

RULE = ("made-up data files with rows in any order, extra columns, comments, CRLF or blank lines, negative and uneven angles, several temperatures and azimuths registered in any order (also ones not to be used, also missing files of other temperatures), "
        "cut-offs, steps that do not divide the range; read through the multi-temperature, single-temperature and both sequential classes; re-reading. Distinct = distinct (files, registration, class).")
NEED = {"data": 1500, "normalized": 1500, "grid": 60, "phis": 60, "order": 40, "reread": 20, "multi": 15, "one": 10, "series": 10, "seriesM": 10}
ASSUMPTIONS = ["angles of a file are distinct (or repeated with equal values)", "a registered range of the multi-temperature fit is at least two steps long",
               "single-temperature and sequential fits normalize the data at zero angle (their documented rhozz_0)"]

KINDS = ["multi", "one", "series", "seriesM"]


def cases(rng, tier):
    out = []
    for i in range(72 if tier == "quick" else 2400):
        out.append({"env": "nojit", "kind": KINDS[i % 4], "seed": int(rng.integers(0, 1 << 30)), "norm": bool(rng.integers(0, 2)), "member": fits.band_dict(rng, "b"),
                    "grid": [float(rng.choice([0, 0, -15, 10, wl.U(rng, -30, 20, 1)])), float(rng.choice([60, 75, 90, wl.U(rng, 50, 100, 1)])), float(rng.choice([5, 10, 7, 2.5, wl.U(rng, 2, 12, 2)]))]})
    return out


def write(path, theta, rho, rng):
    """returns the columns of angle and resistivity"""
    n = len(theta)
    ncol = int(rng.integers(2, 6))
    ct, cr = [int(x) for x in rng.permutation(ncol)[:2]]
    M = rng.uniform(-9, 9, (n, ncol))
    M[:, ct], M[:, cr] = theta, rho
    order = rng.permutation(n) if rng.random() < 0.7 else np.arange(n)[:: int(rng.choice([1, -1]))]
    M = M[order]
    if rng.random() < 0.3:        # the same row twice
        M = np.vstack((M, M[int(rng.integers(0, n))]))
    sep = str(rng.choice(["\t", " ", "   "]))
    eol = str(rng.choice(["\n", "\n", "\r\n"]))
    lines = []
    if rng.random() < 0.7:
        lines += ["#theta[deg]\trho", "# 1 2 3 4 5 6"]
    for k, row in enumerate(M):
        lines.append(sep.join("%.10g" % v for v in row) + ("   # 12 13" if rng.random() < 0.1 else ""))
        if rng.random() < 0.05:
            lines.append("# in between 5 5 5")
        if rng.random() < 0.05:
            lines.append("")
    with open(path, "w", newline="") as f:
        f.write(eol.join(lines) + eol)
    return ct, cr


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    kind = case["kind"]
    mon.seen(case)
    mon.event(kind)
    Ts = [[25, 6], [25.5, 90.0, 4.0], [12, 1], [4.2, 4.9, 4.5], [20, 20.25]][int(rng.integers(0, 5))]
    use = Ts if kind in ("multi", "seriesM") else [Ts[int(rng.integers(0, len(Ts)))]]
    phis = {T: [float(x) for x in rng.permutation([0, 15, 30, 45, -12.5, 22.5])[: int(rng.integers(1, 4))]] for T in Ts}
    lo, hi, st = case["grid"]
    data = {}
    reg = []
    for T in Ts:
        for phi in phis[T]:
            n = int(rng.integers(12, 60))
            a, b = lo - rng.uniform(0, 20) if rng.random() < 0.7 else lo + rng.uniform(0, 5), hi + rng.uniform(-15, 20)
            th = np.unique(np.round(np.sort(rng.uniform(a, b, n)), 3))
            if rng.random() < 0.5:
                th = np.round(np.linspace(a, b, n), 4)
            rho = fits.curve(phi, T, th) * rng.uniform(0.8, 1.2, len(th))
            f = fits.path(mon, "c20_%d_%s_%s.dat" % (case["seed"], T, phi))
            ct, cr = write(f, th, rho, rng)
            fac = wl.U(rng, 0.3, 3, 3) * (1 if kind == "multi" else 1e-5)
            if kind == "multi":
                l, h, s = lo + float(rng.choice([0, 0, 5])), hi - float(rng.choice([0, 0, 5])), st * float(rng.choice([1, 1, 1.5]))
                reg.append([(T, phi), [f, ct, cr, l, h, s, None, fac]])
            else:
                reg.append([(T, phi), [f, ct, cr, float(rng.choice([90, 200, wl.U(rng, lo + 2.2 * st, hi, 1)])), fac]])
    nrm = {T: float(rng.choice([0, lo, 0.5 * (lo + hi), wl.U(rng, lo, hi, 2)])) for T in Ts}
    for (T, _), v in reg:
        if kind == "multi":
            v[6] = nrm[T]
        if T not in use and rng.random() < 0.5:
            v[0] = "/nowhere/at/all.dat"
    orders = [[reg[i] for i in rng.permutation(len(reg))] for _ in range(2)]
    member = dict(case["member"], fixdoping=2, Btheta_min=lo, Btheta_max=hi, Btheta_step=st, data_p=0.2)
    asked = None
    if kind != "multi":
        # azimuths asked for: some registered ones, in any order, perhaps others too
        allp = sorted({p for T in use for p in phis[T]})
        k = [T for T in use]
        asked = [p for p in allp if rng.random() < 0.7]
        for T in k:
            if not any(p in asked for p in phis[T]):
                asked.append(phis[T][0])
        asked = [asked[i] for i in rng.permutation(len(asked))] + ([77.7] if rng.random() < 0.3 else [])
        if all(float(p).is_integer() for p in asked) and rng.random() < 0.5:
            asked = [int(p) for p in asked]
        member.update(Bphi_array=asked, data_T=list(use) if kind == "seriesM" else use[0])
        if kind == "seriesM" and rng.random() < 0.5:
            member["Bphi_array"] = {T: list(asked) for T in use}
    results = []
    for o in orders:
        data = {k: list(v) for k, v in o}
        results.append(read(kind, data, member, use, case, mon))
    for T in use:
        want_phi = sorted(p for p in phis[T] if asked is None or p in asked)
        g, P, R, Z = results[0][T]
        info = lambda: {"kind": kind, "T": T, "grid": g, "asked": [lo, hi, st]}
        mon.ok("phis", sorted(float(p) for p in P) == want_phi and len(P) == len(want_phi), lambda: {"got": P, "want": want_phi, **info()})
        mine = {p: v for (t, p), v in reg if t == T and p in want_phi}
        if kind == "multi":
            a, b = min(v[3] for v in mine.values()), max(v[4] for v in mine.values())
            mon.ok("grid", g.size >= 2 and abs(g[0] - a) < 1e-9 and abs(g[-1] - b) < 1e-9 and np.all(np.diff(g) > 0) and np.ptp(np.diff(g)) < 1e-9, info)
            s = min(v[5] for v in mine.values())
            mon.ok("grid", np.max(np.diff(g)) < 2.01 * s, info)
        else:
            cut = min(v[3] for v in mine.values())
            end = min(hi, cut)
            mon.ok("grid", g.size >= 2 and abs(g[0] - lo) < 1e-9 and np.allclose(np.diff(g), st, atol=1e-9) and g[-1] <= min(hi + 0.5 * st, cut) + 1e-6 and g[-1] > end - st - 1e-6, lambda: {"cut": cut, **info()})
        if sorted(float(p) for p in P) != want_phi or not mon.ok("data", np.shape(R) == np.shape(Z) == (len(P), g.size), lambda: {"shapes": [np.shape(R), np.shape(Z)], **info()}):
            continue
        for i, p in enumerate(P):
            v = mine[float(p)]
            at = own_curve(v[0], v[1], v[2])
            n = at(nrm[T]) if kind == "multi" else at(0.0)
            y = np.array([at(t) for t in g])
            mon.close("normalized", Z[i], y / n, 1e-9, lambda: {"phi": p, **info()}, scale=np.abs(y / n))
            y = y * v[7] if kind == "multi" else y / n * v[4]
            mon.close("data", R[i], y, 1e-9, lambda: {"phi": p, **info()}, scale=np.abs(y))
        # registered in another order
        g2, P2, R2, Z2 = results[1][T]
        o = [list(map(float, P2)).index(float(p)) if float(p) in list(map(float, P2)) else 0 for p in P]
        mon.ok("order", np.array_equal(g, g2) and np.array_equal(R2[o], R) and np.array_equal(Z2[o], Z), info)


def read(kind, data, member, use, case, mon):
    """-> {T: (grid, azimuths, resistivity matrix, normalized matrix)}"""
    out = {}
    keep = fits.snap((data, member))
    if kind == "multi":
        from cuprates_transport.fitting_admr_parallel_multiT import DataADMR, FitAnglesADMR
        for T in use:
            A = FitAnglesADMR(T, data)
            P, g = A.create_angles()
            D = DataADMR(T, data, P, g)
            D.load_data(A.Btheta_norm)
            R, Z = np.array(D.rhozz_data_matrix), np.array(D.rzz_data_matrix)
            D.load_data(A.Btheta_norm)
            mon.ok("reread", np.array_equal(R, D.rhozz_data_matrix) and np.array_equal(Z, D.rzz_data_matrix), {"kind": kind})
            out[T] = (np.array(g, float), [float(x) for x in P], R, Z)
    elif kind == "seriesM":
        from cuprates_transport.fitting_admr_series_multi_T import FittingADMR
        F = FittingADMR(member, {"gamma_0": [5, 20]}, data, normalized_data=case["norm"], folder=mon.scratch)
        for k in range(2):
            F.load_and_interp_data()
            for T in use:
                x = (np.array(F.Btheta_dict[T], float), [float(p) for p in F.Bphi_dict[T]], np.array(F.rhozz_data_i_dict[T]), np.array(F.rzz_data_i_dict[T]))
                if k:
                    mon.ok("reread", all(np.array_equal(p, q) for p, q in zip(out[T], x)), {"kind": kind})
                else:
                    out[T] = x
    else:
        if kind == "one":
            from cuprates_transport.fitting_admr_parallel_oneT import FittingADMRParallel as C
        else:
            from cuprates_transport.fitting_admr_series_oneT import FittingADMR as C
        F = C(member, {"gamma_0": [5, 20]}, data, normalized_data=case["norm"], folder=mon.scratch)
        for k in range(2):
            if kind == "series" or k:
                F.load_and_interp_data()
            x = (np.array(F.Btheta_array, float), [float(p) for p in F.Bphi_array], np.array(F.rhozz_data_matrix), np.array(F.rzz_data_matrix))
            if k:
                mon.ok("reread", all(np.array_equal(p, q) for p, q in zip(out[use[0]], x)), {"kind": kind})
            else:
                out[use[0]] = x
    mon.ok("reread", fits.same((data, member), keep), {"kind": kind, "what": "inputs"})
    return out
