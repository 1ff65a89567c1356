"""C02: filling and doping count occupied states (own recount on the same grid, plus exact volumes)."""
import numpy as np

from . import wl
from .ref import model_of, grid_axes

RULE = ("random bands (tight binding, parabolic, pockets; k_max, number_of_bz varied) and grid sizes per axis; every returned and "
        "stored filling/doping is recounted with an independent evaluation of the model on the same grid (states within rounding "
        "of E=0 may go either way), per plane and summed over bands; parabolic bands also against the exact volume; linear and quadratic bands on dyadic grids, where every energy is exact and whole planes of states lie at zero, exactly. "
        "Distinct = distinct (band, grid).")
NEED = {"count": 150, "per plane": 300, "bands": 20, "exact": 8, "stored": 100, "after run": 20, "exact count": 150, "states at zero": 200}


def gen(rng):
    k = int(rng.integers(0, 7))
    if k == 6:
        p = wl.skew(rng, odd=bool(rng.integers(0, 2)), res=(7, 9, 5))
    elif k == 0:
        p = wl.para3(rng, hole=bool(rng.integers(0, 2)), offd=bool(rng.integers(0, 2)), res=(5, 7, 5))
    elif k == 1:
        p = wl.para2(rng, hole=bool(rng.integers(0, 2)), res=(7, 5, 3))
    elif k == 2:
        p = wl.trig(rng, ortho=bool(rng.integers(0, 2)), res=(7, 9, 5))
    elif k == 3:
        p = wl.pockets(rng, res=(9, 7, 5))
    else:
        p = wl.cuprate(rng, res=(7, 9, 3))
    if rng.random() < 0.4 and 1 < k < 6:
        p["k_max"] = [wl.U(rng, 2, 7, 3), wl.U(rng, 2, 7, 3), wl.U(rng, 2, 7, 3)]
    elif p["a"] != p["b"] or k > 1:
        p["march"] = bool(rng.integers(0, 2))
    if rng.random() < 0.2:
        p["resolution"][int(rng.integers(0, 2))] = int(rng.integers(61, 90))
    p["number_of_bz"] = int(rng.integers(1, 5)) if rng.random() < 0.5 else 1
    return p


def cases(rng, tier):
    n = 60 if tier == "quick" else 1500
    out = []
    for i in range(n):
        nb = 1 + int(rng.integers(0, 3))
        out.append({"env": "nojit", "bands": [gen(rng) for _ in range(nb)],
                    "res": [int(rng.integers(3, 60)), int(rng.integers(3, 60)), int(rng.integers(2, 20))],
                    "clamp": int(rng.integers(12, 40))})
    out += [exact_case(rng) for _ in range(30 if tier == "quick" else 400)]
    for i in range(4 if tier == "quick" else 40):
        out.append({"env": "jit", "bands": [wl.cuprate(rng, res=(7, 7, 3))], "res": [31, 22, 9], "clamp": 30})
    return out


def exact_case(rng):
    """dyadic grids and coefficients: every energy is exact, and whole planes of states lie exactly at zero"""
    km = [float(np.pi) * int(2 ** rng.integers(0, 2)) for _ in range(3)]
    co = [int(x) for x in rng.choice([-4, -2, -1, 0, 1, 2, 4], 3)]
    if not any(co):
        co[0] = 1
    return {"env": "nojit", "exact": True, "co": co, "mu": float(rng.choice([0, 0, 0.5, -1, 0.25])), "km": km, "scale": float(rng.choice([1, 2, 64, 0.5])),
            "res": [int(2 ** rng.integers(1, 6)) + 1 for _ in range(3)], "nbz": int(rng.choice([1, 1, 2])), "quad": bool(rng.integers(0, 2))}


def run_exact(case, mon):
    from cuprates_transport import bandstructure as bs
    pi = float(np.pi)
    co, mu, res, nz = case["co"], case["mu"], case["res"], case["nbz"]
    p = {"a": pi, "b": pi, "c": pi, "energy_scale": case["scale"], "band_params": {"x": co[0], "y": co[1], "z": co[2], "mu": mu}, "number_of_bz": nz,
         "band_model": "-mu + x*kx + y*ky + z*kz" + (" + kx**2*y" if case["quad"] else ""), "resolution": [5, 5, 5], "k_max": case["km"]}
    ax = [np.linspace(-k / pi, k / pi, r) for k, r in zip(case["km"], res)]
    X, Y, Z = np.meshgrid(*ax, indexing="ij")
    # (the energy scale multiplies every parameter: a factor of two changes nothing)
    E = -mu + co[0] * X + co[1] * Y + co[2] * Z + (X ** 2 * co[1] if case["quad"] else 0)
    want = 2 * np.sum(E <= 0) / E.size / nz
    wk = 2 * np.sum(E <= 0, axis=(0, 1)) / (E.shape[0] * E.shape[1]) / nz
    mon.event("states at zero", int(np.sum(E == 0)))
    mon.seen(case)
    o = wl.band(p, clamp=res[0])
    e = lambda kind, g, w: mon.ok(kind, np.allclose(g, w, rtol=0, atol=1e-12), lambda: {"got": g, "want": w, "at zero": int(np.sum(E == 0)), "case": case})
    e("exact count", o.update_filling(*res), want)
    e("exact count", o.doping(*res), 1 - want)
    e("exact count", [o.n, o.p], [want, 1 - want])
    nk, pk = o.doping_per_kz(*res)
    e("exact count", nk, wk)
    e("exact count", pk, 1 - wk)
    c = res[0]
    ax = [np.linspace(-k / pi, k / pi, c) for k in case["km"]]
    X, Y, Z = np.meshgrid(*ax, indexing="ij")
    E = -mu + co[0] * X + co[1] * Y + co[2] * Z + (X ** 2 * co[1] if case["quad"] else 0)
    e("exact count", bs.doping([o]), 1 - 2 * np.sum(E <= 0) / E.size / nz)


def bounds(p, res, over=None):
    m = model_of(p, **(over or {}))
    ax = grid_axes(p["k_max"], (p["a"], p["b"], p["c"]), res)
    E = m.E(*np.meshgrid(*ax, indexing="ij"))
    t = 1e-9 * (np.max(np.abs(E)) + 1e-12)
    return E <= -t, E <= t


def run(case, mon):
    if case.get("exact"):
        return run_exact(case, mon)
    from cuprates_transport import bandstructure as bs
    objs = [wl.band(p, clamp=case["clamp"], march_square=p.get("march", False)) for p in case["bands"]]
    rx, ry, rz = case["res"]

    def within(kind, got, lo, hi, d):
        e = 1e-12 * max(1, abs(hi))
        mon.ok(kind, np.ndim(got) == 0 and lo - e <= got <= hi + e, lambda: {"got": got, "lo": lo, "hi": hi, **d})

    for p, o in zip(case["bands"], objs):
        mon.seen(p, case["res"])
        nz = p.setdefault("number_of_bz", 1)

        def lim(res, axis=None):
            lo, hi = bounds(p, res)
            f = lambda x: 2 * (np.mean(x, axis=axis)) / nz
            return f(lo), f(hi)
        lo, hi = lim((rx, ry, rz))
        n = o.update_filling(rx, ry, rz)
        within("count", n, lo, hi, {"call": "update_filling"})
        mon.ok("stored", o.n == n and abs(o.p - (1 - n)) < 1e-14, lambda: {"n": o.n, "p": o.p, "returned": n})
        pp = o.doping(ry, rx, rz, printDoping=True)
        lo2, hi2 = lim((ry, rx, rz))
        within("count", pp, 1 - hi2, 1 - lo2, {"call": "doping"})
        mon.ok("stored", o.p == pp and abs(o.n - (1 - pp)) < 1e-14, lambda: {"n": o.n, "p": o.p, "returned": pp})
        n = o.filling(res_x=rz, res_y=rx, res_z=ry)
        lo3, hi3 = lim((rz, rx, ry))
        within("count", n, lo3, hi3, {"call": "filling"})
        mon.ok("stored", o.n == n and abs(o.p - (1 - n)) < 1e-14, lambda: {"n": o.n, "p": o.p, "returned": n})
        before = (o.n, o.p)
        nk, pk = o.doping_per_kz(rx, ry, rz)
        lo4, hi4 = lim((rx, ry, rz), axis=(0, 1))
        mon.ok("planes", np.shape(nk) == (rz,) and np.shape(pk) == (rz,), {"shape": np.shape(nk)})
        for j in range(min(rz, len(nk))):
            within("per plane", nk[j], lo4[j], hi4[j], {"plane": j})
            mon.ok("per plane", abs(pk[j] - (1 - nk[j])) < 1e-13)
        within("per plane mean", float(np.mean(nk)), lo, hi, {})
        nk2 = o.doping_per_kz(ry, rx, rz)[0]
        lo6, hi6 = lim((ry, rx, rz), axis=(0, 1))
        mon.ok("per plane", np.shape(nk2) == (rz,) and np.all(nk2 >= lo6 - 1e-12) and np.all(nk2 <= hi6 + 1e-12), {"again, at another resolution": True})
        mon.ok("stored", (o.n, o.p) == before, {"doping_per_kz changed": [before, o.n, o.p]})
        # defaults: the (clamped) full grid
        dn = case["clamp"]
        lo5, hi5 = lim((dn, dn, dn))
        within("count", o.doping(), 1 - hi5, 1 - lo5, {"call": "doping()"})
        # the filling that a run stores, against the exact volume of the box (2-sided, edge weight of the grid)
        o.runBandStructure()
        # a finer midpoint grid is the exact volume
        m = model_of(p)
        k = [(-1 + (2 * np.arange(q) + 1) / q) * km / l for q, km, l in zip((90, 90, 40), p["k_max"], (p["a"], p["b"], p["c"]))]
        exact = 2 * np.mean(m.E(*np.meshgrid(*k, indexing="ij")) <= 0) / nz
        # every face of the box carries weight 1/N of the end-point grid
        tol = 2 / nz * (sum(1.1 / (10 * r) for r in p["resolution"]) + 0.004)
        mon.close("after run", [o.n, o.p], [exact, 1 - exact], tol, {"resolution": p["resolution"]}, scale=1)
        mon.ok("stored", abs(o.p - (1 - o.n)) < 1e-14, lambda: {"n": o.n, "p": o.p})
        if "masses" in p and p["k_max"][0] == np.pi:
            bp = p["band_params"]
            if "Ez" in bp:
                det = (bp["Ex"] * bp["Ey"] - bp.get("Exy", 0) ** 2) * bp["Ez"]
                vol = 4 / 3 * np.pi * bp["mu"] ** 1.5 / np.sqrt(det)
                fr = vol / ((2 * np.pi) ** 3 / (p["a"] * p["b"] * p["c"]))
            else:
                fr = np.pi * bp["mu"] / np.sqrt(bp["Ex"] * bp["Ey"]) / ((2 * np.pi) ** 2 / (p["a"] * p["b"]))
            want = 2 * (fr if p["sign"] > 0 else 1 - fr) / nz
            q = (81, 81, 81) if "Ez" in bp else (301, 301, 2)
            mon.close("exact", o.update_filling(*q), want, 0.07 if "Ez" in bp else 0.02, scale=2 / nz)
    tot = bs.doping(objs, printDoping=bool(len(objs) % 2))
    lo = hi = 0.0
    dn = case["clamp"]
    for p, o in zip(case["bands"], objs):
        l, h = bounds(p, (dn, dn, dn))
        l, h = 2 * np.mean(l) / p["number_of_bz"], 2 * np.mean(h) / p["number_of_bz"]
        within("bands", o.n, l, h, {"stored n after doping(bands)": True})
        lo, hi = lo + l, hi + h
    within("bands", tot, 1 - hi, 1 - lo, {"call": "doping(bands)", "bands": len(objs)})
