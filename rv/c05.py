"""C05: the weights integrate the surface (independent marching-tetrahedra integrals; independently traced contour lengths)."""
import numpy as np

from . import wl
from .ref import model_of, grid_axes, surface_integral, contour_segments, seg_length

RULE = ("random bands, lattices (a = b and a != b), energy offsets, box sizes, resolutions, both methods. Marching cubes: weighted sums of 8 test functions "
        "against integrals over an independently triangulated, finer surface. Slices: per-plane contour length and line integrals of test functions "
        "against independently traced contours, spacing of the planes, per-plane point counts. Distinct = distinct (band, offset, method).")
NEED = {"positive": 20, "area": 15, "integral": 100, "plane length": 60, "plane integral": 200, "plane count": 60, "height": 15, "discretized twice": 10, "small sheet length": 20}
ASSUMPTIONS = ["slice-wise with a = b is used for bands with fourfold symmetry and equal in-plane box sizes, as the code documents"]


def gen(rng, sq):
    k = int(rng.integers(0, 6))
    if k <= 1 and not sq:
        p = wl.para3(rng, hole=bool(rng.integers(0, 2)), offd=bool(k), res=(31, 33, 35), kF=rng.uniform(0.6, 0.85))
    elif k <= 1:
        p = wl.para3(rng, res=(41, 41, 21), tetra=bool(k))
    elif k == 2:
        p = wl.para2(rng, hole=bool(rng.integers(0, 2)), res=(41, 39, 5), iso=bool(rng.integers(0, 2)) and sq)
    elif k == 3:
        p = wl.pockets(rng, res=(61, 61, 9) if not sq else (51, 51, 5))
    elif k == 4:
        p = wl.general(rng, res=(41, 43, 15))
    else:
        p = wl.cuprate(rng, res=(int(rng.integers(39, 51)), int(rng.integers(39, 51)), 21 if not sq else int(rng.integers(3, 9))))
    if k >= 3 and rng.random() < 0.3:
        q = wl.U(rng, 0.85, 1.5, 3)
        p["k_max"] = [q * p["k_max"][0], (q if p["a"] == p["b"] else wl.U(rng, 0.85, 1.5, 3)) * p["k_max"][1], wl.U(rng, 0.8, 1.5, 3) * p["k_max"][2]]
    w = p["energy_scale"] if k > 2 else p["band_params"]["mu"]
    p["eps"] = wl.f(rng.uniform(-0.05, 0.05) * w, 4) if rng.random() < 0.7 else 0
    if rng.random() < 0.4:          # the object has discretized another surface before
        p["before"] = [0, p["eps"]][int(rng.integers(0, 2))] if rng.random() < 0.4 else wl.f(p["eps"] + 0.03 * w, 4)
    return p


def cases(rng, tier):
    out = [{"env": "nojit", "band": gen(rng, bool(i % 2)), "square": bool(i % 2)} for i in range(56 if tier == "quick" else 1200)]
    for i in range(12 if tier == "quick" else 150):      # open sheets, flat or not, across each axis
        sq = bool(i % 4 == 3)
        p = wl.sheet(rng, i % 3 if not sq else i // 4 % 2, bool(i % 2), res=(41, 43, 35) if not sq else (41, 43, 5))
        out.append({"env": "nojit", "band": dict(p, eps=wl.f(rng.uniform(-0.06, 0.06) * p["energy_scale"], 4)), "square": sq})
    from . import c04
    for i in range(15 if tier == "quick" else 150):      # small sheets
        out.append({"env": "nojit", "band": c04.tiny(rng, i % 5), "square": True, "tiny": True})
    out.append({"env": "jit", "band": dict(wl.cuprate(rng, ortho=True, res=(41, 41, 7)), eps=2.0), "square": True})
    return out


def functions(p):
    a, b, c = p["a"], p["b"], p["c"]
    return {"1": lambda x, y, z: np.ones_like(x), "x2": lambda x, y, z: (a * x) ** 2, "y2": lambda x, y, z: (b * y) ** 2,
            "z2": lambda x, y, z: (c * z) ** 2, "xy": lambda x, y, z: 1 + a * x * b * y / 10, "cos": lambda x, y, z: 2 + np.cos(a * x - 0.7) * np.cos(b * y + 0.4),
            "right": lambda x, y, z: 1 + np.tanh(3 * a * x), "top": lambda x, y, z: 1 + np.tanh(3 * b * y), "up": lambda x, y, z: 1 + np.tanh(3 * c * z)}


def run_tiny(p, o, mon):
    """lengths of small contours: the weights of the points of each sheet sum up to its circumference (ellipse)"""
    kf = np.asarray(o.kf)
    cell = np.pi / 500 / min(p["a"], p["b"])
    zs = np.linspace(-p["k_max"][2] / p["c"], p["k_max"][2] / p["c"], p["resolution"][2])
    for j, z in enumerate(zs):
        on = np.abs(kf[2] - z) < 1e-9
        mon.ok("plane count", int(on.sum()) == o.number_of_points_per_kz_list[j], lambda: {"plane": j, "points": int(on.sum()), "recorded": o.number_of_points_per_kz_list})
        for c, R in zip(p["centres"], p["radii"]):
            if max(R) * p["a"] > 0.13:
                continue
            A, B = R
            sel = on & (np.hypot((kf[0] - c[0]) / A, (kf[1] - c[1]) / B) < 1.5)
            t = (np.arange(2000) + 0.5) / 2000 * 2 * np.pi
            L = np.mean(np.hypot(A * np.sin(t), B * np.cos(t))) * 2 * np.pi
            mon.close("small sheet length", np.sum(np.asarray(o.dks)[sel]), L, 0.01 + 0.5 * (cell / min(R)) ** 2, {"radii": R, "plane": j})


def run(case, mon):
    p = case["band"]
    eps, km, lat = p["eps"], p["k_max"], (p["a"], p["b"], p["c"])
    m = model_of(p)
    o = wl.band(p, march_square=case["square"])
    res = [r if r % 2 else r + 1 for r in p["resolution"]]
    ax = grid_axes(km, lat, res)
    Ec = m.E(*np.meshgrid(*ax, indexing="ij"))
    if case.get("tiny"):
        o.discretize_fermi_surface(epsilon=eps)
        mon.seen(p, "tiny")
        return run_tiny(p, o, mon)
    if not (Ec.min() < eps < Ec.max()):
        mon.event("no surface")
        return
    if "before" in p:
        if Ec.min() < p["before"] < Ec.max():
            o.discretize_fermi_surface(epsilon=p["before"])
            mon.event("discretized twice")
    o.discretize_fermi_surface(epsilon=eps)
    mon.seen(p, case["square"])
    kf, w = np.asarray(o.kf), np.asarray(o.dkf)
    fs = functions(p)
    if not case["square"]:
        mon.ok("positive", np.all(w >= 0) and np.all(np.isfinite(w)) and np.mean(w > 0) > 0.95, lambda: {"min": np.min(w), "zero": int(np.sum(w <= 0))})
        h = [min(2 * r - 1, 121 if i < 2 else 61) for i, r in enumerate(res)]
        ref, tr, ar = surface_integral(m, km, h, list(fs.values()), eps)
        if len(tr) < 2000:
            mon.event("small surface")
            return
        # same-resolution reference: the discretization error itself
        ref1, tr1, ar1 = surface_integral(m, km, res, list(fs.values()), eps)
        for (name, f), r, r1 in zip(fs.items(), ref, ref1):
            # the same with the values taken at the corners of the triangles
            r2 = float(np.sum(ar1 / 3 * sum(f(*tr1[:, i].T) for i in range(3))))
            r1 = r + max(abs(r1 - r), abs(r2 - r))
            got = float(np.sum(w * f(*kf)))
            # z runs over the half steps of a coarse grid: the corners of the cubes' triangles sample it unevenly
            base = 0.02 if name not in ("z2", "up") else 0.02 + 1.5 / res[2] ** 2 + 0.3 / res[2]
            sc = max(abs(r), 0.1 * ref[0])
            tol = base + 3 * abs(r1 - r) / sc
            mon.close("area" if name == "1" else "integral", got, r, min(tol, 0.25), {"f": name, "res": res}, scale=sc)
        return
    # ---------------- slices
    mon.ok("positive", np.all(w > 0) and np.all(np.isfinite(w)), lambda: {"min": np.min(w)})
    kz = np.linspace(-km[2] / lat[2], km[2] / lat[2], res[2])
    dz = kz[1] - kz[0]
    mon.close("weight", w, np.asarray(o.dks) * np.asarray(o.dkz), 1e-12, scale=w)
    lim = [km[i] / lat[i] for i in range(3)]
    mon.ok("plane count", len(o.number_of_points_per_kz_list) == res[2], lambda: {"list": o.number_of_points_per_kz_list})
    start = 0
    planes = 0
    hs = set()
    for j, z in enumerate(kz):
        sel = np.abs(kf[2] - z) < 1e-9 * lim[2]
        cnt = int(sel.sum())
        want = o.number_of_points_per_kz_list[j] if j < len(o.number_of_points_per_kz_list) else -1
        mon.ok("plane count", cnt == want and np.all(sel[start:start + cnt]), lambda: {"plane": j, "points": cnt, "recorded": want})
        start += cnt
        gx = [np.linspace(-lim[i], lim[i], 801) for i in range(2)]
        X, Y = np.meshgrid(*gx, indexing="ij")
        seg = contour_segments(m.E(X, Y, np.full_like(X, z)), gx[0], gx[1], eps)
        if len(seg) < 200:
            continue
        planes += 1
        ln = seg_length(seg)
        mid = seg.mean(1)
        hs.update(np.round(np.asarray(o.dkz)[sel] / dz, 9).tolist())
        # open arcs lose half a step at each end of the polyline; long steps shorten curved contours
        npts = max(cnt, 1)
        tol = 0.006 + 2.0 / npts
        # the dropped end points of arcs shift weight by at most one step per arc
        for name, f in fs.items():
            if name in ("z2", "up"):
                continue
            r = float(np.sum(ln * f(mid[:, 0], mid[:, 1], np.full(len(mid), z))))
            g = float(np.sum(np.asarray(o.dks)[sel] * f(kf[0, sel], kf[1, sel], kf[2, sel])))
            if name == "1":
                mon.close("plane length", g, r, 0.001, {"plane": j, "points": cnt}, scale=ln.sum())
            else:
                mon.close("plane integral", g, r, tol * 2, {"plane": j, "f": name, "points": cnt}, scale=max(abs(r), 0.3 * ln.sum()))
    if planes == res[2]:
        # spacing: the planes together span the height of the box
        mon.ok("spacing", len(hs) >= 1 and all(x > 0 for x in hs), {"dkz/dz": sorted(hs)})
        tot = sum(np.asarray(o.dkz)[np.abs(kf[2] - z) < 1e-9 * lim[2]][0] for z in kz)
        H = 2 * lim[2]
        if abs(tot / H - res[2] / (res[2] - 1)) < 1e-9:
            mon.known_finding("kz-overcount", {"planes": res[2], "sum of spacings / height": tot / H})
            mon.ok("height", True)
        else:
            mon.close("height", tot, H, 1e-9)
