"""C04: points lie on the requested iso-energy surface, inside the box, on every part of it (reference surface by own marching
tetrahedra / own contour tracing), with the right velocities."""
import numpy as np
from scipy.spatial import cKDTree

from . import wl
from .ref import model_of, grid_axes, tetra_surface, contour_segments, hbar

RULE = ("random bands (single sheets, closed 3-D pockets, cylinders, several pockets, tetragonal and orthorhombic), energy offsets, box sizes "
        "and resolutions, both discretization methods; each point is tested against the band model, each piece of an independently traced "
        "reference surface must have a point nearby. Distinct = distinct (band, offset, method).")
NEED = {"on surface": 5000, "in box": 20, "covered": 2000, "velocity": 5000, "cubes": 15, "squares": 15, "empty planes": 1, "small sheet": 30}


def gen(rng, sq):
    k = int(rng.integers(0, 7))
    if k == 0:
        n = [13, 17, 21, 27][int(rng.integers(0, 4))]
        if rng.random() < 0.3:        # small against the box
            p = wl.para3(rng, hole=bool(rng.integers(0, 2)), res=(n, n + 2, n), kF=rng.uniform(0.12, 0.3), tetra=sq and bool(rng.integers(0, 2)))
            if p["a"] == p["b"]:
                p["resolution"] = [n, n, n]
        elif sq:
            p = wl.para3(rng, hole=bool(rng.integers(0, 2)), res=(n, n, n), tetra=bool(rng.integers(0, 2)))
        else:
            p = wl.para3(rng, hole=bool(rng.integers(0, 2)), offd=bool(rng.integers(0, 2)), res=(n, n + 2, n + 4))
    elif k == 1:
        p = wl.para2(rng, hole=bool(rng.integers(0, 2)), res=(21, 23, 5), iso=sq and bool(rng.integers(0, 2)))
    elif k == 2:
        p = wl.pockets(rng, res=(31, 31, 7))
    elif k == 3:
        p = wl.general(rng, res=(25, 25, 9))
    else:
        p = wl.cuprate(rng, res=(int(rng.integers(19, 36)), int(rng.integers(19, 36)), int(rng.integers(3, 9))))
    if k >= 2 and rng.random() < 0.25:
        q = wl.U(rng, 0.8, 1.9, 3)
        p["k_max"] = [q * p["k_max"][0], (q if p["a"] == p["b"] else wl.U(rng, 0.8, 1.9, 3)) * p["k_max"][1], wl.U(rng, 0.8, 1.6, 3) * p["k_max"][2]]
    if k >= 2 and rng.random() < 0.15:
        p["k_max"][2] = wl.U(rng, 2, 3.5, 3) * np.pi
    if rng.random() < 0.12:       # fine
        n = int(rng.integers(61, 85))
        p["resolution"] = [n, n + (0 if p["a"] == p["b"] else 4), 5 if sq else 21]
    p["number_of_bz"] = int(rng.choice([1, 1, 2, 4]))
    w = p["energy_scale"] if k > 1 else p["band_params"]["mu"]
    p["eps"] = wl.f(rng.uniform(-0.06, 0.06) * w, 4) if rng.random() < 0.7 else 0
    if rng.random() < 0.4:        # the object has discretized another surface, or this one, before
        p["before"] = [0, p["eps"]][int(rng.integers(0, 2))] if rng.random() < 0.4 else wl.f(p["eps"] + 0.03 * w, 4)
    return p


def cases(rng, tier):
    out = []
    for i in range(64 if tier == "quick" else 1500):
        sq = bool(i % 2)
        p = gen(rng, sq)
        out.append({"env": "nojit", "band": p, "square": sq, "kz": bool(rng.integers(0, 2)), "via_run": bool(rng.integers(0, 2))})
        if max(p["resolution"]) > 60:         # (its filling would be counted on a grid ten times finer)
            out[-1]["via_run"] = False
    for i in range(2 if tier == "quick" else 20):
        out.append({"env": "jit", "band": dict(wl.cuprate(rng, ortho=False, res=(21, 21, 5)), eps=3.0), "square": bool(i % 2),
                    "kz": False, "via_run": True})
    # open sheets, flat or not, across each axis
    for i in range(9 if tier == "quick" else 120):
        sq = bool(i % 3 == 2)
        p = wl.sheet(rng, i % 3 if not sq else i // 3 % 2, bool(i % 2), res=(21, 23, 19))
        out.append({"env": "nojit", "band": dict(p, eps=wl.f(rng.uniform(-0.06, 0.06) * p["energy_scale"], 4)), "square": sq, "kz": False, "via_run": bool(i % 2)})
    # sheets of a few cells of the contouring grid, around known centres
    for i in range(15 if tier == "quick" else 150):
        out.append({"env": "nojit", "band": tiny(rng, i % 5), "square": True, "tiny": True})
    # a closed pocket in slices: the first and last planes hold no contour
    for i in range(2):
        out.append({"env": "nojit", "band": dict(wl.para3(rng, res=(17, 17, 13), tetra=bool(i)), eps=0), "square": True,
                    "kz": False, "via_run": True, "closed": True})
    return out


def tiny(rng, k):
    r = float(np.exp(rng.uniform(np.log(2.5), np.log(20)))) * np.pi / 500       # radius times the lattice constant
    if k < 2:
        p = wl.pockets(rng, res=(int(rng.integers(15, 61)),) * 2 + (3,), ortho=bool(k))
        p["band_params"]["mu"] = 1 - r * r
        p["band_params"]["d"] = 0.0
        lat = (p["a"], p["b"])
        p["centres"] = [[sx * np.pi / 2 / lat[0], sy * np.pi / 2 / lat[1]] for sx in (1, -1) for sy in (1, -1)]
        p["radii"] = [[r / lat[0], r / lat[1]]] * 4
    elif k == 4:         # small and large sheets in the same plane
        p = wl.pockets(rng, res=(int(rng.integers(15, 61)),) * 2 + (3,), ortho=True)
        R = wl.U(rng, 0.1, 0.3)
        d = (R * R - r * r) / 2 if R > r else 0.0
        p["band_params"].update(mu=1 - r * r - d, d=d)
        p["band_model"] = "t*(cos(2*a*kx) + cos(2*b*ky))/2 + mu + d*sin(a*kx)"
        lat = (p["a"], p["b"])
        p["centres"] = [[sx * np.pi / 2 / lat[0], sy * np.pi / 2 / lat[1]] for sx in (1, -1) for sy in (1, -1)]
        p["radii"] = []
        for sx, sy in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
            q = np.sqrt(1 - p["band_params"]["mu"] - sx * d)
            p["radii"].append([float(q / np.sqrt(1 - sx * d / 4) / lat[0]), float(q / lat[1])])
    else:
        p = wl.para2(rng, hole=bool(rng.integers(0, 2)), iso=k == 2, res=(int(rng.integers(15, 61)),) * 2 + (5,))
        bp = p["band_params"]
        bp["mu"] = max(bp["Ex"] / p["a"] ** 2, bp["Ey"] / p["b"] ** 2) * r * r
        p["centres"] = [[0.0, 0.0]]
        p["radii"] = [[float(np.sqrt(bp["mu"] / bp["Ex"])), float(np.sqrt(bp["mu"] / bp["Ey"]))]]
    p["eps"] = 0
    return p


def run_tiny(p, o, mon):
    kf = np.asarray(o.kf)
    used = np.zeros(kf.shape[1], bool)
    for z in np.linspace(-p["k_max"][2] / p["c"], p["k_max"][2] / p["c"], p["resolution"][2]):
        for c, R in zip(p["centres"], p["radii"]):
            R = np.array(R)[:, None]
            q = (kf[:2] - np.array(c)[:, None]) / R
            sel = (np.abs(kf[2] - z) < 1e-9) & (np.hypot(*q) < 1.5)
            used |= sel
            ph = np.sort(np.arctan2(q[1, sel], q[0, sel]))
            gap = np.max(np.diff(np.append(ph, ph[0] + 2 * np.pi))) if len(ph) else np.inf
            mon.ok("small sheet", len(ph) >= 3 and np.rad2deg(gap) < 200, lambda: {"centre": c, "plane": z, "points": len(ph), "widest gap (deg)": np.rad2deg(gap), "radii": R[:, 0]})
            if len(ph) and R.max() * p["a"] < 0.13:
                # chords of the contouring grid lie inside by up to an eighth of a cell squared over the radius
                cell = np.pi / 500 / min(p["a"], p["b"])
                mon.close("small radius", np.hypot(*q[:, sel]), np.ones(len(ph)), 0.01 + 0.3 * (cell / R.min()) ** 2)
    mon.ok("small stray", used.all(), lambda: {"points away from every sheet": int((~used).sum())})


def second(m, kmax, lat):
    """bounds on |d2E/dk_i^2| over the box"""
    ax = grid_axes(kmax, lat, (41, 41, 21))
    X, Y, Z = np.meshgrid(*ax, indexing="ij")
    out = []
    for i, d in enumerate(((1e-3, 0, 0), (0, 1e-3, 0), (0, 0, 1e-3))):
        e = (m.E(X + d[0], Y + d[1], Z + d[2]) - 2 * m.E(X, Y, Z) + m.E(X - d[0], Y - d[1], Z - d[2])) / 1e-6
        out.append(np.max(np.abs(e)))
    d = 1e-3
    e = (m.E(X + d, Y + d, Z) + m.E(X - d, Y - d, Z) - m.E(X + d, Y - d, Z) - m.E(X - d, Y + d, Z)) / (4 * d * d)
    return np.array(out), np.max(np.abs(e))


def run(case, mon):
    p = case["band"]
    eps = p["eps"]
    lat = (p["a"], p["b"], p["c"])
    km = p["k_max"]
    o = wl.band(p, march_square=case["square"])
    m = model_of(p)
    res = [r if r % 2 else r + 1 for r in p["resolution"]]
    mon.ok("odd resolution", list(o.resolution) == res, {"resolution": o.resolution})
    # anything to find?  (a surface too small for the grid is out of scope)
    axc = grid_axes(km, lat, res)
    Ec = m.E(*np.meshgrid(*axc, indexing="ij"))
    if not case.get("tiny") and not (Ec.min() < eps < Ec.max()):
        mon.event("no surface")
        return
    if "before" in p and Ec.min() < p["before"] < Ec.max():
        o.discretize_fermi_surface(epsilon=p["before"])
        mon.event("discretized before")
    if case.get("via_run"):
        o.runBandStructure(epsilon=eps)
    else:
        o.discretize_fermi_surface(epsilon=eps)
    if case.get("tiny"):
        mon.seen(p, "tiny")
        return run_tiny(p, o, mon)
    mon.event("squares" if case["square"] else "cubes")
    mon.seen(p, case["square"])
    kf = np.asarray(o.kf)
    n = kf.shape[1] if kf.ndim == 2 else -1
    mon.ok("layout", kf.ndim == 2 and kf.shape[0] == 3 and o.dkf.shape == (n,) and o.vf.shape == (3, n) and o.dos_k.shape == (n,) and n > 0,
           lambda: {"kf": kf.shape, "dkf": np.shape(o.dkf), "vf": np.shape(o.vf)})
    # ---- inside the box
    lim = np.array([km[i] / lat[i] for i in range(3)])[:, None]
    mon.ok("in box", np.all(np.abs(kf) <= lim * (1 + 2e-6)), lambda: {"over": np.max(np.abs(kf) / lim, axis=1)})
    # ---- on the surface
    E = m.E(*kf)
    g = np.sqrt(sum(x ** 2 for x in m.gradE(*kf)))
    d2, dxy = second(m, km, lat)
    if case["square"]:
        nn = (o.res_xy_rough - 1) if p["a"] == p["b"] else (2 * o.res_xy_rough - 1) / 2
        hx, hy = km[0] / lat[0] / nn, km[1] / lat[1] / nn
        tol = (d2[0] * hx ** 2 + d2[1] * hy ** 2 + 2 * dxy * hx * hy) / 8 * 1.5 + 1e-9 * np.max(np.abs(Ec))
    else:
        h = np.array([ax[1] - ax[0] for ax in axc])
        tol = np.max(d2 * h ** 2) / 8 * 1.15 + 1e-6 * (np.max(g) * np.max(lim))
    mon.close("on surface", E, np.full(n, float(eps)), 1.0, {"eps": eps, "square": case["square"]}, scale=tol)
    # ---- velocities at those points
    v = np.array(m.v(*kf))
    mon.close("velocity", o.vf, v, 1e-9)
    mon.close("dos", o.dos_k, 1 / (hbar * np.sqrt((o.vf ** 2).sum(0))), 1e-9, scale=np.abs(o.dos_k))
    # ---- coverage
    if case["square"]:
        kz = np.linspace(-km[2] / lat[2], km[2] / lat[2], res[2])
        step = np.pi / res[0] / p["a"]
        used = np.zeros(n, bool)
        start = 0
        empty = 0
        for z in kz:
            sel = np.abs(kf[2] - z) < 1e-9 * lim[2]
            used |= sel
            ax = [np.linspace(-lim[i, 0], lim[i, 0], 401) for i in range(2)]
            X, Y = np.meshgrid(*ax, indexing="ij")
            seg = contour_segments(m.E(X, Y, np.full_like(X, z)), ax[0], ax[1], eps)
            if len(seg) == 0 or len(seg) < 40:     # a vanishing contour
                empty += len(seg) == 0
                if len(seg) == 0:
                    mon.ok("stray", not sel.any(), {"plane": z, "points": int(sel.sum())})
                continue
            mid = seg.mean(1)
            # tiny contours of 4 points: allow a quarter of the contour
            if not sel.any():
                mon.fail("covered", {"plane without points": z})
                continue
            t = cKDTree(kf[:2, sel].T)
            dist = t.query(mid)[0]
            mon.close("covered", dist, np.zeros(len(dist)), 1.3, {"plane": z, "square": True}, scale=step + 2 * (ax[0][1] - ax[0][0]))
        mon.ok("on a plane", used.all(), lambda: {"off-plane points": int((~used).sum())})
        if empty:
            mon.event("empty planes")
    else:
        nr = [min(2 * r + 1, 61) for r in res]
        ax = grid_axes(km, lat, nr)
        tr = tetra_surface(m.E(*np.meshgrid(*ax, indexing="ij")), ax, eps)
        ce = tr.mean(1)
        # both grids see a sheet: compare in units of their cell
        h = np.array([a[1] - a[0] for a in axc])
        # leave out parts within a cell of the box, and pockets smaller than a cell
        t = cKDTree((kf / h[:, None]).T)
        dist = t.query(ce / h)[0]
        # a sheet thinner than one cell is not resolved: require that the coarse grid sees a sign change around it
        idx = [np.clip(((ce[:, i] - axc[i][0]) / h[i]).astype(int), 0, len(axc[i]) - 2) for i in range(3)]
        lo = np.full(len(ce), np.inf)
        hi = -lo
        for a in (0, 1):
            for b in (0, 1):
                for c in (0, 1):
                    e = Ec[idx[0] + a, idx[1] + b, idx[2] + c]
                    lo, hi = np.minimum(lo, e), np.maximum(hi, e)
        vis = (lo < eps) & (hi > eps)
        mon.close("covered", dist[vis], np.zeros(int(vis.sum())), 1.0, {"square": False}, scale=2.0)
    # ---- no duplicated part
    q = np.unique(np.round(kf / lim, 7), axis=1).shape[1]
    mon.ok("duplicates", n - q <= max(2, 0.02 * n), lambda: {"points": n, "distinct": q})
