"""C25: every figure created is captured at its creation and its artists (lines, markers, contours, arrows, collections, tables, texts, axis limits)
are read back and compared with the computed values; published state before and after, and the results of later runs, are compared bit by bit."""
import copy
import os
import re

import numpy as np

from . import fits, ref, wl

RULE = ("all figures of bands (slices and cubes, orthorhombic, several k_max, several sheets, planes without surface, models without kz dispersion), conductivities (T = 0 and finite, parameters changed since construction, "
        "orbit indices, planes, given and default color limits), angle scans (1-3 bands, 1-8 azimuths, normalization angle anywhere, shown or not, saved or not, names and folders) and fits, with the state around them. Distinct = distinct (object, figure, arguments).")
NEED = {"scan curves": 20, "points": 10, "arrows": 10, "contour": 60, "orbit": 20, "along orbit": 20, "rate colors": 20, "rate points": 15, "window": 5, "table": 40, "pages": 20, "state": 300, "later run": 200,
        "files": 20, "color range": 20, "right axis": 10, "fit curves": 12, "dopings": 6, "plane": 30}
ASSUMPTIONS = ["figures of orbits need a field, the window figure a temperature, slices figures the slice-wise method (as documented)",
               "what is drawn is read from the artists given to matplotlib, not from rendered pixels"]
CASE_TIMEOUT = 500


def gen(rng, kind=None, T=0.0):
    k = int(rng.integers(0, 5)) if kind is None else kind
    if k == 0:
        p = wl.general(rng, res=(9, 9, 5))
    elif k == 1:
        p = wl.pockets(rng, res=(15, 15, 5))
    elif k == 2:
        p = wl.para2(rng, res=(9, 9, 5))
        p["k_max"] = [float(np.pi)] * 3
    else:
        p = wl.cuprate(rng, res=(9, 9, 5))
        p["band_params"]["tz"] = wl.U(rng, 0.08, 0.15)
    mod, sp = wl.scattering(rng)
    p.update(scattering_models=mod, scattering_params=sp, Bamp=wl.U(rng, 15, 45, 1), Btheta=wl.U(rng, 0, 80, 1), Bphi=wl.U(rng, 0, 90, 1), N_time=int(rng.integers(20, 60)), T=T,
             N_epsilon=3, dfdE_cut_percent=0.2, band_name="band_%d" % int(rng.integers(0, 99)), number_of_bz=int(rng.choice([1, 1, 2])))
    p["k_max"] = [float(x) for x in p["k_max"]]
    return p


def cases(rng, tier):
    out = []
    q = tier == "quick"
    for i in range(14 if q else 200):
        p = gen(rng, [3, 0, 1, 2, 4][i % 5])
        if i % 7 == 6:
            p["march"] = False
        else:
            p["march"] = True
        out.append({"env": "nojit", "kind": "band", "p": p, "scale": [0, 0.3][i % 2]})
    for i in range(24 if q else 400):
        p = gen(rng, None if i % 3 else [1, 2, 0][i // 3 % 3], T=[0.0, 0.0, 6.0][i % 3])
        if i % 8 == 5:         # a closed pocket away from the plane kz = 0: none of its surface is there
            p = dict(gen(rng, 0), T=0.0)
            p["band_model"] = "-mu - w*(cos(a*kx)+cos(b*ky)) + 4*g*cos(c*kz)"
            p["band_params"] = {"w": 1, "g": 0.5, "mu": -3.0}
            p["resolution"] = [15, 15, 15]
        out.append({"env": "nojit", "kind": "cond", "p": p, "march": bool(rng.integers(0, 2)) and p["T"] == 0 and i % 8 != 5, "change": bool(rng.integers(0, 2)), "kz": float(rng.choice([0, 0, 0.5, 1, -1])), "lim": [None, None, 3.0][int(rng.integers(0, 3))],
                    "limx": [None, 90.0][int(rng.integers(0, 2))], "seed": int(rng.integers(0, 1 << 30))})
    for i in range(14 if q else 200):
        nb = [1, 2, 3][i % 3]
        bands = [gen(rng, [3, 0, 1][int(rng.integers(0, 3))]) for _ in range(nb)]
        out.append({"env": "nojit", "kind": "admr", "bands": bands, "phis": [wl.U(rng, 0, 90, 1) for _ in range([1, 2, 4, 6, 8][i % 5])], "lo": float(rng.choice([0, 0, 10, -20])), "step": 15.0, "n": int(rng.integers(3, 6)),
                    "norm": float(rng.choice([0, 0, 15, 22, 37])), "show": bool(i % 2), "save": bool(i % 4 < 3), "name": [None, "my_scan.pdf"][i // 2 % 2], "folder": bool(i % 3), "seed": int(rng.integers(0, 1 << 30))})
    for i in range(8 if q else 80):
        kind = ["multi", "one", "series", "seriesM"][i % 4]
        out.append({"env": "nojit", "kind": kind, "member": fits.band_dict(rng, "b0"), "norm": bool(i // 4 % 2), "phis": [[0, 45], [15.0], [0, 10, 20, 30, 35, 40, 45, 5]][i % 3], "Ts": [[6, 25], [12]][int(rng.integers(0, 2))],
                    "lo": 0, "hi": 40, "st": 20, "show": bool(i % 2), "seed": int(rng.integers(0, 1 << 30))})
    p = gen(rng, 2)
    out.append({"env": "jit", "kind": "cond", "p": p, "march": True, "change": True, "kz": 0.5, "lim": None, "limx": None, "seed": 5})
    out.append({"env": "jit", "kind": "band", "p": dict(p, march=True), "scale": 0.3})
    return out


# ------------------------------------------------------------------------------------------------ capture
class Capture:
    """figures created inside the with-block, in order, also those closed again"""

    def __enter__(self):
        import matplotlib.figure as mf
        self.figs = []
        self.real = mf.Figure.__init__
        real, figs = self.real, self.figs

        def init(this, *a, **k):
            real(this, *a, **k)
            figs.append(this)
        mf.Figure.__init__ = init
        return self

    def __exit__(self, *a):
        import matplotlib.figure as mf
        mf.Figure.__init__ = self.real


def lines(fig):
    out = []
    for ax in fig.axes:
        for l in ax.lines:
            if hasattr(l, "get_data_3d"):
                continue
            x = l.get_transform().contains_branch(ax.transData)
            out.append((ax, l, np.array(l.get_xdata(orig=False), float), np.array(l.get_ydata(orig=False), float), x))
    return out


def find_line(fig, x, y, rtol=1e-9):
    """the lines whose data are exactly these"""
    x, y = np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(y, float))
    sx, sy = np.abs(x).max() + 1e-300, np.abs(y).max() + 1e-300
    return [(ax, l) for ax, l, u, v, _ in lines(fig) if u.shape == x.shape and v.shape == y.shape and np.all(np.abs(u - x) <= rtol * sx) and np.all(np.abs(v - y) <= rtol * sy)]


def label_number(l):
    m = re.search(r"=\s*(-?[\d.]+)$", l.get_label())
    return float(m.group(1)) if m else None


def contour_sets(fig):
    from matplotlib.contour import ContourSet
    out = []
    for ax in fig.axes:
        for c in ax.collections:
            if isinstance(c, ContourSet):
                v = [p.vertices for p in c.get_paths() if len(p.vertices)]
                out.append((ax, c, np.concatenate(v) if v else np.zeros((0, 2))))
    return out


def texts(fig):
    return [t for t in list(fig.texts) + [t for ax in fig.axes for t in ax.texts]]


def near(a, b):
    """largest distance from a point of a to the nearest of b"""
    from scipy.spatial import cKDTree
    if len(a) == 0:
        return 0.0
    if len(b) == 0:
        return np.inf
    return float(cKDTree(b).query(a)[0].max())


_fine = {}


def fine(p, kz, box, n=701):
    """own zero contour of the plane (units of 1/a, 1/b) in the box"""
    key = repr((sorted(p["band_params"].items()), p["band_model"], p["energy_scale"], p["a"], p["b"], p["c"], kz, box))
    if key not in _fine:
        if len(_fine) > 60:
            _fine.clear()
        M = ref.model_of(p)
        ax, ay = np.linspace(-box[0] / p["a"], box[0] / p["a"], n), np.linspace(-box[1] / p["b"], box[1] / p["b"], n)
        X, Y = np.meshgrid(ax, ay, indexing="ij")
        s = ref.contour_segments(M.E(X, Y, np.full_like(X, kz)), ax, ay)
        _fine[key] = s.reshape(-1, 2) * np.array([p["a"], p["b"]])
    return _fine[key]


def contour_ok(mon, fig, p, kz, box, h, info, axes=None):
    """one of the drawn contours is the Fermi surface of the plane kz inside the box; returns it"""
    want = fine(p, kz, box)
    want = want[(np.abs(want[:, 0]) <= box[0]) & (np.abs(want[:, 1]) <= box[1])]
    best, best_d = None, np.inf
    for ax, c, v in contour_sets(fig):
        if axes is not None and ax is not axes:
            continue
        w = v[(np.abs(v[:, 0]) <= box[0]) & (np.abs(v[:, 1]) <= box[1])]
        d = max(near(w, want), near(want, w) if len(want) else 0.0) if len(v) or len(want) else 0.0
        if d < best_d:
            best, best_d = c, d
    mon.ok("contour", best is not None and best_d <= 2 * h, lambda: {"kz*c/pi": kz * p["c"] / np.pi, "distance": best_d, "allowed": 2 * h, **info()})
    return best


BPUB = ("kf", "vf", "dkf", "dos_k", "dks", "dkz", "n", "p", "mass", "dos_epsilon", "number_of_points_per_kz_list", "a", "b", "c", "energy_scale", "band_params", "resolution", "k_max", "number_of_bz", "band_name", "march_square")
CPUB = ("sigma", "alpha", "beta", "kft", "vft", "t_o_tau", "tau_tot", "time_array", "time_max", "dtime", "gamma_tot_max", "gamma_tot_min", "Bamp", "Btheta", "Bphi", "B_vector", "N_time", "T", "N_epsilon", "dfdE_cut_percent",
        "rtol", "atol", "scattering_models", "scattering_params")
APUB = ("rhozz_array", "rzz_array", "Btheta_array", "Bphi_array", "Btheta_norm", "Btheta_min", "Btheta_max", "Btheta_step", "total_filling", "total_hole_doping", "band_names")


def pub(o, names):
    return {k: copy.deepcopy(getattr(o, k)) for k in names if hasattr(o, k)}


def pub_cond(c):
    d = {"cond." + k: v for k, v in pub(c, CPUB).items()}
    d.update({"band." + k: v for k, v in pub(c.bandObject, BPUB).items()})
    d.update({"param." + k: getattr(c, k) for k in c.scattering_params})
    if c.T != 0:
        d["eps"] = np.array(c.epsilon_array)
    return d


def bits(v):
    if isinstance(v, np.ndarray):
        return (v.shape, str(v.dtype), v.tobytes())
    if isinstance(v, dict):
        return [(k, bits(x)) for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [bits(x) for x in v]
    return repr(v)


def compare(mon, kind, a, b, info):
    for k in sorted(set(a) | set(b)):
        mon.ok(kind, k in a and k in b and bits(a[k]) == bits(b[k]), lambda: {"changed": k, "before": a.get(k), "after": b.get(k), **info()})


def run(case, mon):
    import matplotlib.pyplot as plt
    d = os.path.join(mon.scratch, "here")
    os.makedirs(d)
    os.chdir(d)
    try:
        {"band": run_band, "cond": run_cond, "admr": run_admr}.get(case["kind"], run_fit)(case, mon)
    finally:
        plt.close("all")


# ------------------------------------------------------------------------------------------------ bands
def plane_label(fig, p, kz, mon, info):
    """a text names the plane: number of pi / c"""
    n = np.round(kz * p["c"] / np.pi, 1)
    found = []
    for t in texts(fig):
        s = t.get_text().replace("$", "").replace(" ", "").replace("\\rm", "")
        m = re.search(r"k_\{?z\}?=(-?[\d.]*)(?:\\pi/c)?", s)
        if m and m.group(1) not in ("", "-"):
            found.append(float(m.group(1)))
    mon.ok("plane", any(abs(f - n) < 1e-9 for f in found), lambda: {"texts": [t.get_text() for t in texts(fig)], "want": n, **info()})


def run_band(case, mon):
    p = case["p"]
    b = wl.band(p, march_square=p["march"], clamp=60)
    b.runBandStructure()
    control = wl.band(p, march_square=p["march"], clamp=60)
    control.runBandStructure()
    a, bb, c = p["a"], p["b"], p["c"]
    K = p["k_max"]
    kf, vf = np.array(b.kf), np.array(b.vf)
    before = pub(b, BPUB)
    M = ref.model_of(p)

    def drawn(name, *x, **k):
        with Capture() as C:
            getattr(b, name)(*x, **k)
        mon.seen(p, name, x, k)
        mon.event(name)
        compare(mon, "state", before, pub(b, BPUB), lambda: {"figure": name, "march": p["march"]})
        mon.ok("pages", len(C.figs) == 1, lambda: {"figures": len(C.figs), "of": name})
        return C.figs[0]

    def info(name):
        return lambda: {"figure": name, "p": {k: p[k] for k in ("a", "b", "c", "band_params", "band_model", "energy_scale", "k_max", "resolution")}, "march": p["march"]}
    # slices
    f = drawn("figDiscretizeFS2D", meshXY=401)
    if p["march"]:
        i = info("figDiscretizeFS2D")
        kz = K[2] / c
        contour_ok(mon, f, p, kz, K[:2], 2 * K[0] / 400, i)
        plane_label(f, p, kz, mon, i)
        s = np.abs(kf[2] - kz) < 1e-9
        if s.any():
            x, y = kf[0, s] * a, kf[1, s] * bb
            hit = find_line(f, x, y, 1e-9)
            if not hit:       # in any order
                hit = [1 for ax, l, u, v, _ in lines(f) if u.shape == x.shape and near(np.c_[u, v], np.c_[x, y]) < 1e-9 and near(np.c_[x, y], np.c_[u, v]) < 1e-9]
            mon.ok("points", hit, lambda: {"points of the plane": int(s.sum()), "lines": [len(u) for _, _, u, _, _ in lines(f)], **i()})
            arrows(mon, f, x, y, vf[0, s], vf[1, s], i)
    else:
        check3d(mon, f, b, kf, vf, K, (a, bb, c), 0, info("figDiscretizeFS2D of cubes"))
    f = drawn("figDiscretizeFS3D", scale_velocities=case["scale"])
    check3d(mon, f, b, kf, vf, K, (a, bb, c), case["scale"], info("figDiscretizeFS3D"))
    # several planes
    f = drawn("figMultipleFS2D")
    i = info("figMultipleFS2D")
    col = {}
    for nz in (0.0, 0.5, 1.0):
        cs = contour_ok(mon, f, p, nz * K[2] / c, K[:2], 8 * K[0] / 500, i)
        col[nz] = cs
    N = 2.0 / (60 * 60) / p["number_of_bz"]
    X, Y = np.meshgrid(np.linspace(-K[0] / a, K[0] / a, 60), np.linspace(-K[1] / bb, K[1] / bb, 60), indexing="ij")
    pz = {nz: 1 - N * np.sum(M.E(X, Y, np.full_like(X, nz * K[2] / c)) <= 0) for nz in (0.0, 0.5, 1.0)}
    from matplotlib.colors import to_hex
    rows = {}
    for t in texts(f):
        rows.setdefault(to_hex(t.get_color()), []).append(t.get_text())
    rows.pop(to_hex("k"), None)
    got = {}
    for color, tx in rows.items():
        num = []
        for s in tx:
            s = s.replace("$", "").replace(" ", "")
            m = re.fullmatch(r"(-?[\d.]+)(\\pi/c)?", s)
            if m:
                num.append((float(m.group(1)), bool(m.group(2))))
        if len(num) == 2:
            got[color] = num
    if mon.ok("dopings", len(got) == 3, lambda: {"rows": rows, **i()}):
        for color, num in got.items():
            plane = [v for v, isp in num if isp]
            nz = float(plane[0]) / np.round(K[2] / np.pi, 1) if plane else 0.0
            val = num[1][0]
            near_nz = min(pz, key=lambda q: abs(q - nz))
            mon.ok("dopings", abs(nz - near_nz) < 0.02 and abs(val - pz[near_nz]) <= 6e-4 + 4 * N, lambda: {"plane": num, "want": pz, "color": color, **i()})
            # the contour of that color is the one of the plane of the row
            want = fine(p, near_nz * K[2] / c, K[:2])
            mine = [v for _, cs, v in contour_sets(f) if len(cs.get_edgecolor()) and to_hex(cs.get_edgecolor()[0]) == color]
            if len(want):
                ok = False
                for v in mine:
                    w = v[(np.abs(v[:, 0]) <= K[0]) & (np.abs(v[:, 1]) <= K[1])]
                    ok = ok or max(near(w, want), near(want, w)) <= 16 * K[0] / 500
                mon.ok("contour", ok, lambda: {"row": num, "color": color, "contours of that color": len(mine), **i()})
    tot = [t.get_text() for t in texts(f) if "tot" in t.get_text()]
    v = re.search(r"=\s*(-?[\d.]+)", tot[0]) if tot else None
    own = own_total(p, M, 60)
    mon.ok("dopings", v is not None and abs(float(v.group(1)) - own) < 1.5e-3, lambda: {"text": tot, "want": own, **i()})
    # later results
    control.mass = None
    b.runBandStructure()
    control.runBandStructure()
    compare(mon, "later run", pub(control, BPUB), pub(b, BPUB), lambda: {"after": "all figures of the band"})


def own_total(p, M, n):
    ax = ref.grid_axes(p["k_max"], (p["a"], p["b"], p["c"]), (n, n, n))
    X, Y, Z = np.meshgrid(*ax, indexing="ij")
    return 1 - 2 * np.mean(M.E(X, Y, Z) <= 0) / p["number_of_bz"]


def arrows(mon, fig, x, y, u, v, info):
    from matplotlib.quiver import Quiver
    ok = False
    for ax in fig.axes:
        for q in ax.collections:
            if isinstance(q, Quiver) and q.N == len(x):
                A = np.c_[np.asarray(q.X), np.asarray(q.Y), np.asarray(q.U) / np.abs(u).max(), np.asarray(q.V) / np.abs(u).max()]
                B = np.c_[x, y, u / np.abs(u).max(), v / np.abs(u).max()]
                ok = ok or (near(A, B) < 1e-6 and near(B, A) < 1e-6)
    mon.ok("arrows", ok, info)


def check3d(mon, fig, b, kf, vf, K, lat, scale, info):
    from mpl_toolkits.mplot3d.art3d import Line3D, Line3DCollection, Path3DCollection
    ax = fig.axes[0]
    P = (kf * np.array(lat)[:, None]).T
    hit = False
    for c in ax.collections:
        if isinstance(c, Path3DCollection):
            o = np.array([np.asarray(t, float) for t in c._offsets3d]).T
            hit = hit or (o.shape == P.shape and near(o, P) < 1e-9 and near(P, o) < 1e-9)
    mon.ok("points", hit, info)
    names = [ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel()]
    mon.ok("plane", all(ch in s for ch, s in zip("xyz", names)), lambda: {"axes": names, **info()})
    e = [np.array(l.get_data_3d(), float).T for l in ax.lines if isinstance(l, Line3D)]
    ends = {tuple(sorted((tuple(np.round(x[0], 9)), tuple(np.round(x[-1], 9))))) for x in e}
    ok = len(ends) == 12 and all(all(abs(abs(t) - k) < 1e-9 for t, k in zip(pt, K)) for ed in ends for pt in ed) and all(sum(abs(s - t) > 1e-9 for s, t in zip(*ed)) == 1 for ed in ends)
    mon.ok("points", ok, lambda: {"edges of the zone": len(ends), **info()})
    if scale:
        ok = False
        for c in ax.collections:
            if isinstance(c, Line3DCollection):
                s = [np.array(x, float) for x in c._segments3d]
                # the shafts of the arrows: one per point (heads follow)
                s = [x for x in s if len(x) == 2]
                if len(s) >= len(P):
                    S = np.array(s)
                    D = S[:, 1] - S[:, 0]
                    n = np.linalg.norm(D, axis=1)
                    vn = vf.T / np.max(vf)
                    A = np.c_[P, vn]
                    # every point has a shaft which starts (or ends) there along its velocity
                    T = np.concatenate([np.c_[S[:, 0], D], np.c_[S[:, 1], -D], np.c_[S[:, 1], D]])
                    from scipy.spatial import cKDTree
                    tree = cKDTree(T[:, :3])
                    good = 0
                    for pt, vv in zip(P, vn):
                        for j in tree.query_ball_point(pt, 1e-7):
                            d = T[j, 3:]
                            if np.linalg.norm(np.cross(d, vv)) <= 1e-6 * np.linalg.norm(d) * np.linalg.norm(vv) + 1e-15 and d @ vv >= 0 and np.isclose(np.linalg.norm(d), scale * np.linalg.norm(vv), rtol=1e-6):
                                good += 1
                                break
                    ok = ok or good == len(P)
        mon.ok("arrows", ok, info)


# ------------------------------------------------------------------------------------------------ conductivities
def rates(q, c, x, y, kz):
    """own rates at points (units of 1/a, 1/b) of the plane"""
    M = ref.model_of(q)
    kx, ky = x / q["a"], y / q["b"]
    kzz = np.full_like(kx, kz)
    v = M.v(kx, ky, kzz)
    return ref.gamma(q["scattering_models"], q["scattering_params"], (q["a"], q["b"], q["c"]), kx, ky, kzz, v, np.max(np.asarray(c.bandObject.dos_k))), v


def rate_collections(mon, fig, q, c, kz, h, info, axes=None):
    """the colored contours: on the surface, colored by the rate there; returns (ranges, all values)"""
    from matplotlib.collections import LineCollection
    from matplotlib.contour import ContourSet
    vals, clims, pts = [], [], []
    for ax in fig.axes:
        if ax.get_label() == "<colorbar>":
            continue
        for col in ax.collections:
            if isinstance(col, LineCollection) and not isinstance(col, ContourSet) and col.get_array() is not None:
                S = np.array(col.get_segments())
                g = np.asarray(col.get_array(), float)
                n = min(len(S), len(g))
                x, y = S[:n, 0, 0], S[:n, 0, 1]
                want, _ = rates(q, c, x, y, kz)
                mon.close("rate colors", g[:n], want, 1e-6, info, scale=np.abs(want))
                vals.append(g)
                clims.append(tuple(col.get_clim()))
                pts.append(np.c_[x, y])
    want = fine(q, kz, (np.pi, np.pi))
    if pts:
        w = np.concatenate(pts)
        d = max(near(w, want), near(want, w)) if len(want) else np.inf
        mon.ok("contour", d <= 2 * h, lambda: {"distance": d, "allowed": 2 * h, "rates of the plane": kz, **info()})
    else:
        mon.ok("contour", len(want) == 0, lambda: {"no colored contour": True, "surface points": len(want), **info()})
    return clims, vals


def params_table(mon, fig, q, info):
    """rows of the table = current values"""
    from matplotlib.table import Table
    tabs = [t for ax in fig.axes for t in ax.get_children() if isinstance(t, Table)]
    if not mon.ok("table", len(tabs) == 1, info):
        return
    cells = {k: v.get_text().get_text() for k, v in tabs[0].get_celld().items()}
    rows = {}
    for (r, c), t in cells.items():
        rows.setdefault(r, {})[c] = t
    got = {}
    for r in sorted(rows):
        got.setdefault(rows[r].get(0), []).append(rows[r].get(1))
    want = {"band name": q["band_name"], "a": q["a"], "b": q["b"], "c": q["c"], "energy scale": q["energy_scale"], "# of BZ": q["number_of_bz"]}
    for k, v in list(q["band_params"].items()) + list(q["scattering_params"].items()):
        want[k] = v
    for k, v in want.items():
        g = got.get(k)
        ok = g is not None and len(g) == 1
        if ok and not isinstance(v, str):
            try:
                ok = abs(float(g[0]) - v) <= 1e-9 * abs(v) + 1e-15
            except ValueError:
                ok = False
        elif ok:
            ok = g[0] == v
        mon.ok("table", ok, lambda: {"row": k, "shown": g, "value": v, **info()})


def params_figure(mon, fig, q, c, info):
    params_table(mon, fig, q, info)
    # insets: three planes, and the rates of kz = 0
    h = 2 * np.pi / 200
    box = (np.pi, np.pi)
    from matplotlib.colors import to_hex
    colors = {}
    for t in texts(fig):
        s = t.get_text().replace("$", "").replace(" ", "")
        m = re.fullmatch(r"(\d*\.?\d*)(\\pi)?(/c)?", s)
        if m and s:
            colors[float(m.group(1) or 1) if "\\pi" in s else float(m.group(1))] = to_hex(t.get_color())
    for n in (0, 1, 2):
        cs = contour_ok(mon, fig, q, n * np.pi / q["c"], box, h, info)
        if cs is not None and len(cs.get_edgecolor()) and len(fine(q, n * np.pi / q["c"], box)) and n in colors:
            same = [v for _, x, v in contour_sets(fig) if len(x.get_edgecolor()) and to_hex(x.get_edgecolor()[0]) == colors[n]]
            want = fine(q, n * np.pi / q["c"], box)
            mon.ok("contour", any(max(near(v, want), near(want, v)) <= 2 * h for v in same), lambda: {"color of the label": colors[n], "plane": n, **info()})
    clims, vals = rate_collections(mon, fig, q, c, 0.0, h, info)
    if vals:
        lo, hi = min(v.min() for v in vals), max(v.max() for v in vals)
        if hi - lo > 1e-6 * hi:         # (one constant rate: any range around it)
            for cl in clims:
                mon.close("color range", cl, [lo, hi], 1e-9, info, scale=hi)


def run_cond(case, mon):
    p = case["p"]
    q = copy.deepcopy(p)
    b = wl.band(p, march_square=case["march"])
    b.runBandStructure()
    c = wl.cond(b, p)
    # a conductivity without run can show its parameters
    with Capture() as C:
        c.figParameters(fig_show=bool(case["seed"] % 2))
    params_figure(mon, C.figs[-1], q, c, lambda: {"figure": "figParameters before any run"})
    c.runTransport()
    if case["change"]:        # the figure shows the values of now
        c.gamma_0 = q["scattering_params"]["gamma_0"] = wl.f(q["scattering_params"]["gamma_0"] * 1.7, 4)
        c.gamma_k = q["scattering_params"]["gamma_k"] = 12.5
        c.scattering_models = q["scattering_models"] = ["cos2phi", "isotropic"]
        c.Bphi = 33.0
        c.runTransport()
    control = copy.deepcopy(c)
    before = pub_cond(c)
    rng = np.random.default_rng(case["seed"])
    info0 = lambda: {"T": p["T"], "march": case["march"], "changed": case["change"]}

    def drawn(name, *x, **k):
        with Capture() as C:
            getattr(c, name)(*x, **k)
        mon.seen(p, name, x, k)
        mon.event(name)
        compare(mon, "state", before, pub_cond(c), lambda: {"figure": name, **info0()})
        mon.ok("pages", len(C.figs) == 1, lambda: {"figures": len(C.figs), "of": name})
        return C.figs[-1]

    def info(name, **k):
        return lambda: {"figure": name, **info0(), **k, "p": {x: q[x] for x in ("a", "b", "c", "band_params", "band_model", "energy_scale", "scattering_models", "scattering_params")}}
    a, bb = p["a"], p["b"]
    f = drawn("figParameters", fig_show=bool(rng.integers(0, 2)))
    params_figure(mon, f, q, c, info("figParameters"))
    # rates of a plane
    kz = case["kz"] * np.pi / p["c"]
    if len(fine(q, kz, (np.pi, np.pi))):
        i = info("figScatteringColor", kz=case["kz"])
        kw = {}
        if case["lim"] is not None:
            kw["gamma_min"] = case["lim"]
        if case["limx"] is not None:
            kw["gamma_max"] = case["limx"]
        f = drawn("figScatteringColor", kz=kz, mesh_xy=201, **kw)
        clims, vals = rate_collections(mon, f, q, c, kz, 2 * np.pi / 200, i)
        plane_label(f, q, kz, mon, i)
        if vals:
            lo = min(v.min() for v in vals) if case["lim"] is None else case["lim"]
            hi = max(v.max() for v in vals) if case["limx"] is None else case["limx"]
            if hi - lo > 1e-6 * hi or (case["lim"] is not None and case["limx"] is not None):
                for cl in clims:
                    mon.close("color range", cl, [lo, hi], 1e-9, i, scale=hi)
        i = info("figScatteringPhi", kz=case["kz"])
        f = drawn("figScatteringPhi", kz=kz, mesh_xy=201)
        plane_label(f, q, kz, mon, i)
        W = fine(q, kz, (np.pi, np.pi))
        g, v = rates(q, c, W[:, 0], W[:, 1], kz)
        phi = np.rad2deg(np.arctan2(W[:, 1] / bb, W[:, 0] / a))
        by = {}
        for ax, l, x, y, _ in lines(f):
            by.setdefault(ax.get_ylabel(), []).append(np.c_[x, y])
        gs = [np.concatenate(w) for k, w in by.items() if "Gamma" in k]
        vs = [np.concatenate(w) for k, w in by.items() if "v_" in k]
        if mon.ok("rate points", len(gs) == 1 and len(vs) == 1, lambda: {"axes": list(by), **i()}):
            # every drawn point is on the curve of the surface and the surface is covered (coarse in the cuts of the zone)
            for got, y, nm in ((gs[0], g, "rate"), (vs[0], np.asarray(v[2]) + 0 * g, "vz")):
                sc = np.abs(y).max() + 1e-300
                A = np.c_[got[:, 0] / 60, got[:, 1] / sc]
                B = np.c_[phi / 60, y / sc]
                d1 = near(A, B)
                mon.ok("rate points", d1 <= 0.12, lambda: {"off the curve": d1, "what": nm, **i()})
                d2 = float(np.quantile([near(B[j:j + 1], A) for j in range(0, len(B), max(1, len(B) // 80))], 0.9)) if len(B) else 0
                mon.ok("rate points", d2 <= 0.12, lambda: {"not drawn": d2, "what": nm, **i()})
    # orbits
    n = c.kft.shape[1]
    for idx in [0, int(rng.integers(0, n)), -1][: 2 + int(rng.integers(0, 2))]:
        i = info("figOnekft", index=idx)
        f = drawn("figOnekft", index_kf=idx, meshXY=201)
        o = np.array(c.kft[:, idx, :])
        mon.ok("orbit", find_line(f, o[0] * a, o[1] * bb), i)
        mon.ok("orbit", find_line(f, o[0, 0] * a, o[1, 0] * bb), lambda: {"start": True, **i()})
        mon.ok("orbit", find_line(f, o[0, -1] * a, o[1, -1] * bb), lambda: {"end": True, **i()})
        if len(fine(q, 0.0, (np.pi, np.pi))):
            contour_ok(mon, f, q, 0.0, (np.pi, np.pi), 2 * np.pi / 200, i)
        plane_label(f, q, 0.0, mon, i)
        i = info("figOnevft", index=idx)
        f = drawn("figOnevft", index_kf=idx)
        t, vz = np.array(c.time_array), np.array(c.vft[2, idx])
        mon.ok("along orbit", find_line(f, t, vz), i)
        i = info("figCumulativevft", index=idx)
        f = drawn("figCumulativevft", index_kf=idx)
        mon.ok("along orbit", find_line(f, t, np.cumsum(vz * np.exp(-np.array(c.t_o_tau[idx])))), i)
    if p["T"]:
        i = info("figdfdE")
        f = drawn("figdfdE")
        kT = ref.KB_MEV * p["T"]
        top = 1 / (4 * kT)
        cut = 2 * kT * np.arccosh(1 / np.sqrt(p["dfdE_cut_percent"]))
        L = [(x, y) for _, _, x, y, data in lines(f) if len(x) > 5]
        if mon.ok("window", len(L) == 1, i):
            x, y = L[0]
            mon.close("window", y, top / np.cosh(x / (2 * kT)) ** 2, 1e-9, i, scale=top)
            mon.ok("window", x.min() <= -cut and x.max() >= cut, i)
        for s in (1, -1):
            mon.ok("window", find_line(f, s * cut, top * p["dfdE_cut_percent"], 1e-9), lambda: {"cut": s, **i()})
    # everything later is as without figures
    for step in range(2):
        c.runTransport()
        control.runTransport()
        compare(mon, "later run", pub_cond(control), pub_cond(c), lambda: {"after": "all figures", "step": step, **info0()})
        c.Btheta = control.Btheta = 12.0
        c.Bamp = control.Bamp = 21.0


# ------------------------------------------------------------------------------------------------ scans and fits
def pdf_pages(path):
    return len(re.findall(rb"/Type\s*/Page\b", open(path, "rb").read()))


def tree(top):
    return sorted(os.path.relpath(os.path.join(d, f), top) for d, _, fs in os.walk(top) for f in fs)


def run_admr(case, mon):
    from cuprates_transport.admr import ADMR
    ps = case["bands"]
    conds = []
    for p in ps:
        b = wl.band(p)
        b.runBandStructure()
        conds.append(wl.cond(b, p))
    A = ADMR(conds, Btheta_min=case["lo"], Btheta_max=case["lo"] + case["step"] * (case["n"] - 1), Btheta_step=case["step"], Btheta_norm=case["norm"], Bphi_array=case["phis"], show_progress=False)
    A.runADMR()
    controls = copy.deepcopy(conds)
    state = lambda: dict({"scan." + k: v for k, v in pub(A, APUB).items()}, **{"%d.%s" % (i, k): v for i, c in enumerate(conds) for k, v in pub_cond(c).items()})
    before = state()
    sub = os.path.join(mon.scratch, "asked")
    os.makedirs(sub)
    kw = {"fig_show": case["show"], "fig_save": case["save"]}
    if case["folder"]:
        kw["folder"] = sub
    if case["name"]:
        kw["filename"] = case["name"]
    with Capture() as C:
        A.figADMR(**kw)
    info = lambda: {"phis": case["phis"], "norm": case["norm"], "bands": len(ps), **kw}
    mon.seen(case)
    compare(mon, "state", before, state(), info)
    fs = [os.path.relpath(os.path.join(mon.scratch, x), mon.scratch) for x in tree(mon.scratch)]
    where = "asked" if case["folder"] else "here"
    if case["save"]:
        ok = len(fs) == 1 and fs[0].startswith(where + os.sep) and fs[0].endswith(".pdf") and (case["name"] is None or fs[0] == os.path.join(where, case["name"]))
        if case["name"] is None:
            ok = ok and fs[0] == os.path.join(where, "Rzz_" + A.file_name_func() + ".pdf")
        mon.ok("files", ok, lambda: {"files": fs, **info()})
        if fs:
            n = pdf_pages(os.path.join(mon.scratch, fs[0]))
            mon.ok("pages", n == 1 + len(ps), lambda: {"pages": n, **info()})
    else:
        mon.ok("files", fs == [], lambda: {"files": fs, **info()})
    mon.ok("pages", len(C.figs) == 1 + len(ps), lambda: {"figures": len(C.figs), **info()})
    th, rho, rzz = np.array(A.Btheta_array), np.array(A.rhozz_array), np.array(A.rzz_array)
    f = C.figs[0]
    main = None
    for i, phi in enumerate(case["phis"]):
        hit = find_line(f, th, rzz[i])
        lab = [(ax, l) for ax, l in hit if re.search(r"=\s*%s$" % re.escape("{0:.0f}".format(phi)), l.get_label())]
        mon.ok("scan curves", hit and lab, lambda: {"azimuth": phi, "lines": len(hit), "labels": [l.get_label() for _, l in hit], **info()})
        if hit:
            main = hit[0][0]
    if main is not None:
        mon.ok("scan curves", len({str(l.get_color()) for ax, l, u, *_ in lines(f) if ax is main and u.shape == th.shape and "phi" in str(l.get_label())}) == len(case["phis"]), lambda: {"colors of the curves": [str(l.get_color()) for ax, l, *_ in lines(f)], **info()})
        leg = main.get_legend()
        mon.ok("scan curves", leg is not None and len(leg.get_texts()) == len(case["phis"]), info)
        if leg is not None:
            for t, h in zip(leg.get_texts(), leg.legend_handles):
                mine = [l for ax, l, *_ in lines(f) if l.get_label() == t.get_text()]
                mon.ok("scan curves", any(str(l.get_color()) == str(h.get_color()) for l in mine), info)
        right = [ax for ax in f.axes if ax is not main and "m" in ax.get_ylabel() and "rho" in ax.get_ylabel()]
        if mon.ok("right axis", len(right) == 1, lambda: {"axes": [ax.get_ylabel() for ax in f.axes], **info()}):
            norm = rho[0, 0] / rzz[0, 0]
            mon.close("right axis", right[0].get_ylim(), np.array(main.get_ylim()) * norm * 1e5, 1e-9, info)
        mon.ok("scan curves", str(case["norm"]) in main.get_ylabel(), lambda: {"label": main.get_ylabel(), **info()})
    tx = " ".join(t.get_text() for t in texts(f))
    mon.ok("scan curves", "{0:.0f} K".format(conds[0].T) in tx and "{0:.0f} T".format(conds[0].Bamp) in tx, lambda: {"texts": tx, **info()})
    for l, p in enumerate(ps):
        params_figure(mon, C.figs[1 + l], p, conds[l], lambda: {"page of band": l, **info()})
    # later
    A2 = ADMR(controls, Btheta_norm=case["norm"], Bphi_array=case["phis"], show_progress=False)
    A2.Btheta_array = th.copy()
    A.runADMR()
    A2.runADMR()
    compare(mon, "later run", pub(A2, ("rhozz_array", "rzz_array", "total_filling", "total_hole_doping")), pub(A, ("rhozz_array", "rzz_array", "total_filling", "total_hole_doping")), info)


def run_fit(case, mon):
    rng = np.random.default_rng(case["seed"])
    kind, phis, Ts = case["kind"], case["phis"], case["Ts"] if case["kind"] in ("multi", "seriesM") else case["Ts"][:1]
    m = case["member"]
    grid = np.arange(case["lo"], case["hi"] + 1, case["st"]).astype(float)
    g = np.arange(case["lo"] - 5, case["hi"] + 6, 3.7)
    data, raw = {}, {}
    for T in Ts:
        for p in phis:
            f = fits.path(mon, "c25_%s_%s.dat" % (T, p))
            y = fits.curve(p, T, g)
            fits.write_data(f, [g, y], rng)
            raw[T, p] = y
            data[T, p] = [f, 0, 1, case["lo"], case["hi"], case["st"], 0, 1.3] if kind == "multi" else [f, 0, 1, 90, 4.2e-5]
    here = os.getcwd()
    there = fits.path(mon, "asked")
    os.makedirs(there)
    if kind == "multi":
        from cuprates_transport.fitting_admr_parallel_multiT import Fitness
        P = {T: {"b0": dict(copy.deepcopy(m), T=0)} for T in Ts}
        F = Fitness(data, P, {"b0": {"gamma_0": [1.0, 30.0]}} if False else {Ts[0]: {"b0": {"gamma_0": [1.0, 30.0]}}, **{T: {"b0": {}} for T in Ts[1:]}}, normalized_data=case["norm"])
        F.compute_fitness([m["scattering_params"]["gamma_0"]])
        state = lambda: {"%s.%s" % (T, k): np.array(v) for T in Ts for k, v in (("rho", F.rhozz_sim_dict[T]), ("rzz", F.rzz_sim_dict[T]), ("data", F.rzz_data_dict[T]), ("datarho", F.rhozz_data_dict[T]))} | {"params": copy.deepcopy(F.params_dict)}
        again = lambda: F.compute_fitness([m["scattering_params"]["gamma_0"]])
        kw = {"folder": there, "figname": "fig"}
    else:
        member = dict(copy.deepcopy(m), fixdoping=5, Btheta_min=case["lo"], Btheta_max=case["hi"], Btheta_step=case["st"], Bphi_array=list(phis), data_T=list(Ts) if kind == "seriesM" else Ts[0], data_p=0.24)
        if kind == "one":
            from cuprates_transport.fitting_admr_parallel_oneT import FittingADMRParallel as K
        elif kind == "series":
            from cuprates_transport.fitting_admr_series_oneT import FittingADMR as K
        else:
            from cuprates_transport.fitting_admr_series_multi_T import FittingADMR as K
        F = K(member, {"gamma_0": [1.0, 30.0]}, dict(data), normalized_data=case["norm"], folder=there)
        wl.clamp_grid(F.bandObject, 30)
        again = (lambda: float(F.compute_diff2(np.array([m["scattering_params"]["gamma_0"]])))) if kind == "one" else (lambda: np.array(F.compute_diff(F.pars)))
        again()
        state = lambda: {"member": copy.deepcopy(F.member_dict if kind == "seriesM" else F.member)}
        kw = {"figname": "fig"}
    v0 = again()
    before = state()
    with Capture() as C:
        F.fig_compare(fig_show=case["show"], fig_save=True, **kw)
    info = lambda: {"fit": kind, "norm": case["norm"], "phis": phis, "Ts": Ts}
    mon.seen(case)
    compare(mon, "state", before, state(), info)
    v1 = again()
    mon.ok("later run", np.array_equal(v0, v1), lambda: {"before": v0, "after": v1, **info()})
    fs = [f for f in tree(mon.scratch) if not f.startswith("c25_")]
    mon.ok("files", fs == ["asked/fig.pdf"], lambda: {"files": fs, **info()})
    if "asked/fig.pdf" in fs:
        n = pdf_pages(os.path.join(there, "fig.pdf"))
        mon.ok("pages", n == 2 * len(Ts), lambda: {"pages": n, **info()})
    sims = fits.simulate({"b0": dict(m)}, phis, grid if kind != "multi" else F.thetas_dict[Ts[0]])
    for T in Ts:
        # the figure of this temperature
        best = []
        for f in C.figs:
            tx = " ".join(t.get_text() for t in texts(f))
            if re.search(r"=\s*%s K" % re.escape(str(T)), tx):
                best.append(f)
        if not mon.ok("fit curves", len(best) == 1, lambda: {"figures of the temperature": len(best), "T": T, **info()}):
            continue
        f = best[0]
        for i, p in enumerate(phis):
            y = raw[T, p]
            at = lambda t: np.interp(t, g, y)
            s = sims[1][i] if case["norm"] else sims[0][i] * 1e5
            if kind == "multi":
                th = grid = np.array(F.thetas_dict[T])
                x, d = th, (at(grid) / at(0.0) if case["norm"] else at(grid) * 1.3 * 1e5)
            else:
                k = g <= (90 if kind == "seriesM" else grid.max())
                x, d = g[k], (y[k] / at(0.0) if case["norm"] else y[k] / at(0.0) * 4.2e-5 * 1e5)
            hs, hd = find_line(f, grid, s, 1e-8), find_line(f, x, d, 1e-8)
            mon.ok("fit curves", hs, lambda: {"simulation of azimuth": p, "T": T, "want": [grid, s], "lines": [(u, v) for _, _, u, v, _ in lines(f)], **info()})
            mon.ok("fit curves", hd, lambda: {"data of azimuth": p, "T": T, "want": [x, d], "lines": [(u, v) for _, _, u, v, _ in lines(f)], **info()})
            if hd and hs:
                mon.ok("fit curves", any(label_number(l) == p for _, l in hd), lambda: {"label": [l.get_label() for _, l in hd], "azimuth": p, **info()})
                mon.ok("fit curves", str(hd[0][1].get_color()) == str(hs[0][1].get_color()) and hd[0][1].get_linestyle() != hs[0][1].get_linestyle(), info)
