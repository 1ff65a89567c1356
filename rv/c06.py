"""C06: density of states and cyclotron mass against energy derivatives (coarea integrals on independent meshes, finite
differences of independently measured areas and volumes, and closed forms for parabolic bands)."""
import numpy as np

from . import wl
from .ref import model_of, grid_axes, surface_integral, contour_segments, seg_length, meV, ANG, hbar, ME

RULE = ("random bands (parabolic cylinders and ellipsoids, several pockets, tight binding, electron and hole), lattices with a = b and a != b, energy offsets, "
        "resolutions and numbers of planes. Density of states against the surface integral of the inverse gradient on an independent finer mesh and the closed form; "
        "mass against contour integrals, finite differences of the enclosed area, and the closed form. Distinct = distinct (band, offset, method).")
NEED = {"dos cubes": 10, "dos slices": 8, "mass": 15, "mass area": 8, "mass parabolic": 5, "dos parabolic": 6, "computed before": 15}
ASSUMPTIONS = ["slice-wise surface weights are those of a surface parallel to z, so the density of states from slices is checked for cylinders and weakly dispersing bands",
               "slice-wise densities of states may carry the known factor N/(N-1) of the planes (kz-overcount)"]


def gen(rng, sq):
    k = int(rng.integers(0, 6))
    if k == 0:
        if sq:
            p = wl.para2(rng, hole=bool(rng.integers(0, 2)), iso=True, res=(int(rng.integers(35, 51)), 41, int(rng.integers(3, 10))))
        else:
            p = wl.para3(rng, hole=bool(rng.integers(0, 2)), res=(41, 43, 45), kF=rng.uniform(0.6, 0.9))
    elif k == 1:
        p = wl.para2(rng, hole=bool(rng.integers(0, 2)), iso=False, res=(45, 47, int(rng.integers(3, 10))))
    elif k == 2:
        p = wl.para3(rng, hole=bool(rng.integers(0, 2)), res=(51, 51, 21), tetra=bool(rng.integers(0, 2)), kF=rng.uniform(0.6, 0.9))
    elif k == 3:
        p = wl.pockets(rng, res=(61, 61, 9) if not sq else (51, 51, 5))
        if sq and rng.random() < 0.5:
            p["band_params"]["d"] = 0.0
    elif k == 4:
        p = wl.general(rng, res=(47, 47, int(rng.integers(5, 16))))
    else:
        p = wl.cuprate(rng, res=(47, 47, int(rng.integers(3, 12)) if sq else 21))
    p["kind"] = k
    if k >= 3:
        if rng.random() < 0.4:
            q = wl.U(rng, 0.85, 1.5, 3)
            p["k_max"] = [q * p["k_max"][0], (q if p["a"] == p["b"] else wl.U(rng, 0.85, 1.5, 3)) * p["k_max"][1], wl.U(rng, 0.8, 1.5, 3) * p["k_max"][2]]
        if rng.random() < 0.3:
            p["energy_scale"] = wl.f(np.exp(rng.uniform(2, 7)), 2)
    if rng.random() < 0.2:
        p["resolution"] = [r + 24 if r > 39 else r for r in p["resolution"]]
    w = p["energy_scale"] if k > 2 else p["band_params"]["mu"]
    p["eps"] = wl.f(rng.uniform(-0.06, 0.06) * w, 4) if rng.random() < 0.7 else 0
    if rng.random() < 0.4:
        p["before"] = wl.f(rng.uniform(-0.05, 0.05) * (p["energy_scale"] if k > 2 else p["band_params"]["mu"]), 4)
    p["number_of_bz"] = int(rng.choice([1, 1, 2, 3]))
    return p


def cases(rng, tier):
    n = 64 if tier == "quick" else 1500
    out = [{"env": "nojit", "band": gen(rng, bool(i % 2)), "square": bool(i % 2)} for i in range(n)]
    for i in range(9 if tier == "quick" else 100):
        p = wl.sheet(rng, i % 3, bool(i % 2), res=(47, 45, 43))
        out.append({"env": "nojit", "band": dict(p, eps=wl.f(rng.uniform(-0.06, 0.06) * p["energy_scale"], 4), kind=6), "square": False})
    out.append({"env": "jit", "band": dict(wl.cuprate(rng, ortho=True, res=(41, 41, 7)), eps=2.0, kind=5), "square": True})
    return out


def area(m, lim, z, eps, n=601):
    """occupied area of one plane, sub-cell accurate: every cell split into two triangles, linear interpolation"""
    g = [np.linspace(-lim[i], lim[i], n) for i in range(2)]
    X, Y = np.meshgrid(*g, indexing="ij")
    d = m.E(X, Y, np.full_like(X, z)) - eps
    A0 = (g[0][1] - g[0][0]) * (g[1][1] - g[1][0]) / 2
    tot = 0.0
    for tri in (((0, 0), (1, 0), (1, 1)), ((0, 0), (1, 1), (0, 1))):
        f = np.sort(np.stack([d[i:n - 1 + i, j:n - 1 + j].ravel() for i, j in tri]), axis=0)
        neg = (f < 0).sum(0)
        tot += A0 * np.sum(neg == 3)
        s = neg == 1
        tot += A0 * np.sum(f[0, s] ** 2 / ((f[1, s] - f[0, s]) * (f[2, s] - f[0, s])))
        s = neg == 2
        tot += A0 * np.sum(1 - f[2, s] ** 2 / ((f[2, s] - f[0, s]) * (f[2, s] - f[1, s])))
    return tot


def run(case, mon):
    p = case["band"]
    eps, km, lat = p["eps"], p["k_max"], (p["a"], p["b"], p["c"])
    m = model_of(p)
    o = wl.band(p, march_square=case["square"])
    res = [r if r % 2 else r + 1 for r in p["resolution"]]
    lim = [km[i] / lat[i] for i in range(3)]
    ax = grid_axes(km, lat, res)
    Ec = m.E(*np.meshgrid(*ax, indexing="ij"))
    if not (Ec.min() < eps < Ec.max()):
        mon.event("no surface")
        return
    if "before" in p and Ec.min() < p["before"] < Ec.max():
        o.discretize_fermi_surface(epsilon=p["before"])
        o.dos_epsilon_func()
        if case["square"]:
            o.mass_func()
        mon.event("computed before")
    o.discretize_fermi_surface(epsilon=eps)
    if case["square"] and o.number_of_points_per_kz_list and 0 < min([x for x in o.number_of_points_per_kz_list if x] or [0]) < 12:
        mon.event("contour too small to resolve")
        return
    mon.seen(p, case["square"])
    order = case.get("id", 0) % 2
    if order:
        o.dos_epsilon_func()
    # energies of the gradient in J m
    inv = lambda x, y, z: 1 / np.sqrt(sum(g ** 2 for g in m.gradE(x, y, z)))
    nz = p.get("number_of_bz", 1)
    u = 2 / (2 * np.pi) ** 3 / ANG ** 2 / (meV * ANG) / nz          # -> 1 / (J m^3)
    if not case["square"]:
        h = [min(2 * r - 1, 121 if i < 2 else 61) for i, r in enumerate(res)]
        (ref,), tr, ar = surface_integral(m, km, h, [inv], eps)
        (ref1,), tr1, ar1 = surface_integral(m, km, res, [inv], eps)
        if len(tr) < 2000:
            mon.event("small surface")
            return
        v = float(np.sum(ar1 / 3 * sum(inv(*tr1[:, i].T) for i in range(3))))
        tol = 0.03 + 3 * max(abs(ref1 / ref - 1), abs(v / ref - 1))
        if tol > 0.25:       # a van Hove singularity in the box: the sum has not converged at this resolution
            mon.event("van Hove")
            return
        o.dos_epsilon_func()
        mon.close("dos cubes", o.dos_epsilon, u * ref, tol, {"res": res})
        if p["kind"] in (0, 2):
            s = p["sign"]
            mm = np.array(p["masses"]) * ME
            E = (p["band_params"]["mu"] + s * eps) * meV
            want = (2 * np.prod(mm)) ** 0.5 * np.sqrt(E) / (np.pi ** 2 * hbar ** 3) / nz
            if E > 0 and all(np.sqrt(2 * mm[i] * E) / hbar * ANG < 0.99 * lim[i] for i in range(3)):
                mon.close("dos parabolic", o.dos_epsilon, want, 0.03)
        return
    # ------------------ slices
    o.mass_func()
    o.dos_epsilon_func()
    kz = np.linspace(-lim[2], lim[2], res[2])
    tot, tot3, wz = 0.0, 0.0, []
    for z in kz:
        g = [np.linspace(-lim[i], lim[i], 801) for i in range(2)]
        X, Y = np.meshgrid(*g, indexing="ij")
        seg = contour_segments(m.E(X, Y, np.full_like(X, z)), g[0], g[1], eps)
        if not len(seg):
            continue
        ln, mid = seg_length(seg), seg.mean(1)
        G = m.gradE(mid[:, 0], mid[:, 1], np.full(len(mid), z))
        gp = np.sqrt(G[0] ** 2 + G[1] ** 2)
        tot += np.sum(ln / gp)
        tot3 += np.sum(ln / np.sqrt(gp ** 2 + G[2] ** 2))
        wz.append(np.max(gp) / np.min(gp))
    if max(wz) > 25:         # saddle points near the surface
        mon.event("van Hove")
        return
    # close to a saddle point 1/|v| varies within one step of the contour
    tol = 0.003 + 0.0006 * max(max(wz) - 2, 0)
    # hbar^2/(2 pi) dA/dE, averaged
    conv = hbar ** 2 / (2 * np.pi) / ANG ** 2 / meV / ME
    mon.close("mass", o.mass, conv * tot / res[2], tol, {"planes": res[2], "spread": max(wz)})
    if res[2] <= 9 and max(wz) < 8:
        W = abs(m.E(*[np.array([q]) for q in (0, 0, 0)])[0] - eps) + 1
        d = 1e-3 * W
        dA = np.mean([(area(m, lim, z, eps + d) - area(m, lim, z, eps - d)) / (2 * d) for z in kz])
        mon.close("mass area", o.mass, conv * dA, tol + 0.02, {"planes": res[2]})
    if p["kind"] == 1 or (p["kind"] == 0):
        if "Ez" not in p["band_params"]:
            mon.close("mass parabolic", o.mass, np.sqrt(p["masses"][0] * p["masses"][1]), 0.006)
            want = np.sqrt(p["masses"][0] * p["masses"][1]) * ME / (np.pi * hbar ** 2) * 2 * lim[2] / ANG / (2 * np.pi) / nz
            over(mon, "dos parabolic", o.dos_epsilon, want, 0.01, res[2])
    H = 2 * lim[2]
    # integral over z with the planes as the code lays them: mean over planes times the height
    want = u * tot3 / res[2] * H
    flat = abs(tot3 / tot - 1)
    if flat < 0.02:
        over(mon, "dos slices", o.dos_epsilon, want, tol + flat, res[2])


def over(mon, kind, got, want, tol, N):
    r = got / want
    if abs(r / (N / (N - 1)) - 1) <= tol:
        mon.ok(kind, True)
        mon.worst[kind] = max(mon.worst.get(kind, 0), abs(r / (N / (N - 1)) - 1) / tol)
        if abs(r - 1) > tol:
            mon.known_finding("kz-overcount", {"planes": N, "computed/expected": r})
    else:
        mon.close(kind, got, want, tol, {"planes": N, "ratio": r})
