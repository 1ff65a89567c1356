"""C14: closed-form Drude oracle (full tensor, any mass tensor and field) on generated parabolic bands."""
import numpy as np

from . import wl
from .ref import ANG, PS, QE, bvec, hbar, meV, model_of, surface_integral

RULE = ("random parabolic bands: ellipsoids with any masses and an off-diagonal one, cylinders, electrons and holes, lattices, densities, rates, zones, fields of either sign and any direction up to "
        "3 radians per lifetime, both methods (slices for cylinders), zero and low temperature; all elements against the inverse Drude resistivity, and resistivity, Hall coefficient, density. "
        "Distinct = distinct (band, rate, field).")
NEED = {"tensor": 300, "zero field": 100, "rho_xx": 20, "hall": 40, "density": 20, "hole": 8, "electron": 8, "2D": 10, "3D": 20, "slices": 3}


def gen(rng, i):
    hole = bool(rng.integers(0, 2))
    if i % 3 == 2:
        p = wl.para2(rng, hole=hole, res=(31, 33, int(rng.integers(3, 8))), iso=bool(rng.integers(0, 2)))
        p["march"] = bool(rng.integers(0, 2))
    else:
        p = wl.para3(rng, hole=hole, offd=bool(rng.integers(0, 2)), res=(25, 27, 25))
        # every semi-axis between 0.55 and 0.9 of the box: resolved by the grid
        off = "Exy" in p["band_params"]
        EF = wl.U(rng, 150, 900, 1)
        ax = [rng.uniform(0.55, 0.9 if not (off and i < 2) else 0.75) * np.pi / x for i, x in enumerate((p["a"], p["b"], p["c"]))]
        bp = {"Ex": wl.f(EF / ax[0] ** 2), "Ey": wl.f(EF / ax[1] ** 2), "Ez": wl.f(EF / ax[2] ** 2), "mu": EF}
        if off:
            bp["Exy"] = wl.f(rng.uniform(-0.4, 0.4) * np.sqrt(bp["Ex"] * bp["Ey"]), 4)
        p["band_params"] = wl.shuffled(rng, bp)
        p["march"] = False
    p.update(scattering_models=["isotropic"], scattering_params={"gamma_0": wl.U(rng, 1, 30, 3)}, wct=wl.U(rng, 0.15, 3, 3) * (-1 if rng.random() < 0.3 else 1),
             Btheta=float(rng.choice([0, wl.U(rng, 0, 180, 1), wl.U(rng, -90, 90, 1)])), Bphi=float(rng.choice([0, wl.U(rng, -180, 180, 1)])),
             number_of_bz=int(rng.choice([1, 1, 2])), T=float(rng.choice([0, 0, 0, 2.0])) if i % 3 == 2 else 0.0)
    return p


def cases(rng, tier):
    out = [{"env": "nojit", "p": gen(rng, i)} for i in range(60 if tier == "quick" else 1500)]
    for i in range(2 if tier == "quick" else 12):
        out.append({"env": "jit", "p": gen(rng, 2 - i % 2)})
    return out


def run(case, mon):
    p = dict(case["p"])
    bp, s = p["band_params"], p["sign"]
    twoD = "Ez" not in bp
    lat = (p["a"], p["b"], p["c"])
    nbz = p["number_of_bz"]
    # mass tensor from the coefficients of the quadratic form: E = k.C.k, M^-1 = 2 C / hbar^2
    C = np.zeros((3, 3))
    C[0, 0], C[1, 1] = bp["Ex"], bp["Ey"]
    C[0, 1] = C[1, 0] = bp.get("Exy", 0.0)
    C[2, 2] = 1.0 if twoD else bp["Ez"]
    M = np.linalg.inv(2 * C * meV * ANG ** 2 / hbar ** 2)
    # inside the box?
    for i in range(2 if twoD else 3):
        if np.sqrt(bp["mu"] * np.linalg.inv(C)[i, i]) > 0.98 * np.pi / lat[i]:
            mon.event("pocket reaches the zone boundary")
            return
    if twoD:
        A = np.pi * bp["mu"] / np.sqrt(np.linalg.det(C[:2, :2])) / ANG ** 2
        n = 2 * A * (2 * np.pi / p["c"] / ANG) / (2 * np.pi) ** 3
    else:
        n = 2 * (4 * np.pi / 3) * bp["mu"] ** 1.5 / np.sqrt(np.linalg.det(C)) / ANG ** 3 / (2 * np.pi) ** 3
    n /= nbz
    G = p["scattering_params"]["gamma_0"] / PS
    d = 2 if twoD else 3
    mc = np.linalg.det(M[:d, :d]) ** (1 / d)
    p["Bamp"] = float(p["wct"] * mc * G / QE)
    N = 1500 if not p["T"] else 800
    b = wl.band(p, march_square=p["march"])
    b.runBandStructure()
    mon.seen(p)
    mon.event("hole" if s < 0 else "electron")
    mon.event("2D" if twoD else "3D")
    over = dict(N_time=N, rtol=1e-6, atol=1e-7, T=p["T"], N_epsilon=9)
    c = wl.cond(b, p, **over)
    c.runTransport()
    S = np.array(c.sigma)
    c0 = wl.cond(b, p, **dict(over, Bamp=0))
    c0.runTransport()
    S0 = np.array(c0.sigma)
    fac = 1.0
    if p["march"]:
        nz = b.resolution[2]
        mon.event("slices")
        fac = nz / (nz - 1)        # the known weight of the end planes
        if abs(S0[0, 0] / (n * QE ** 2 / G * np.linalg.inv(M)[0, 0]) - 1) < 0.5 * (fac - 1):
            fac = 1.0
        else:
            mon.known_finding("kz-overcount", {"planes": nz})

    def drude(B):
        bv = bvec(B, p["Btheta"], p["Bphi"])
        # (j x B)_i = eps_iab j_a B_b
        X = np.array([[0, bv[2], -bv[1]], [-bv[2], 0, bv[0]], [bv[1], -bv[0], 0]])
        rho = M * G / (n * QE ** 2) + s * X / (n * QE)
        if twoD:
            z = np.zeros((3, 3))
            z[:2, :2] = np.linalg.inv(rho[:2, :2])
            return z
        return np.linalg.inv(rho)
    D0, D = drude(0.0) * fac, drude(p["Bamp"]) * fac
    sc = np.sqrt(np.outer(np.diag(D0), np.diag(D0)))
    sc = sc + 1e-6 * sc.max()
    # quadrature error of the surface itself, measured on an independent mesh of the same resolution
    tol = 0.008 + 4 / N
    if not p["march"]:
        m = model_of(p)
        res = list(b.resolution)
        one = [lambda x, y, z: np.ones_like(x)] + [(lambda i: lambda x, y, z: np.array(m.gradE(x, y, z))[i] ** 2 / np.sqrt((np.array(m.gradE(x, y, z)) ** 2).sum(0)))(i) for i in range(d)]
        fine, _, _ = surface_integral(m, p["k_max"], [2 * r + 5 if not (twoD and i == 2) else r for i, r in enumerate(res)], one)
        _, tr, ar = surface_integral(m, p["k_max"], res, one[:1])
        ver = [float(np.sum(ar / 3 * sum(q(*tr[:, i].T) for i in range(3)))) for q in one]
        dev = max(abs(x / y - 1) for x, y in zip(ver, fine))
        tol += 1.7 * dev
        if tol > 0.06:
            mon.event("pocket too small for the grid")
            return
    info = lambda: {"Drude": D, "got": S, "sign": s, "B": bvec(p["Bamp"], p["Btheta"], p["Bphi"]), "march": p["march"]}
    mon.close("zero field", S0, D0, tol, info, scale=sc)
    mon.close("tensor", S, D, tol, info, scale=sc)
    # what an experimentalist reads off
    r = np.linalg.inv(S[:d, :d]) * fac
    mon.close("rho_xx", r[0, 0], M[0, 0] * G / (n * QE ** 2), tol * (1.5 + p["wct"] ** 2))
    bz = bvec(p["Bamp"], p["Btheta"], p["Bphi"])[2]
    if abs(bz) * QE / (mc * G) > 0.2:
        RH = (r[1, 0] - r[0, 1]) / 2 / bz
        w = abs(bz) * QE / (mc * G)
        mon.close("hall", RH, -s / (n * QE), tol * (1.5 + p["wct"] ** 2) / min(w, 1), info)
        mon.ok("hall", RH * s < 0, info)
    # total: the strength of the tensor gives the density back
    mon.close("density", np.linalg.det(S0[:d, :d]) ** (1 / d) / fac * G * mc / QE ** 2, n, 1.2 * tol)
