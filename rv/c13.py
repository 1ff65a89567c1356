"""C13: metamorphic monitors over pairs of runs: Onsager reciprocity, positive dissipation, crystal symmetries, equivalent fields."""
import numpy as np

from . import wl
from .ref import bvec

RULE = ("random bands with known point symmetries (mirrors x, y, z; fourfold axis for a = b) and some without any, scattering models with the same symmetries, fields of any direction at 0.2-3 radians per lifetime, "
        "both methods, zero and finite temperature; each run is paired with runs at the opposite, the transformed and the equivalently written field. Distinct = distinct (band, scattering, field, partner).")
NEED = {"onsager": 300, "dissipation": 40, "mirror x": 60, "mirror y": 60, "mirror z": 60, "fourfold": 60, "equivalent": 300, "warm": 3, "no mirror": 3}
ASSUMPTIONS = ["the continuum identities hold on a discretized surface only within its quadrature error: 3-5 % of sqrt(sigma_ii sigma_jj); slices weigh the "
               "surface as if it were parallel to z, so for bands that disperse along z the slice-wise method is held to 20 % only"]


def gen(rng, i):
    k = i % 6
    if k == 0:
        p = wl.para3(rng, hole=bool(rng.integers(0, 2)), res=(17, 17, 17), tetra=bool(rng.integers(0, 2)), kF=rng.uniform(0.6, 0.85))
        p["fourfold"] = p["a"] == p["b"]
    elif k == 1:
        iso = bool(rng.integers(0, 2))
        p = wl.para2(rng, hole=bool(rng.integers(0, 2)), res=(21, 21, 5), iso=iso)
        p["fourfold"] = iso
    elif k == 2:
        o = bool(rng.integers(0, 2))
        p = wl.trig(rng, ortho=o, res=(19, 19, 9))
        p["fourfold"] = not o
    elif k == 3:
        o = bool(rng.integers(0, 2))
        p = wl.pockets(rng, ortho=o, res=(27, 27, 5))
        p["fourfold"] = not o
    else:
        o = bool(rng.integers(0, 2))
        p = wl.cuprate(rng, ortho=o, res=(21, 21, 9))
        p["fourfold"] = not o
    if i % 9 == 4:        # no mirror planes, with or without inversion: reciprocity holds all the same
        k = 9
        p = wl.skew(rng, odd=bool(i // 9 % 2), res=(19, 21, 17))
        p["fourfold"], p["low"] = False, True
    # smooth rates
    mod, sp = wl.scattering(rng, ["isotropic", "cos2phi", "sin2phi", "gamma_dos_func", "cos2phi_coskz"] if k else ["isotropic", "gamma_dos_func"])
    sp = dict(sp, gamma_k=wl.U(rng, 1, 15, 2), power=wl.U(rng, 2, 6, 1), gamma_k_sin=wl.U(rng, 1, 15, 2), power_sin=wl.U(rng, 2, 6, 1), power_z=wl.U(rng, 2, 4, 1),
              gamma_0=wl.U(rng, 5, 25, 2), gamma_dos_max=wl.U(rng, 1, 15, 2))
    p.update(scattering_models=mod, scattering_params=sp, wct=wl.U(rng, 0.2, 1.8, 3), N_time=90,
             Btheta=float(rng.choice([0, 90, wl.U(rng, 0, 180, 1), wl.U(rng, -180, 180, 1)])), Bphi=float(rng.choice([0, 45, wl.U(rng, -180, 180, 1), wl.U(rng, -180, 180, 1)])))
    p["march"] = bool(rng.integers(0, 2)) and k not in (0, 9)
    if i % 8 == 7:        # several surfaces per run: keep them small
        p["resolution"] = [15, 15, 5]
    p["T"] = wl.U(rng, 5, 60, 1) if i % 8 == 7 else 0
    return p


def cases(rng, tier):
    out = [{"env": "nojit", "p": gen(rng, i)} for i in range(40 if tier == "quick" else 1500)]
    for i in range(2 if tier == "quick" else 20):
        out.append({"env": "jit", "p": gen(rng, 4)})
    return out


def angles(b):
    B = np.linalg.norm(b)
    return {"Bamp": float(B), "Btheta": float(np.degrees(np.arccos(np.clip(b[2] / B, -1, 1)))), "Bphi": float(np.degrees(np.arctan2(b[1], b[0])))}


def run(case, mon):
    # A breach at the first resolution is looked at again on a finer surface: quadrature errors shrink, defects do not.
    first = observe(case["p"], mon)
    bad = [x for x in first if x[5] > 1]
    if bad:
        mon.event("looked at again on a finer surface")
        p = dict(case["p"])
        r = p["resolution"]
        p["resolution"] = [int(r[0] * 1.35), int(r[1] * 1.35), int(r[2] * 1.8) if r[2] < 15 else int(r[2] * 1.35)]
        first = observe(p, mon)
    for kind, got, want, tol, scale, _, info in first:
        mon.close(kind, got, want, tol, info, scale=scale)


def observe(p, mon):
    out = []

    def close(kind, got, want, tol, info, scale):
        out.append((kind, got, want, tol, scale, float(np.max(np.abs(got - want) / (tol * scale))), info))
    p = dict(p)
    b = wl.band(p, march_square=p["march"])
    b.runBandStructure()
    # field for the wanted number of radians per lifetime, from the mean rate and mean mass scale
    c = wl.cond(b, p, Bamp=0, T=0)
    c.runTransport()
    S0 = np.array(c.sigma)
    d = np.sqrt(np.abs(np.diag(S0)))
    kf, vf = np.asarray(b.kf, float), np.asarray(b.vf)
    gm = (c.gamma_tot_min * c.gamma_tot_max) ** 0.5
    vp = np.median(np.sqrt((vf ** 2).sum(0)))
    kk = np.median(np.sqrt(kf[0] ** 2 + kf[1] ** 2))
    B = p["wct"] * gm * 1e12 * 1.0546e-34 * kk * 1e10 / (1.602e-19 * vp)
    p["Bamp"] = float(np.round(B, 3))
    T = p["T"] if p["T"] and wl.reachable(b, p) else 0

    def sigma(**over):
        q = dict(rtol=1e-6, atol=1e-7, T=T, N_epsilon=5)
        q.update(over)
        x = wl.cond(b, p, **q)
        x.runTransport()
        if T:
            mon.event("warm")
        return np.array(x.sigma)
    S = sigma()
    if T:
        c = wl.cond(b, p, Bamp=0, T=T, N_epsilon=5)
        c.runTransport()
        d = np.sqrt(np.abs(np.diag(c.sigma)))
    mon.seen(p)
    D = np.outer(d, d)
    D = D + 1e-6 * D.max()
    bv = bvec(p["Bamp"], p["Btheta"], p["Bphi"])
    info = lambda: {"B": bv, "models": p["scattering_models"], "march": p["march"], "S/D": S / D, "T": T}
    Sm = sigma(Bamp=-p["Bamp"])
    tol = 0.04
    flat = not any("kz" in x for x in (p["band_model"], *p["scattering_models"]))
    if p["march"] and not flat:
        tol = 0.2
    if p.get("low"):
        mon.event("no mirror")
    close("onsager", Sm.T, S, tol, info, scale=D)
    ev = np.linalg.eigvalsh((S / D + (S / D).T) / 2)
    close("dissipation", np.array(min(ev.min(), 0.0)), np.array(0.0), 0.02, lambda: {"eigenvalues": ev, **info()}, 1.0)
    for name, M in (("mirror x", np.diag([-1, 1, 1])), ("mirror y", np.diag([1, -1, 1])), ("mirror z", np.diag([1, 1, -1])),
                    ("fourfold", np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]))):
        if name == "fourfold" and not p["fourfold"] or p.get("low"):
            continue
        q = np.linalg.det(M) * M @ bv
        R = sigma(**angles(q))
        close(name, R, M @ S @ M.T, 0.04, info, scale=np.maximum(D, M @ D @ M.T))
    for name, over in (("360 theta", {"Btheta": p["Btheta"] + 360}), ("360 phi", {"Bphi": p["Bphi"] - 360}),
                       ("flip", {"Btheta": -p["Btheta"], "Bphi": p["Bphi"] + 180}),
                       ("reverse", {"Bamp": -p["Bamp"], "Btheta": 180 - p["Btheta"], "Bphi": p["Bphi"] + 180}),
                       ("reverse2", {"Bamp": -p["Bamp"], "Btheta": p["Btheta"] + 180})):
        close("equivalent", sigma(**over), S, 5e-4, lambda: {"how": name, **info()}, scale=D)
    return out
