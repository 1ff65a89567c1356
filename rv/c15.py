"""C15: Fermi-window oracle: energy grid after every setter, tensors against the weighted sum of T = 0 conductivities of new bands whose
chemical potential is shifted to each energy, Wiedemann-Franz and Mott limits, state of the band afterwards."""
import numpy as np

from . import wl
from .ref import KB, KB_MEV, QE, meV

RULE = ("random bands, scattering, fields (zero and finite), temperatures 0.05-300 K, numbers of energies, cut-offs, both methods, random setter sequences over T (zero included), N_epsilon, cut-off "
        "with the grid checked after each; three tensors against the reference sum; closed forms for parabolic cylinders; T -> 0. Distinct = distinct (band, field, T, grid).")
NEED = {"grid": 300, "sigma": 200, "alpha": 200, "beta": 200, "left at Fermi level": 60, "wiedemann-franz": 6, "mott": 6, "low T": 6, "zero T": 20}


def gen(rng, i):
    k = i % 4
    if k == 0:
        p = wl.para2(rng, hole=bool(rng.integers(0, 2)), res=(15, 15, 3), iso=bool(rng.integers(0, 2)))
    elif k == 1:
        p = wl.general(rng, res=(11, 11, 5))
    elif k == 2:
        p = wl.cuprate(rng, res=(13, 11, 5))
    else:
        p = wl.para3(rng, res=(11, 11, 11), kF=rng.uniform(0.6, 0.8))
    mod, sp = wl.scattering(rng, None if k != 3 else ["isotropic", "gamma_dos_func"])
    p.update(scattering_models=mod, scattering_params=sp, N_time=100, Bamp=float(rng.choice([0, 0, wl.U(rng, 2, 50, 1)])),
             Btheta=wl.U(rng, -90, 110, 1), Bphi=wl.U(rng, -90, 180, 1))
    p["march"] = bool(rng.integers(0, 2)) and k != 3
    p["number_of_bz"] = int(rng.choice([1, 1, 2]))
    return p


def cases(rng, tier):
    out = []
    for i in range(64 if tier == "quick" else 1500):
        p = gen(rng, i)
        T0 = 0.0 if rng.random() < 0.3 else wl.U(rng, 1, 200, 2)
        ops = []
        for _ in range(int(rng.integers(0, 7))):
            o = str(rng.choice(["T", "N", "cut", "T0", "T"]))
            ops.append([o, {"T": wl.U(rng, 0.5, 200, 2), "N": int(rng.integers(2, 12)), "cut": wl.f(np.exp(rng.uniform(np.log(1e-7), np.log(0.4))), 9), "T0": 0}[o]])
        if i % 3 == 0:
            ops.append(["T", wl.U(rng, 0.5, 60, 2)])
        out.append({"env": "nojit", "p": p, "T": T0, "N": int(rng.integers(3, 11)), "cut": float(rng.choice([0.001, 1e-6, wl.U(rng, 1e-3, 0.1, 5)])), "ops": ops,
                    "kind": "window"})
    for i in range(12 if tier == "quick" else 200):
        p = gen(rng, 0)
        p.update(scattering_models=["isotropic"], Bamp=0.0)
        out.append({"env": "nojit", "p": p, "kind": "limits", "T": wl.U(rng, 20, 120, 1), "march": bool(i % 2)})
    for i in range(1 if tier == "quick" else 10):
        out.append({"env": "jit", "p": gen(rng, 2), "T": 30.0, "N": 4, "cut": 0.01, "ops": [["T", 50.0]], "kind": "window"})
    return out


def grid(T, N, cut):
    emax = 2 * KB_MEV * T * np.arccosh(1 / np.sqrt(cut))
    return np.linspace(-emax, emax, N)


def mdf(e, T):
    return 1 / (4 * KB_MEV * T) / np.cosh(e / (2 * KB_MEV * T)) ** 2


def run(case, mon):
    p = dict(case["p"])
    if case["kind"] == "limits":
        return limits(case, p, mon)
    T, N, cut = case["T"], case["N"], case["cut"]
    es = p["energy_scale"]
    b = wl.band(p, march_square=p["march"])
    b.runBandStructure()
    c = wl.cond(b, p, T=T, N_epsilon=N, dfdE_cut_percent=cut)

    def check_grid():
        mon.ok("grid", (c.T, c.N_epsilon, c.dfdE_cut_percent) == (T, N, cut), lambda: {"got": [c.T, c.N_epsilon, c.dfdE_cut_percent]})
        if T != 0:
            g = grid(T, N, cut)
            mon.close("grid", c.epsilon_array, g, 1e-6, lambda: {"T": T, "N": N, "cut": cut, "ops": case["ops"]}, scale=g[-1])
    check_grid()
    if case["ops"] and len(case["ops"]) % 2:
        c.runTransport()
    for o, v in case["ops"]:
        if o in ("T", "T0"):
            T = v
            c.T = v
        elif o == "N":
            N = v
            c.N_epsilon = v
        else:
            cut = v
            c.dfdE_cut_percent = v
        check_grid()
    # the window must stay within the band (states on both sides), otherwise there is no surface
    sgn = {"mu": -1}
    if T:
        ext = grid(T, N, cut)[-1]
        lim = 0.15 * es if "Ex" not in p["band_params"] else 0.6 * p["band_params"]["mu"]
        if ext > lim:
            T = float(np.round(T * 0.9 * lim / ext, 4))
            c.T = T
            check_grid()
    c.runTransport()
    mon.seen(p, T, N, cut)
    if T == 0:
        z = np.zeros((3, 3))
        mon.close("zero T", c.alpha, z, 1, scale=1e-300)
        mon.close("zero T", c.beta, z, 1, scale=1e-300)
        x = wl.cond(b, p)
        x.runTransport()
        mon.close("zero T", c.sigma, x.sigma, 1e-9)
    else:
        E = grid(T, N, cut)
        d = E[1] - E[0]
        s, a, be, wsum, asum = 0, 0, 0, 0, 0
        sc = 0
        for e in E:
            sig = shifted(p, e, c.gamma_tot_min)
            w = d * mdf(e, T)
            s = s + w * sig
            a = a + w * sig * (-(e * meV) / (QE * T))
            be = be + w * sig * ((e * meV) ** 2 / (QE ** 2 * T))
            D = np.sqrt(np.abs(np.outer(np.diag(sig), np.diag(sig))))
            sc = np.maximum(sc, np.maximum(D, np.abs(sig)) + 1e-5 * D.max())
            wsum += w
            asum += w * abs(e) * meV / (QE * T)
        # the steps in time follow the longest lifetime of the Fermi level, so each surface is summed on slightly different steps
        tol = 1e-5 if not p["Bamp"] else 0.02
        info = lambda: {"T": T, "N": N, "cut": cut, "B": p["Bamp"], "models": p["scattering_models"], "march": p["march"]}
        mon.close("sigma", c.sigma, s, tol, info, scale=sc * wsum)
        mon.close("alpha", c.alpha, a, tol, info, scale=sc * asum)
        mon.close("beta", c.beta, be, tol, info, scale=sc * asum * E[-1] * meV / QE)
    o = c.bandObject
    f = wl.band(p, march_square=p["march"])
    f.runBandStructure()
    for n in ("kf", "vf", "dkf", "dos_k", "n", "p"):
        mon.close("left at Fermi level", getattr(o, n), getattr(f, n), 1e-9, lambda: {"attr": n, "T": T})
    mon.ok("left at Fermi level", dict(o.band_params) == dict(p["band_params"]), lambda: {"params": o.band_params})


def shifted(p, e, gmin):
    """T = 0 conductivity of a new band whose Fermi level is at e, in time steps as long as those at the Fermi level"""
    q = dict(p, band_params=dict(p["band_params"]))
    if "Ex" in p["band_params"]:
        q["band_params"]["mu"] = p["band_params"]["mu"] + p.get("sign", 1) * e / p["energy_scale"]
    else:
        q["band_params"]["mu"] = p["band_params"]["mu"] + e / p["energy_scale"]
    b = wl.band(q, march_square=p["march"])
    b.discretize_fermi_surface()
    c = wl.cond(b, q, T=0)
    c.N_time = max(2, int(round(p["N_time"] * gmin * c.tau_total_max())))
    c.runTransport()
    return np.array(c.sigma)


def limits(case, p, mon):
    """parabolic cylinder with a constant rate: sigma is linear in energy"""
    T = case["T"]
    p["march"] = case["march"]
    T = float(p["band_params"]["mu"] / (20 * KB_MEV))
    p["resolution"] = [41, 41, 3]
    b = wl.band(p, march_square=p["march"])
    b.runBandStructure()
    c = wl.cond(b, p, T=T, N_epsilon=41, dfdE_cut_percent=1e-4)
    c.runTransport()
    z = wl.cond(b, p, T=0)
    z.runTransport()
    mon.seen(p, T)
    S = np.array(z.sigma)
    d = np.sqrt(np.outer(np.diag(S)[:2], np.diag(S)[:2]))
    L = np.pi ** 2 / 3 * (KB / QE) ** 2
    # the discretization of a shifted surface differs by a fraction of a percent
    mon.close("wiedemann-franz", c.beta[:2, :2], L * T * S[:2, :2], 0.02, scale=L * T * d)
    mu = p["band_params"]["mu"]
    dS = S[:2, :2] / mu * p["sign"] / meV                   # d sigma / d epsilon, in 1/J
    mon.close("mott", c.alpha[:2, :2], -np.pi ** 2 / 3 * KB ** 2 * T / QE * dS, 0.1, scale=np.pi ** 2 / 3 * KB ** 2 * T / QE * d / mu / meV)
    mon.close("low T", c.sigma[:2, :2], S[:2, :2], 0.015, scale=d)
    c.T = 0.05
    c.runTransport()
    mon.close("low T", c.sigma[:2, :2], S[:2, :2], 0.002, scale=d)
    mon.ok("low T", np.max(np.abs(c.beta)) < 1e-2 * L * T * d.max() and np.max(np.abs(c.alpha)) <= np.max(np.abs(S)) * KB / QE, lambda: {"beta": c.beta})
