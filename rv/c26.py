"""C26: the published omega_c tau against the cyclotron frequency times the lifetime, point by point, over setting histories."""
import numpy as np

from . import wl
from .ref import gamma, model_of, hbar, QE, ANG, PS, ME

RULE = ("random bands (tight binding with and without mirror planes, cylinders, pockets, cuprates), both discretization methods, all scattering models, fields of either sign, before and after runs, "
        "repeated after changes of the field and of the rates; every point against e B v_perp tau / (hbar k_perp). Distinct = distinct (band, scattering, field, history).")
NEED = {"omegac tau": 2000, "after change": 20, "pure": 30, "parabolic": 5, "negative field": 5}
ASSUMPTIONS = ["the field is along z (the quantity is defined with the in-plane wave vector and velocity)",
               "the function publishes omega_c / tau in 1/ps^2 instead (omegac-inverse, pinned by the stable tests); anything other than this or the right value is a violation"]


def cases(rng, tier):
    out = []
    for i in range(40 if tier == "quick" else 1200):
        k = i % 5
        sq = bool(rng.integers(0, 2))
        if k == 0:
            p = wl.para2(rng, hole=bool(rng.integers(0, 2)), res=(21, 23, 5), iso=True)
        elif k == 1:
            p = wl.general(rng, res=(15, 17, 7))
        elif k == 2:
            p = wl.pockets(rng, res=(21, 21, 5))
        else:
            p = wl.cuprate(rng, res=(15, 15, 7))
        mod, sp = wl.scattering(rng)
        if k == 0:
            mod = ["isotropic"]
        p.update(scattering_models=mod, scattering_params=sp, N_time=20, T=0.0, Bamp=wl.f(rng.uniform(1, 60) * rng.choice([1, 1, -1]), 2), kind=k)
        p["march"] = sq
        out.append({"env": "nojit", "p": p, "run": bool(rng.integers(0, 2)), "B2": wl.f(rng.uniform(1, 60) * rng.choice([1, -1]), 2), "g2": wl.U(rng, 2, 20, 2),
                    "order": int(rng.integers(0, 3))})
    return out


def expect(p, b, c, B):
    m = model_of(p)
    kf = np.asarray(b.kf, float)
    v = np.array(m.v(*kf))
    dm = float(np.max(b.dos_k)) if "gamma_dos_func" in p["scattering_models"] else None
    g = gamma(p["scattering_models"], p["scattering_params"], (p["a"], p["b"], p["c"]), *kf, v=list(v), dos_max=dm)
    w = QE * B * np.hypot(v[0], v[1]) / (hbar * np.hypot(kf[0], kf[1]) / ANG) * PS      # 1/ps
    return w, 1 / g


def look(mon, p, b, c, B, kind):
    c.omegac_tau_func()
    got = np.asarray(c.omegac_tau_k, float)
    w, tau = expect(p, b, c, B)
    good = w * tau
    if got.shape == good.shape and np.all(np.abs(got - w / tau) <= 1e-9 * np.abs(w / tau)) and not np.all(np.abs(got - good) <= 1e-9 * np.abs(good)):
        mon.ok("omegac tau", True)
        mon.evals["omegac tau"] += good.size - 1
        mon.known_finding("omegac-inverse", {"field": B, "published": got[0], "omega_c tau": good[0], "tau (ps)": tau[0]})
        return got * tau ** 2
    mon.close("omegac tau", got, good, 1e-9, lambda: {"field": B, "models": p["scattering_models"], "when": kind}, scale=np.abs(good))
    return got


def run(case, mon):
    p = case["p"]
    b = wl.band(p, march_square=p["march"])
    b.runBandStructure()
    c = wl.cond(b, p)
    mon.seen(case)
    if case["run"]:
        c.runTransport()
    if p["Bamp"] < 0:
        mon.event("negative field")
    q = look(mon, p, b, c, p["Bamp"], "first")
    if p["kind"] == 0 and np.all(np.isfinite(q)):
        # a circle: e |B| tau / m everywhere
        mm = p["masses"][0] * ME
        want = QE * abs(p["Bamp"]) * PS / (p["scattering_params"]["gamma_0"] * mm)
        mon.close("parabolic", np.abs(q), np.full(q.shape, want), 0.01)
    # the settings at the time of the call count
    if case["order"] == 0:
        c.Bamp = case["B2"]
    elif case["order"] == 1:
        c.Bamp = case["B2"]
        c.gamma_0 = case["g2"]
        p = dict(p, scattering_params=dict(p["scattering_params"], gamma_0=case["g2"]))
    else:
        c.Bphi, c.Bamp = 30.0, case["B2"]
    s = [np.array(x, copy=True) for x in (c.sigma, c.bandObject.kf, c.bandObject.vf, c.bandObject.dkf)] if case["run"] else None
    look(mon, p, b, c, case["B2"], "after change")
    mon.event("after change")
    if case["order"] == 2:
        c.Bphi = 0
    if s:
        mon.ok("pure", all(np.array_equal(x, y) for x, y in zip(s, (c.sigma, c.bandObject.kf, c.bandObject.vf, c.bandObject.dkf))))
        c.runTransport()
    got = np.array(c.omegac_tau_k)
    c.omegac_tau_func()
    mon.ok("pure", np.array_equal(got, c.omegac_tau_k) and c.Bamp == case["B2"])
