"""C03: the chemical-potential solver (own doping count at the returned mu, state of the band afterwards)."""
import numpy as np

from . import wl
from .ref import model_of, grid_axes

RULE = ("random bands and sets of 1-3 bands, targets taken from the doping at a random mu (so reachable), tolerances, previous "
        "states (fresh, discretized, solved before, energy scale changed); full-size doping grids are clamped on the objects. After the call "
        "the target must be crossed within the solver's tolerance of the returned mu on the same grid (own count), nothing else may have "
        "changed, and the next discretization must equal that of a new band. Distinct = distinct (bands, target).")
NEED = {"crossing": 60, "others untouched": 60, "same mu": 20, "fresh equal": 100, "no stale": 60}


def gen(rng):
    k = int(rng.integers(0, 4))
    if k == 0:
        p = wl.trig(rng, ortho=bool(rng.integers(0, 2)), res=(9, 7, 3))
    elif k == 1:
        p = wl.pockets(rng, res=(9, 9, 3))
        p["band_model"] = p["band_model"].replace("+ mu", "- mu")
        p["band_params"]["mu"] = 0.1
    else:
        p = wl.cuprate(rng, res=(9, 9, 3))
    if rng.random() < 0.3:
        p["number_of_bz"] = 2
    return p


def cases(rng, tier):
    out = []
    for i in range(70 if tier == "quick" else 900):
        nb = 1 if i % 2 else 1 + int(rng.integers(0, 3))
        ps = [gen(rng) for _ in range(nb)]
        wide = i % 5 in (1, 2)     # wide bands: chemical potentials far from zero
        if wide:
            for p in ps:
                p["band_params"] = {k: v if k == "mu" else wl.f(4 * v) for k, v in p["band_params"].items()}
        out.append({"env": "nojit", "bands": ps, "module": i % 2 == 0, "clamp": int(rng.integers(20, 36)),
                    "mu0": wl.U(rng, -2.0, 1.5, 4) * (4 if wide else 1), "between": bool(i // 2 % 2), "ptol": [None, 1e-3, 1e-4, 1e-6, 1e-2][int(rng.integers(0, 5))],
                    "history": [str(x) for x in rng.permutation(["run", "square", "solve", "scale", "mass", "none"])[:3]]})
    if tier == "thorough":
        out.append({"env": "jit", "bands": [wl.cuprate(rng, ortho=False, res=(9, 9, 3))], "module": False, "clamp": 100000,
                    "mu0": -0.8, "ptol": None, "history": ["run"]})
    return out


def p_of(ps, mu, n):
    tot = 0.0
    for p in ps:
        m = model_of(p, band_params=dict(p["band_params"], mu=mu))
        E = m.E(*np.meshgrid(*grid_axes(p["k_max"], (p["a"], p["b"], p["c"]), (n, n, n)), indexing="ij"))
        tot += 2 * np.mean(E <= 0) / p.get("number_of_bz", 1)
    return 1 - tot


def run(case, mon):
    from cuprates_transport import bandstructure as bs
    ps, n = [dict(p) for p in case["bands"]], case["clamp"]
    objs = [wl.band(p, clamp=n) for p in ps]
    for h in case["history"]:
        for o, p in zip(objs, ps):
            if h == "run":
                o.runBandStructure()
            elif h == "square":
                o.march_square = p["a"] == p["b"] or True
                o.runBandStructure()
            elif h == "mass" and o.march_square and o.dks is not None:
                o.mass_func()
            elif h == "solve":
                o.set_mu_to_doping(p_of([p], -0.3, min(n, 40)) if n < 1000 else 0.2)
            elif h == "scale":
                o.energy_scale = p["energy_scale"] = p["energy_scale"] * 1.25
    before = [dict(o.band_params) for o in objs]
    scales = [o.energy_scale for o in objs]
    nn = min(n, 500)
    target = p_of(ps, case["mu0"], min(nn, 60))
    # a reachable target strictly inside the range
    target = float(np.clip(target, p_of(ps, 9, min(nn, 40)) + 0.05, p_of(ps, -9, min(nn, 40)) - 0.05))
    if case.get("between"):        # between two steps of the counted doping: the chemical potential is that of the step
        target += 0.37 / nn ** 3
        mon.event("between steps")
    kw = {} if case["ptol"] is None else {"ptol": case["ptol"]}
    if case["module"]:
        bs.set_mu_to_doping(objs, target, **kw)
    else:
        objs[0].set_mu_to_doping(target, **kw)
        objs, ps, before, scales = objs[:1], ps[:1], before[:1], scales[:1]
    mon.seen(ps, target)
    mus = [o["mu"] for o in objs]
    mon.ok("same mu", all(m == mus[0] for m in mus), {"mus": mus})
    tol = (case["ptol"] or 1e-3)
    d = 2.5 * tol + 1e-9
    lo, hi = p_of(ps, mus[0] - d, nn) - target, p_of(ps, mus[0] + d, nn) - target
    mon.ok("crossing", lo * hi <= 1e-18 and abs(mus[0]) < 10.001,
           lambda: {"target": target, "mu": mus[0], "p at mu-d": lo + target, "p at mu+d": hi + target, "d": d})
    for o, b, s, p in zip(objs, before, scales, ps):
        now = dict(o.band_params)
        mon.ok("others untouched", {k: v for k, v in now.items() if k != "mu"} == {k: v for k, v in b.items() if k != "mu"}
               and o.energy_scale == s, lambda: {"before": b, "after": now})
        fr = wl.band(dict(p, band_params=now, energy_scale=s), march_square=o.march_square, clamp=n)
        # nothing that belongs to another chemical potential is left
        if o.kf is not None:
            E = model_of(p, band_params=now, energy_scale=s).E(*o.kf)
            fr.discretize_fermi_surface()
            mon.ok("no stale", o.kf.shape == fr.kf.shape and np.allclose(o.kf, fr.kf, rtol=0, atol=1e-9), {"left": "kf", "maxE": np.max(np.abs(E))})
        else:
            mon.ok("no stale", all(getattr(o, q) is None for q in ("kf", "vf", "dkf", "dos_k")), "partly erased")
        if o.p is not None or o.n is not None:
            # a doping that is kept must be the one of this chemical potential
            mm = p_of([dict(p, energy_scale=s, band_params=now)], mus[0], nn)
            near = [p_of([p], mus[0] - 1e-9, nn), mm, p_of([p], mus[0] + 1e-9, nn)]
            mon.ok("no stale", o.p is not None and o.n is not None and min(near) - 1e-9 <= o.p <= max(near) + 1e-9
                   and abs(o.n + o.p - 1) < 1e-12, lambda: {"p": o.p, "n": o.n, "near": near})
        try:
            fr.runBandStructure()
        except (ValueError, IndexError, TypeError, AttributeError, UnboundLocalError) as e:
            mon.event("fresh band has no surface: " + type(e).__name__)
            continue
        o.runBandStructure()
        for q in ("kf", "vf", "dkf", "dos_k", "n", "p"):
            mon.close("fresh equal", getattr(o, q), getattr(fr, q), 1e-12, {"attr": q})
        mon.ok("fresh equal", o.number_of_points_per_kz_list == fr.number_of_points_per_kz_list)
        if o.march_square:
            o.mass_func()
            fr.mass_func()
            mon.close("fresh equal", o.mass, fr.mass, 1e-12, {"attr": "mass"})
