"""C07: model-based histories on one band.  The model knows the current settings and which results are up to date; after every
operation the monitor compares the band with it: stale results must be gone, recomputed ones must equal a new band's."""
import numpy as np

from . import wl

RULE = ("random histories of 8-25 operations (parameter writes by item, setter method, whole dictionary with permuted order, energy scale; undeclared names; "
        "reads of all parameters, zero values included; mode switches; discretizations at several offsets; full runs; doping, filling, per-plane filling, "
        "density of states, mass; solver calls; copies) on random bands; after each write every derived result must be gone, after each computation the "
        "result must equal a new band's, and reads return the last value written. Distinct = distinct (band, history prefix ending in a write or computation).")
NEED = {"erased": 150, "fresh": 300, "read back": 500, "undeclared": 20, "zero value": 10, "whole dict": 20, "scale": 20, "method": 20}
DERIVED = ("kf", "vf", "dkf", "dks", "dkz", "p", "n", "dos_k", "dos_epsilon", "mass")


def gen(rng):
    k = int(rng.integers(0, 4))
    if k == 0:
        return wl.trig(rng, ortho=bool(rng.integers(0, 2)), res=(9, 11, 5))
    if k == 1:
        return wl.para2(rng, iso=bool(rng.integers(0, 2)), res=(9, 9, 3))
    if k == 2:
        p = wl.pockets(rng, res=(15, 15, 5))
        return p
    return wl.cuprate(rng, res=(9, 11, 5))


def cases(rng, tier):
    out = []
    for i in range(60 if tier == "quick" else 1500):
        p = gen(rng)
        ops = []
        names = sorted(p["band_params"])
        for _ in range(int(rng.integers(8, 26))):
            o = str(rng.choice(["item", "method", "dict", "scale", "undeclared", "square", "disc", "disc", "run", "doping", "filling", "perkz",
                                "dos", "mass", "copy", "solve", "zero", "same"],
                               p=[.1, .08, .08, .08, .04, .06, .1, .08, .08, .05, .03, .02, .06, .06, .02, .01, .03, .02]))
            n = str(rng.choice(names))
            f = wl.U(rng, 0.9, 1.1, 4)
            ops.append([o, n, f, int(rng.integers(0, 1000))])
        if i % 3 == 0:       # the histories that matter most always occur
            ops = [["run", "", 1, 0], ["square", "", 1, 0], ["disc", "", 1, 500], ["mass", "", 1, 0], ["dos", "", 1, 0],
                   [["item", "method", "dict", "scale", "zero"][i // 3 % 5], names[i % len(names)], 1.03, 1]] + ops
        out.append({"env": "nojit", "band": p, "ops": ops})
    for i in range(2 if tier == "quick" else 20):
        q = wl.cuprate(rng, res=(9, 11, 5))
        out.append({"env": "jit", "band": q, "ops": [["run", "", 1, 0], ["item", "mu", 1.02, 0], ["run", "", 1, 0], ["scale", "", 1.1, 0], ["disc", "", 1, 400],
                                                     ["dict", "", 1.01, 1], ["run", "", 1, 0]]})
    return out


def run(case, mon):
    import copy
    p = case["band"]
    params, scale, square = dict(p["band_params"]), p["energy_scale"], False
    wide = p["energy_scale"] if p["energy_scale"] > 1 else params["mu"]
    CL = 24
    o = wl.band(p, clamp=CL)
    hist = []

    def fresh():
        q = dict(p, band_params=dict(params), energy_scale=scale)
        return wl.band(q, march_square=square, clamp=CL)

    def same(name, a, b):
        if a is None or b is None:
            return mon.ok("fresh", a is None and b is None, lambda: {"attr": name, "got": a, "new": b, "history": hist})
        return mon.close("fresh", a, b, 1e-10, lambda: {"attr": name, "history": hist})

    def gone(why):
        for n in DERIVED:
            mon.ok("erased", getattr(o, n) is None, lambda: {"attr": n, "value": getattr(o, n), "history": hist})
        mon.ok("erased", len(o.number_of_points_per_kz_list) == 0, lambda: {"attr": "number_of_points_per_kz_list", "history": hist})
        mon.event(why)
        mon.seen(p, hist)

    def readback():
        for n, v in params.items():
            for how, g in (("item", lambda: o[n]), ("method", lambda: o.get_band_param(n)), ("dict", lambda: o.band_params[n])):
                mon.ok("read back", g() == v, lambda: {"name": n, "how": how, "got": g(), "want": v, "history": hist})
            if v == 0:
                mon.event("zero value")
        mon.ok("read back", o.energy_scale == scale, lambda: {"energy_scale": o.energy_scale, "want": scale})
        mon.ok("read back", set(o.band_params) == set(params), lambda: {"names": sorted(o.band_params), "history": hist})

    lastdisc = None            # (epsilon) for which kf is up to date, with the current parameters and mode
    for op, n, f, r in case["ops"]:
        hist.append([op, n, f, r])
        old = dict(params)
        eps = (r % 7 - 3) / 100 * wide
        if op in ("item", "method", "zero", "same"):
            if op == "zero":
                v = 0 if n not in ("t", "w", "Ex", "Ey", "mu") else params[n] * f
            else:
                v = params[n] * (f if op != "same" else 1)
            params[n] = v
            if op == "item" or r % 2 == 0:
                o[n] = v
            else:
                o.set_band_param(n, v)
            if params != old:
                gone("item" if op != "method" else "method")
            if params != old or o.kf is None:      # writing the value it has is no change
                lastdisc = None
        elif op == "dict":
            keys = list(params)
            np.random.default_rng(r).shuffle(keys)
            params = {k: params[k] * (f if k == keys[0] else 1) for k in keys}
            given = dict(params)
            o.band_params = given
            mon.ok("erased", given == params, {"caller's dictionary": given})
            if params != old:
                gone("whole dict")
            if params != old or o.kf is None:
                lastdisc = None
        elif op == "scale":
            scale = scale * f
            o.energy_scale = scale
            gone("scale")
            lastdisc = None
        elif op == "undeclared":
            before = dict(o.band_params)
            bad = "not_there_%d" % r
            if r % 2:
                o[bad] = 1.5
            else:
                o.set_band_param(bad, 1.5)
            mon.ok("undeclared", dict(o.band_params) == before and bad not in o.band_params, lambda: {"params": o.band_params})
            mon.ok("undeclared", o[bad] is None, lambda: {"read": o[bad]})
            if o.kf is None:
                lastdisc = None
        elif op == "square":
            square = not square
            o.march_square = square
            lastdisc = None
        elif op in ("disc", "run"):
            new = fresh()
            try:
                if op == "disc":
                    new.discretize_fermi_surface(epsilon=eps)
                else:
                    new.runBandStructure(epsilon=eps if r % 3 == 0 else 0)
                fail = None
            except Exception as e:       # e.g. no surface at this energy
                fail = type(e).__name__
            try:
                if op == "disc":
                    o.discretize_fermi_surface(epsilon=eps)
                else:
                    o.runBandStructure(epsilon=eps if r % 3 == 0 else 0)
                failo = None
            except Exception as e:
                failo = type(e).__name__
            mon.ok("fresh", fail == failo, lambda: {"error": failo, "new": fail, "history": hist})
            if fail:
                mon.event("no surface")
                lastdisc = None
                break
            for a in ("kf", "vf", "dkf", "dos_k") + (("dks", "dkz") if square else ()) + (("p", "n") if op == "run" else ()):
                same(a, getattr(o, a), getattr(new, a))
            if square:
                mon.ok("fresh", list(o.number_of_points_per_kz_list) == list(new.number_of_points_per_kz_list), lambda: {"list": o.number_of_points_per_kz_list})
            lastdisc = new
            mon.seen(p, hist)
        elif op in ("doping", "filling", "perkz"):
            new = fresh()
            args = (20 + r % 5, 21, 7)
            x = getattr(o, "doping_per_kz" if op == "perkz" else op)(*args)
            y = getattr(new, "doping_per_kz" if op == "perkz" else op)(*args)
            same(op, np.array(x), np.array(y))
            if op != "perkz":
                same("p", o.p, new.p)
                same("n", o.n, new.n)
        elif op in ("dos", "mass"):
            if lastdisc is None or (op == "mass" and not square):
                continue
            getattr(o, "dos_epsilon_func" if op == "dos" else "mass_func")()
            getattr(lastdisc, "dos_epsilon_func" if op == "dos" else "mass_func")()
            a = "dos_epsilon" if op == "dos" else "mass"
            same(a, getattr(o, a), getattr(lastdisc, a))
            mon.seen(p, hist)
        elif op == "copy":
            c = copy.deepcopy(o)
            wl.clamp_grid(c, CL)          # the stand-in is bound to the object it was put on
            c["mu"] = params["mu"] * 1.1  # a change of the copy is not a change of the original
            readback()
        elif op == "solve":
            new = fresh()
            try:
                new.set_mu_to_doping(0.2)
            except ValueError:
                continue
            o.set_mu_to_doping(0.2)
            params["mu"] = o["mu"]
            mon.ok("fresh", o["mu"] == new["mu"], {"mu": [o["mu"], new["mu"]]})
            lastdisc = None
        readback()
        # energies and velocities follow the parameters at once
        if r % 4 == 0:
            new = fresh()
            k = np.array([[0.31, -0.2], [0.11, 0.42], [0.07, -0.05]])
            mon.close("fresh", o.energy_func(*k), new.energy_func(*k), 1e-12)
            mon.close("fresh", np.array(o.velocity_func(*k)), np.array(new.velocity_func(*k)), 1e-12)
