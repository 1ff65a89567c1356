"""C01: energy and velocity follow the band model (reference-model monitor with complex-step gradients)."""
import numpy as np

from . import wl
from .ref import Model

RULE = ("random analytic band models (sums of products of trigonometric, polynomial, exponential and root terms) with random, "
        "also Sympy-reserved, parameter names in random dictionary order; evaluated on 1-D/2-D/3-D k arrays, before and after "
        "parameter/energy-scale/lattice updates, uncompiled and compiled (serial and parallel). Distinct = distinct (model, names, mode).")
NEED = {"energy": 2000, "velocity": 6000, "shape": 100, "updates": 40, "jit parallel": 1, "jit serial": 1}
NAMES = ["t", "tp", "tpp", "tz", "mu", "w", "M", "E", "S", "N", "Q", "C", "O", "beta", "gamma", "zeta", "pi", "I", "alpha",
         "t1", "t_2", "V0", "Delta", "lam", "x", "y", "z", "u", "A", "B", "k0", "epsilon", "phi"]
RESERVED = {"E", "S", "N", "Q", "C", "O", "beta", "gamma", "zeta", "pi", "I"}


def term(rng):
    k = ["kx", "ky", "kz"]
    l = {"kx": "a", "ky": "b", "kz": "c"}

    def atom():
        q = str(rng.choice(k))
        n = int(rng.integers(1, 4))
        kind = int(rng.integers(0, 8))
        if kind <= 1:
            return "cos(%d*%s*%s)" % (n, l[q], q)
        if kind == 2:
            return "sin(%d*%s*%s)" % (n, l[q], q)
        if kind == 3:
            return "cos(%s*%s/2)" % (l[q], q)
        if kind == 4:
            return "%s**%d" % (q, int(rng.integers(1, 4)))
        if kind == 5:
            return "exp(-(%s*%s)**2/8)" % (l[q], q)
        if kind == 6:
            return "sqrt(1 + (%s*%s)**2)" % (l[q], q)
        return "(cos(a*kx) - cos(b*ky))**2"
    return "*".join(atom() for _ in range(int(rng.integers(1, 4))))


def cases(rng, tier):
    out = []

    def make(env, i):
        np_ = int(rng.integers(1, 9))
        names = [str(x) for x in rng.permutation(NAMES)[:np_]]
        bp = {n: wl.U(rng, -1.5, 1.5, 4) for n in names}
        if rng.random() < 0.3:
            bp[names[0]] = 0.0
        if rng.random() < 0.3:
            bp[names[-1]] = int(rng.integers(-3, 4))
        terms = []
        for j, n in enumerate(names):
            tt = term(rng) if (j or rng.random() < 0.6) else "1"
            form = int(rng.integers(0, 4))
            terms.append([" + %s*%s", " - 2*%s*%s", " + %s**2*%s", " - 4*%s*%s/3"][form] % (n, tt))
        if np_ == 1 and terms[0].endswith("*1") or terms[0].endswith("*1/3"):   # a constant is not a band
            terms.append(" - cos(a*kx)*cos(b*ky)")
        special = int(rng.integers(0, 6))
        if special == 0:            # linear dispersion: constant velocity component
            terms.append(" + %s*%s" % (names[0], ["kx", "ky", "kz"][int(rng.integers(0, 3))]))
        if special == 1:            # root of a sum, as for reconstructed bands
            terms.append(" - sqrt((%s*cos(a*kx))**2 + (cos(b*ky))**2 + 1)" % names[-1])
        model = "".join(terms).strip()
        return {"env": env, "model": model, "names": names, "bp": wl.shuffled(rng, bp),
                "lat": [wl.U(rng, 2, 6, 3), wl.U(rng, 2, 6, 3), wl.U(rng, 4, 15, 3)] if rng.random() < 0.8 else [3.7, 3.7, 13.2],
                "scale": wl.f(np.exp(rng.uniform(0, 7)) * rng.choice([1, 1, 1, -1]), 2), "parallel": bool(i % 2), "kseed": int(rng.integers(1 << 30)),
                # none of these enters the energy
                "other": {"number_of_bz": int(rng.choice([1, 2, 4])), "k_max": [wl.U(rng, 0.5, 2.5, 2) * np.pi for _ in range(3)],
                          "resolution": [int(x) for x in rng.choice([5, 7, 12, 41, 81], 3)], "march_square": bool(rng.integers(0, 2)),
                          "band_name": str(rng.choice(["band_1", "h", "LargePocket"]))}}
    n0, n1 = (110, 16) if tier == "quick" else (3000, 250)
    for i in range(n0):
        out.append(make("nojit", i))
    for i in range(n1):
        out.append(make("jit", i))
    # the documented bands
    for g in (wl.cuprate, wl.trig, wl.para3, wl.para2, wl.pockets):
        for env in ("nojit", "jit"):
            p = g(rng)
            out.append({"env": env, "model": p["band_model"], "names": sorted(p["band_params"]), "bp": p["band_params"],
                        "lat": [p["a"], p["b"], p["c"]], "scale": p["energy_scale"], "parallel": env == "jit",
                        "kseed": int(rng.integers(1 << 30))})
    return out


def run(case, mon):
    from cuprates_transport.bandstructure import BandStructure
    rng = np.random.default_rng(case["kseed"])
    a, b, c = case["lat"]
    o = BandStructure(a, b, c, case["scale"], band_params=dict(case["bp"]), band_model=case["model"],
                      parallel=case["parallel"], **case.get("other", {"resolution": [7, 7, 5]}))
    mon.event("jit " + ("parallel" if case["parallel"] else "serial") if case["env"] == "jit" else "uncompiled")
    mon.seen(case["model"], sorted(case["bp"]), case["env"], case["parallel"])
    cur, scale = dict(case["bp"]), case["scale"]
    lat = [a, b, c]

    def check(shape, tag):
        a, b, c = lat
        far = rng.choice([1, 1, 3])       # also beyond the first zone
        k = [far * rng.uniform(-np.pi / l, np.pi / l, shape) for l in (a, b, c)]
        k0 = [x.copy() for x in k]
        m = Model(case["model"], cur, scale, a, b, c)
        # scale of the terms that may cancel in the sum
        E = o.energy_func(*k)
        v = o.velocity_func(*k)
        want = m.E(*k)
        mag = scale * (1 + sum(abs(x) for x in cur.values())) ** 2 * 20
        mon.close("energy", E, want, 1e-11, {"tag": tag}, scale=max(np.max(np.abs(want)), mag))
        wv = m.v(*k)
        vs = max(max(np.max(np.abs(x)) for x in wv), 1e-3 * mag)
        mon.ok("components", len(v) == 3, {"len": len(v)})
        for i in range(3):
            mon.ok("shape", np.shape(v[i]) == tuple(shape), {"component": i, "shape": np.shape(v[i]), "input": shape})
            mon.close("velocity", v[i], wv[i], 1e-10, {"tag": tag, "component": i}, scale=vs)
        for x, y in zip(k, k0):
            mon.ok("input untouched", np.array_equal(x, y))
    for shape in ((17,), (5, 4), (3, 4, 2)) if case["env"] != "jit" else ((17,), (5, 4)):
        check(shape, "initial")
    # updates through the documented ways
    ways = [int(x) for x in rng.permutation(6)[:4]]
    for w in ways:
        n = str(rng.choice(case["names"]))
        val = float(np.round(rng.uniform(-2, 2), 4))
        if w == 0:
            o[n] = val
            cur[n] = val
        elif w == 1:
            o.set_band_param(n, val)
            cur[n] = val
        elif w == 2:
            cur = {q: (val if q == n else x) for q, x in cur.items()}
            o.band_params = dict(reversed(list(cur.items())))
        elif w == 3:
            scale = float(np.round(rng.uniform(1, 300), 2))
            o.energy_scale = scale
        elif w == 5:               # the lattice constants are attributes
            q = int(rng.integers(0, 3))
            lat[q] = float(np.round(rng.uniform(2, 9), 3))
            setattr(o, "abc"[q], lat[q])
        else:
            o[n] = 0
            cur[n] = 0
        mon.event("updates")
        check((11,), "update %d" % w)
