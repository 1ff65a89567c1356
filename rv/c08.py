"""C08: aliasing monitor.  Every input object given to the package is snapshot before and compared (values, types, orders) after every
operation; afterwards the inputs are scribbled over and the objects must behave like ones built from pristine copies; siblings built from
the same inputs are operated on in turn and compared with lone ones; default arguments of all functions are watched."""
import copy

import numpy as np

from . import fits, wl

RULE = ("random bands, conductivities (zero and finite T), scans, multi-temperature/one-temperature/sequential fit objects built from shared dictionaries, lists and arrays; random operations (setters, runs, scans, "
        "solver, fits evaluations); inputs compared after each, then scribbled over (values changed, keys removed and added, lists reversed) with results against pristine builds; sibling and default-argument "
        "interference; deep copies. Distinct = distinct (kind, inputs, operations).")
NEED = {"inputs kept": 400, "after scribble": 100, "sibling": 100, "defaults": 100, "own band": 40, "fit inputs kept": 40, "fit after scribble": 12, "setter copies": 40, "deepcopy": 20, "scan": 15}


def gen(rng, res=(9, 9, 5)):
    k = int(rng.integers(0, 3))
    p = [wl.cuprate(rng, res=res), wl.trig(rng, ortho=bool(rng.integers(0, 2)), res=res), wl.pockets(rng, res=(15, 15, 5))][k]
    mod, sp = wl.scattering(rng)
    p.update(scattering_models=mod, scattering_params=sp, Bamp=float(rng.choice([0, 25, 40])), Btheta=wl.U(rng, 0, 90, 1), Bphi=wl.U(rng, 0, 90, 1),
             N_time=30, T=float(rng.choice([0, 0, 8])), N_epsilon=3, dfdE_cut_percent=0.1)
    return p


OPS = ["B", "T", "attr", "sdict", "mu", "dict", "scale", "run", "square", "disc", "wc", "doping", "models", "own_lists"]


def cases(rng, tier):
    out = []
    q = tier == "quick"
    for i in range(36 if q else 700):
        out.append({"env": "nojit", "kind": "objects", "p": gen(rng), "p2": gen(rng), "ops": [[str(rng.choice(OPS)), int(rng.integers(0, 1 << 20))] for _ in range(int(rng.integers(4, 12)))]})
    for i in range(6 if q else 80):
        out.append({"env": "nojit", "kind": "defaults", "seed": int(rng.integers(0, 1 << 30)), "ops": [[str(rng.choice(OPS)), int(rng.integers(0, 1 << 20))] for _ in range(5)]})
    for i in range(12 if q else 150):
        nb = 2 if i % 3 == 0 else 1
        ps = {str(T): {"b%d" % j: fits.band_dict(rng, "b%d" % j) for j in range(nb)} for T in (25, 6)}
        out.append({"env": "nojit", "kind": ["multi", "one", "series", "seriesM"][i % 4], "params": ps, "seed": int(rng.integers(0, 1 << 30)), "norm": bool(rng.integers(0, 2))})
    out.append({"env": "jit", "kind": "objects", "p": dict(gen(rng), T=0.0, Bamp=25.0), "p2": dict(gen(rng), T=0.0), "ops": [[o, 5] for o in ("mu", "run", "attr", "run")]})
    return out


def all_defaults():
    import importlib
    import inspect
    out = {}
    for m in ("bandstructure", "scattering", "conductivity", "admr", "fitting_admr_parallel_multiT", "fitting_admr_parallel_oneT", "fitting_admr_series_oneT", "fitting_admr_series_multi_T"):
        mod = importlib.import_module("cuprates_transport." + m)
        for n, x in vars(mod).items():
            fs = [(n, x)] if inspect.isfunction(x) else [(n + "." + k, v) for k, v in vars(x).items() if inspect.isfunction(v)] if inspect.isclass(x) and x.__module__ == mod.__name__ else []
            for k, f in fs:
                if f.__module__ == mod.__name__:
                    out[m + "." + k] = (copy.deepcopy(f.__defaults__), copy.deepcopy(f.__kwdefaults__))
    return out


def run(case, mon):
    before = all_defaults()
    {"objects": objects, "defaults": defaults}.get(case["kind"], fitcase)(case, mon)
    after = all_defaults()
    mon.ok("defaults", set(before) == set(after))
    for k in before:
        mon.ok("defaults", fits.same(before[k], after.get(k)), lambda: {"function": k, "before": before[k], "after": after.get(k)})


def outputs(c, run=True):
    """what a user reads off a conductivity and its band"""
    b = c.bandObject
    out = {}
    if b.kf is None:
        b.runBandStructure()
    if run:
        try:
            c.runTransport()
            out["sigma"], out["beta"] = np.array(c.sigma), np.array(c.beta)
            out["gamma"] = np.array([c.gamma_tot_max, c.gamma_tot_min])
        except Exception as e:
            out["error"] = type(e).__name__
    k = np.array([[0.31, -0.2, 0.5], [0.11, 0.42, 0.3], [0.07, -0.05, 0.2]])
    out["E"] = np.array(b.energy_func(*k))
    out["v"] = np.array(b.velocity_func(*k))
    out["kf"], out["dkf"] = np.array(b.kf), np.array(b.dkf)
    out["res"] = np.array(b.resolution, float)
    out["k_max"] = np.array(b.k_max, float)
    out["rate"] = 1 / np.array(c.tau_tot_func(*k, *np.array(b.velocity_func(*k))))
    out["field"] = np.array(c.B_vector)
    out["doping"] = np.array(b.doping(21, 21, 7))
    return out


def equal(mon, kind, x, y, info):
    for n in y:
        if n == "error" or "error" in x:
            mon.ok(kind, x.get("error") == y.get("error"), lambda: {"got": x.get("error"), "want": y.get("error"), **info()})
            continue
        mon.close(kind, x[n], y[n], 1e-10, lambda: {"what": n, **info()}, scale=np.max(np.abs(y[n])) + 1e-30)


def act(c, op, r, names, sp):
    g = np.random.default_rng(r)
    b = c.bandObject
    if op == "B":
        c.Bamp, c.Btheta, c.Bphi = wl.U(g, -40, 40, 1), wl.U(g, 0, 90, 1), wl.U(g, 0, 90, 1)
    elif op == "T":
        c.T = float(g.choice([0, 5, 9]))
        c.N_epsilon = 2 + r % 3
    elif op == "attr":
        setattr(c, sorted(sp)[r % len(sp)], wl.U(g, 3, 9, 3))
    elif op == "sdict":
        c.scattering_params = {k: v * 1.2 + 0.1 for k, v in sp.items()}
    elif op == "mu":
        b["mu"] = wl.f(b["mu"] * g.uniform(0.95, 1.05), 5)
    elif op == "dict":
        b.band_params = {k: wl.f(v * (1 if k in "tw" else 1.02), 6) for k, v in b.band_params.items()}
    elif op == "scale":
        b.energy_scale = b.energy_scale * 1.05
    elif op == "square":
        b.march_square = not b.march_square
        b.runBandStructure()
    elif op == "disc":
        b.discretize_fermi_surface(epsilon=wl.U(g, -0.02, 0.02) * b.energy_scale)
    elif op == "doping":
        b.doping(15, 15, 5)
    elif op == "models":
        c.scattering_models = ["isotropic", "cos2phi"]
    elif op == "own_lists":
        # the object's own lists, changed in place by somebody who only means this object
        b.resolution[0] = 11
        b.k_max[2] = b.k_max[2] * 0.9
        c.scattering_models.append("isotropic")
        c.scattering_params["gamma_0"] = 99.0
        b.band_params["mu"] = b.band_params["mu"] * 1.01
        b.erase_Fermi_surface()
    elif op == "run":
        if b.kf is None:
            b.runBandStructure()
        try:
            c.runTransport()
        except Exception:
            pass
    elif op == "wc" and c.Bamp != 0 and b.kf is not None:
        c.omegac_tau_func()


def objects(case, mon):
    from cuprates_transport.admr import ADMR
    from cuprates_transport.bandstructure import BandStructure
    from cuprates_transport.conductivity import Conductivity
    mon.seen(case)
    p, p2 = case["p"], case["p2"]
    jit = case["env"] == "jit"

    def band_of(d, pristine=True):
        d = copy.deepcopy(d) if pristine else d
        return BandStructure(parallel=False, **{k: d[k] for k in wl.BKEYS if k in d})

    ckeys = ("Bamp", "Bphi", "Btheta", "N_time", "T", "dfdE_cut_percent", "N_epsilon", "scattering_models", "scattering_params")

    def cond_of(b, d, pristine=True):
        d = copy.deepcopy(d) if pristine else d
        return Conductivity(b, **{k: d[k] for k in ckeys if k in d})

    # the caller's objects, shared between everything built here
    mine = fits.snap(p)
    shot = fits.snap(mine)
    info = lambda: {"ops": case["ops"]}

    def kept(when):
        mon.ok("inputs kept", fits.same(mine, shot), lambda: {"when": when, "before": shot, "after": mine, **info()})
    b1 = band_of(mine, False)
    kept("band built")
    b2 = band_of(mine, False)
    b1.runBandStructure()
    kept("band run")
    c1 = cond_of(b1, mine, False)
    c2 = cond_of(b1, mine, False)
    kept("conductivities built")
    lone = cond_of(band_of(p), p)
    lone.bandObject.runBandStructure()
    ref = outputs(lone)
    kfb = np.array(b1.kf)
    # operations on one object: the others do not notice
    for op, r in case["ops"]:
        act(c1, op, r, None, p["scattering_params"])
        kept(op)
    equal(mon, "sibling", outputs(c2), ref, info)
    c3 = cond_of(b2, p)
    equal(mon, "sibling", outputs(c3), ref, info)
    # the band given to a conductivity is not the one it works on
    mon.ok("own band", np.array_equal(b1.kf, kfb) and dict(b1.band_params) == dict(p["band_params"]) and b1.energy_scale == p["energy_scale"], info)
    mon.ok("own band", c1.bandObject is not b1 and c2.bandObject is not b1 and c1.bandObject is not c2.bandObject)
    c4 = cond_of(b1, p)
    act(c4, "mu", 3, None, p["scattering_params"])
    b1["mu"] = b1["mu"] * 1.04
    b1.runBandStructure()
    b1.resolution[1] = 13
    equal(mon, "own band", outputs(c2), ref, info)
    kept("band modified")
    # another band altogether, interleaved
    d1, d2 = cond_of(band_of(p), p), cond_of(band_of(p2), p2)
    o2 = outputs(d2)
    equal(mon, "sibling", outputs(d1), ref, info)
    if not jit:
        e2 = cond_of(band_of(p2), p2)
        equal(mon, "sibling", outputs(e2), o2, info)
    # deep copies are independent
    cc = copy.deepcopy(d1)
    for op, r in case["ops"][:4]:
        act(cc, op, r + 1, None, p["scattering_params"])
    equal(mon, "deepcopy", outputs(d1), ref, info)
    # setters copy what they are given
    new_b = {k: v for k, v in p["band_params"].items()}
    new_s = dict(p["scattering_params"])
    d1.bandObject.band_params = new_b
    d1.scattering_params = new_s
    d1.bandObject.runBandStructure()
    nb, ns = fits.snap(new_b), fits.snap(new_s)
    x = outputs(d1)
    mon.ok("setter copies", fits.same(new_b, nb) and fits.same(new_s, ns), lambda: {"band": new_b, "scattering": new_s})
    fits.scribble(new_b)
    fits.scribble(new_s)
    d1.bandObject.erase_Fermi_surface()
    equal(mon, "setter copies", outputs(d1), x, info)
    equal(mon, "setter copies", x, ref, info)
    # what is read back is the object's own
    mon.ok("setter copies", dict(d1.scattering_params) == dict(p["scattering_params"]) and dict(d1.bandObject.band_params) == dict(p["band_params"]),
           lambda: {"read": [d1.scattering_params, d1.bandObject.band_params], **info()})
    new_s = dict(p["scattering_params"])
    c1.scattering_params = new_s
    d1.scattering_params = new_s
    c1.scattering_params["gamma_0"] = -5.0
    mon.ok("setter copies", fits.same(new_s, dict(p["scattering_params"])) and dict(d1.scattering_params) == dict(p["scattering_params"]),
           lambda: {"given": new_s, "other": d1.scattering_params})
    # a change of the object does not reach the dictionary it was given
    new_b = dict(p["band_params"])
    d1.bandObject.band_params = new_b
    d1.bandObject["mu"] = 0.123
    mon.ok("setter copies", fits.same(new_b, dict(p["band_params"])), lambda: {"given": new_b})
    # scans: lists of angles and of conductivities
    if "Ex" not in p["band_params"] and p["T"] == 0:
        s1 = cond_of(band_of(p), p)
        s1.bandObject.runBandStructure()
        angles = [0, 30.5]
        lst = [s1]
        A = ADMR(lst, Btheta_min=0, Btheta_max=40, Btheta_step=20, Bphi_array=angles, show_progress=False)
        A.runADMR()
        mon.ok("scan", angles == [0, 30.5] and lst == [s1])
        first = np.array(A.rhozz_array)
        angles[0] = 77
        A.runADMR()
        mon.close("scan", A.rhozz_array, first, 1e-12)
        arr = np.array([0.0, 30.5])
        A2 = ADMR(lst, Btheta_min=0, Btheta_max=40, Btheta_step=20, Bphi_array=arr, show_progress=False)
        A2.Bphi_array[1] = 60.0
        mon.ok("scan", arr[1] == 30.5, {"array": arr})
    # now the caller reuses his objects for something else
    fits.scribble(mine["band_params"])
    fits.scribble(mine["scattering_params"])
    fits.scribble(mine["scattering_models"])
    fits.scribble(mine["resolution"])
    fits.scribble(mine["k_max"])
    for o, what in ((b2, "band"), (c2, "conductivity")):
        if what == "band":
            o.erase_Fermi_surface()
            got = outputs(cond_of(o, p))
        else:
            o.bandObject.erase_Fermi_surface()
            got = outputs(o)
        equal(mon, "after scribble", got, ref, lambda: {"object": what, **info()})


def defaults(case, mon):
    from cuprates_transport.admr import ADMR
    from cuprates_transport.bandstructure import BandStructure
    from cuprates_transport.conductivity import Conductivity
    mon.seen(case)
    mod, sp = ["isotropic", "cos2phi"], {"gamma_0": 5.0, "gamma_k": 20.0, "power": 4}

    def mk():
        return Conductivity(BandStructure(a=3.75, b=3.75, c=13.2, energy_scale=160, parallel=False), Bamp=20, Btheta=30, N_time=20, scattering_models=list(mod), scattering_params=dict(sp))
    x = mk()
    before = {"bp": dict(x.bandObject.band_params), "res": list(x.bandObject.resolution), "k": list(x.bandObject.k_max)}
    ref = outputs(x)
    y = mk()
    for op, r in [["own_lists", 0]] + case["ops"]:
        act(y, op, r, None, sp)
    y.bandObject.resolution[2] = 9
    y.bandObject.k_max[0] = 1.0
    z = mk()
    mon.ok("sibling", (dict(z.bandObject.band_params), list(z.bandObject.resolution), list(z.bandObject.k_max)) == (before["bp"], before["res"], before["k"]),
           lambda: {"new": [dict(z.bandObject.band_params), z.bandObject.resolution, z.bandObject.k_max], "before": before})
    equal(mon, "sibling", outputs(z), ref, lambda: {"note": "default arguments", "ops": case["ops"]})
    A = ADMR([x], show_progress=False)
    w = np.array(A.Bphi_array)
    A.Bphi_array[0] = 5
    mon.ok("sibling", np.array_equal(ADMR([x], show_progress=False).Bphi_array, w))


def fitcase(case, mon):
    rng = np.random.default_rng(case["seed"])
    mon.seen(case)
    T = [25, 6]
    data = {}
    th = np.arange(0, 91, 3.0)
    for t in T:
        for phi in (0, 45):
            f = fits.path(mon, "d%s_%s.dat" % (t, phi))
            fits.write_data(f, [th, fits.curve(phi, t, th)], rng)
            data[t, phi] = [f, 0, 1, 0, 60, 30, 0, 1.0] if case["kind"] == "multi" else [f, 0, 1, 60, 6e-5]
    P = {t: fits.snap(case["params"][str(t)]) for t in T}
    if case["kind"] != "multi":
        b = next(iter(P[25].values()))
        member = dict(b, fixdoping=2, Btheta_min=0, Btheta_max=60, Btheta_step=30, Bphi_array=[0, 45], data_T=25 if case["kind"] != "seriesM" else [25, 6], data_p=0.24)
        if case["kind"] == "seriesM":
            member["Bamp"] = {25: 45.0, 6: 35.0}
            if case["seed"] % 3:         # one set of band parameters per temperature, with a doping to reach or not
                member["band_params"] = {25: member["band_params"], 6: dict(member["band_params"], tz=0.045)}
                member["fixdoping"] = 0.22 if case["seed"] % 2 else 2
    x0 = rng.uniform(0.9, 1.1, 3)
    if case["kind"] == "multi":
        from cuprates_transport.fitting_admr_parallel_multiT import Fitness, SimADMR
        bounds = {25: {"b0": {"gamma_0": [5, 20], "tz": [0.02, 0.1]}}, "all": {"b0": {"energy_scale": [100, 200]}}}
        if case["seed"] % 2:
            bounds[6] = {"b0": {"gamma_k": [5, 80]}}
        args = (data, P, bounds)
        x = [10 * x0[0], 0.05 * x0[1], 150 * x0[2]] + ([33.0] if 6 in bounds else [])
        shot = fits.snap(args)
        mk = lambda a: Fitness(*a, normalized_data=case["norm"])
        ev = lambda f: f.compute_fitness(list(x))
        # the order of the labels follows the dictionary
        if 6 in bounds:
            x = [10 * x0[0], 0.05 * x0[1], 150 * x0[2], 33.0]
    elif case["kind"] == "one":
        from cuprates_transport.fitting_admr_parallel_oneT import FittingADMRParallel
        bounds = {"gamma_0": [5, 20], "tz": [0.02, 0.1], "energy_scale": [100, 200]}
        args = (member, bounds, data)
        shot = fits.snap(args)
        mk = lambda a: FittingADMRParallel(*a, normalized_data=case["norm"], folder=mon.scratch)
        ev = lambda f: f.compute_diff2(np.array([150 * x0[2], 10 * x0[0], 0.05 * x0[1]]))
    else:
        if case["kind"] == "series":
            from cuprates_transport.fitting_admr_series_oneT import FittingADMR
        else:
            from cuprates_transport.fitting_admr_series_multi_T import FittingADMR
        ranges = {"gamma_0": [5, 20], "tz": [0.02, 0.1], "energy_scale": [100, 200]}
        if 25 in member["band_params"]:
            del ranges["tz"]
        args = (member, ranges, data)
        shot = fits.snap(args)

        def mk(a):
            f = FittingADMR(*a, normalized_data=case["norm"], folder=mon.scratch)
            wl.clamp_grid(f.bandObject, 21)
            return f

        def ev(f):
            q = copy.deepcopy(f.pars)
            q["gamma_0"].value, q["energy_scale"].value = 10 * x0[0], 150 * x0[2]
            if "tz" in q:
                q["tz"].value = 0.05 * x0[1]
            return float(np.sum(np.array(f.compute_diff(q)) ** 2)), q["gamma_0"].value

    def kept(when):
        mon.ok("fit inputs kept", fits.same(args, shot), lambda: {"kind": case["kind"], "when": when, "before": shot, "after": args})
    f = mk(args)
    kept("built")
    first = ev(f)
    kept("evaluated")
    g = mk(args)
    mon.ok("fit inputs kept", np.array_equal(ev(g), first), lambda: {"first": first})
    kept("second object")
    ref = mk(fits.snap(shot))
    r = ev(ref)
    for a in args:
        # files stay where they are: names are not part of the scribbling
        if a is data:
            for k in data:
                data[k][3:] = [1.0] * len(data[k][3:])
            data.clear()
        else:
            fits.scribble(a)
    for n in ("data_dict", "bounds_dict", "ranges_dict", "init_member"):
        if hasattr(f, n):
            want = {"data_dict": shot[0] if case["kind"] == "multi" else shot[2], "bounds_dict": shot[2] if case["kind"] == "multi" else shot[1],
                    "ranges_dict": shot[1], "init_member": shot[0]}[n]
            mon.ok("fit after scribble", fits.same(getattr(f, n), want), lambda: {"kind": case["kind"], "what": n, "got": getattr(f, n), "want": want})
    mon.close("fit after scribble", ev(f), r, 1e-10, lambda: {"kind": case["kind"]})
    mon.close("fit after scribble", ev(f), first, 1e-10, lambda: {"kind": case["kind"]})
    if case["kind"] == "multi":
        Q = fits.snap(case["params"]["25"])
        s = SimADMR(Q, np.array([0.0]), np.array([0.0, 30.0]))
        fits.scribble(Q)
        s.compute_rhozz()
        want, _ = fits.simulate(case["params"]["25"], [0.0], [0.0, 30.0])
        mon.close("fit after scribble", s.rhozz_sim_matrix, want, 1e-9, lambda: {"kind": "SimADMR"})
        Q = fits.snap(case["params"]["6"])
        s.params_dict = Q
        mon.ok("fit inputs kept", fits.same(Q, case["params"]["6"]))
        fits.scribble(Q)
        mon.ok("fit after scribble", fits.same(s.params_dict, case["params"]["6"]), lambda: {"kind": "SimADMR setter", "read": s.params_dict})
        s.compute_rhozz()
        want, _ = fits.simulate(case["params"]["6"], [0.0], [0.0, 30.0])
        mon.close("fit after scribble", s.rhozz_sim_matrix, want, 1e-9, lambda: {"kind": "SimADMR setter"})
