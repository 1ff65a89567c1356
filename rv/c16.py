"""C16: model-based histories on one conductivity.  The model only knows the current settings; every run of the long-lived object is
compared with the run of an object built from those settings at that moment."""
import numpy as np

from . import wl

RULE = ("random histories of 6-20 operations (field amplitude incl. zero and negative, angles, temperature incl. zero, time steps, energy grid, cut-off, tolerances, scattering parameters by attribute and dictionary, "
        "model lists, band parameters and energy scale with rediscretization, method switches, runs, failed runs (no surface in the window, surface not discretized), scans, figures, cyclotron products) on "
        "random bands; after every run all published results against a newly built object. Distinct = distinct (band, history prefix ending in a run).")
NEED = {"sigma": 500, "rates": 200, "orbits": 200, "time grid": 200, "omegac": 30, "repeat": 60, "after failed run": 15, "after scan": 7, "after figure": 8, "finite T": 40, "B=0": 40,
        "band change": 30, "N_time before run": 5}


def gen(rng):
    k = int(rng.integers(0, 4))
    if k == 0:
        p = wl.general(rng, res=(9, 11, 5))
    elif k == 1:
        p = wl.para2(rng, iso=bool(rng.integers(0, 2)), hole=bool(rng.integers(0, 2)), res=(11, 11, 3))
    elif k == 2:
        p = wl.pockets(rng, res=(15, 15, 5))
    else:
        p = wl.cuprate(rng, res=(9, 11, 5))
    mod, sp = wl.scattering(rng)
    p.update(scattering_models=mod, scattering_params=sp)
    return p


OPS = ["B", "B0", "th", "ph", "T", "T0", "N", "Neps", "cut", "tol", "attr", "sdict", "models", "mu", "param", "scale", "square",
       "run", "failT", "failK", "scan", "fig", "wc"]
W = [.08, .03, .07, .06, .06, .04, .07, .03, .03, .02, .08, .04, .04, .03, .03, .02, .03, .12, .03, .03, .03, .02, .04]


def cases(rng, tier):
    out = []
    w = np.array(W) / sum(W)
    for i in range(72 if tier == "quick" else 2000):
        p = gen(rng)
        ops = [[str(rng.choice(OPS, p=w)), int(rng.integers(0, 1 << 20))] for _ in range(int(rng.integers(6, 20)))]
        if i % 4 == 0:    # the histories that matter most always occur
            k = [["run", "failT", "T0", "run", "attr", "run"], ["B0", "run", "B", "run", "scan", "run", "T", "run", "T0", "run"],
                 ["N", "run", "fig", "run", "models", "run", "failK", "run"], ["T", "run", "mu", "run", "Neps", "run", "B", "wc", "attr", "wc"]][i // 4 % 4]
            ops = [[o, int(rng.integers(0, 1 << 20))] for o in k] + ops[:6]
        out.append({"env": "nojit", "p": p, "ops": ops, "init": {"Bamp": float(rng.choice([0, 12, 35])), "Btheta": wl.U(rng, 0, 90, 1), "Bphi": wl.U(rng, 0, 90, 1),
                                                                   "N_time": int(rng.integers(20, 60)), "T": float(rng.choice([0, 0, 12]))}})
    for i in range(1 if tier == "quick" else 10):
        p = wl.cuprate(rng, res=(9, 11, 5))
        p.update(scattering_models=["isotropic", "cos2phi"], scattering_params={"gamma_0": 5.0, "gamma_k": 20.0, "power": 6})
        out.append({"env": "jit", "p": p, "ops": [[o, 77 + j] for j, o in enumerate(["run", "B", "run", "attr", "mu", "run", "T", "run"])],
                    "init": {"Bamp": 20.0, "Btheta": 30.0, "Bphi": 10.0, "N_time": 40, "T": 0}})
    return out


class Settings:
    def __init__(self, case):
        p = case["p"]
        self.p = dict(p, band_params=dict(p["band_params"]))
        self.square = False
        self.c = dict(case["init"], N_epsilon=5, dfdE_cut_percent=0.05, rtol=1e-4, atol=1e-4)
        self.mod = list(p["scattering_models"])
        self.sp = dict(p["scattering_params"])

    def build(self):
        b = wl.band(self.p, march_square=self.square)
        b.runBandStructure()
        return wl.cond(b, {}, scattering_models=list(self.mod), scattering_params=dict(self.sp), **self.c)


def run(case, mon):
    import matplotlib.pyplot as plt
    from cuprates_transport.admr import ADMR
    S = Settings(case)
    c = S.build()
    hist, last = [], None
    flags = set()

    def compare(tag="run"):
        nonlocal last
        new = S.build()
        # a window of energies that leaves the band has no answer: both must refuse
        try:
            new.runTransport()
            err = None
        except Exception as e:
            err = type(e).__name__
        try:
            c.runTransport()
            got = None
        except Exception as e:
            got = type(e).__name__
        info = lambda: {"history": hist, "settings": S.c, "models": S.mod, "scattering": S.sp, "params": S.p["band_params"], "scale": S.p["energy_scale"]}
        mon.ok("same outcome", err == got, lambda: {"got": got, "new": err, **info()})
        if err or got:
            flags.add("after failed run")
            return
        mon.seen(case["p"], hist)
        mon.event("finite T" if S.c["T"] else "zero T")
        if S.c["Bamp"] == 0:
            mon.event("B=0")
        for f in flags:
            mon.event(f)
        flags.clear()
        mon.close("sigma", c.sigma, new.sigma, 1e-9, info)
        mon.close("alpha", c.alpha, new.alpha, 1e-9, info, scale=np.max(np.abs(new.alpha)) + 1e-30)
        mon.close("beta", c.beta, new.beta, 1e-9, info, scale=np.max(np.abs(new.beta)) + 1e-30)
        mon.close("rates", [c.gamma_tot_max, c.gamma_tot_min], [new.gamma_tot_max, new.gamma_tot_min], 1e-9, info)
        mon.close("time grid", [c.time_max, c.dtime], [new.time_max, new.dtime], 1e-9, info)
        mon.close("time grid", c.time_array, new.time_array, 1e-9, info)
        for n in ("kft", "vft", "t_o_tau"):
            # the last surface of a finite-temperature run is the top of the window for both
            mon.close("orbits", getattr(c, n), getattr(new, n), 1e-8, lambda: {"attr": n, **info()})
        mon.close("field", c.B_vector, new.B_vector, 1e-12, info)
        for n in ("kf", "vf", "dkf", "dos_k", "p", "n"):
            mon.close("surface", getattr(c.bandObject, n), getattr(new.bandObject, n), 1e-9, lambda: {"attr": n, **info()})
        last = np.array(c.sigma)
        keep = [np.array(x) for x in (c.sigma, c.alpha, c.beta)] + [c.gamma_tot_max, c.gamma_tot_min]
        if len(hist) % 2:
            c.runTransport()
            now = [c.sigma, c.alpha, c.beta, c.gamma_tot_max, c.gamma_tot_min]
            mon.ok("repeat", all(np.array_equal(x, y) for x, y in zip(keep, now)), lambda: {"first": keep[0], "second": now[0], **info()})

    started = False
    for op, r in case["ops"]:
        hist.append([op, r])
        g = np.random.default_rng(r)
        es = S.p["energy_scale"]
        wide = 0.15 * es if "Ex" not in S.p["band_params"] else 0.4 * S.p["band_params"]["mu"]

        def tmax():        # the window of energies stays well inside the band
            return wide / (2 * 0.0861733 * np.arccosh(1 / np.sqrt(S.c["dfdE_cut_percent"])))
        if op == "B":
            S.c["Bamp"] = wl.U(g, -50, 50, 2)
            c.Bamp = S.c["Bamp"]
        elif op == "B0":
            S.c["Bamp"] = 0
            c.Bamp = 0
        elif op == "th":
            S.c["Btheta"] = wl.U(g, -100, 110, 1)
            c.Btheta = S.c["Btheta"]
        elif op == "ph":
            S.c["Bphi"] = wl.U(g, -100, 110, 1)
            c.Bphi = S.c["Bphi"]
        elif op == "T":
            S.c["T"] = wl.f(g.uniform(0.1, 0.9) * tmax(), 2)
            c.T = S.c["T"]
        elif op == "T0":
            S.c["T"] = 0
            c.T = 0
        elif op == "N":
            S.c["N_time"] = int(g.integers(10, 70))
            c.N_time = S.c["N_time"]
            if not started:
                flags.add("N_time before run")
        elif op == "Neps":
            S.c["N_epsilon"] = int(g.integers(2, 7))
            c.N_epsilon = S.c["N_epsilon"]
        elif op == "cut":
            S.c["dfdE_cut_percent"] = wl.U(g, 0.02, 0.2, 4)
            c.dfdE_cut_percent = S.c["dfdE_cut_percent"]
        elif op == "tol":
            S.c["rtol"] = S.c["atol"] = float(g.choice([1e-3, 1e-4, 1e-5]))
            c.rtol, c.atol = S.c["rtol"], S.c["atol"]
        elif op == "attr":
            n = str(g.choice(sorted(S.sp)))
            S.sp[n] = wl.U(g, 1, 15, 3)
            setattr(c, n, S.sp[n])
        elif op == "sdict":
            S.sp = {k: wl.f(v * g.uniform(0.7, 1.4), 4) for k, v in S.sp.items()}
            given = dict(S.sp)
            c.scattering_params = given
        elif op == "models":
            S.mod, _ = wl.scattering(g)
            c.scattering_models = list(S.mod)
        elif op in ("mu", "param", "scale", "square"):
            if op == "scale":
                S.p["energy_scale"] = wl.f(es * g.uniform(0.9, 1.1), 3)
                c.bandObject.energy_scale = S.p["energy_scale"]
            elif op == "square":
                S.square = not S.square
                c.bandObject.march_square = S.square
            else:
                n = "mu" if op == "mu" else str(g.choice(sorted(S.p["band_params"])))
                S.p["band_params"][n] = wl.f(S.p["band_params"][n] * g.uniform(0.93, 1.07), 5)
                c.bandObject[n] = S.p["band_params"][n]
                if r % 3 == 0:
                    c.bandObject.band_params = dict(S.p["band_params"])
            c.bandObject.runBandStructure()
            flags.add("band change")
        elif op == "run":
            compare()
            started = True
        elif op == "failT":
            # the energies of the window reach beyond the band: the run fails
            T, cut = S.c["T"], S.c["dfdE_cut_percent"]
            c.T = float(20 * tmax())
            try:
                c.runTransport()
                mon.event("wide window ran")
            except Exception:
                flags.add("after failed run")
            c.T = T
        elif op == "failK":
            # parameters changed but surface not discretized: a run must not use the old one
            n = "mu"
            S.p["band_params"][n] = wl.f(S.p["band_params"][n] * g.uniform(0.95, 1.05), 5)
            c.bandObject[n] = S.p["band_params"][n]
            before = np.array(c.sigma) if started else None
            try:
                c.runTransport()
                # if it answers, it must be the right answer
                new = S.build()
                new.runTransport()
                mon.close("sigma", c.sigma, new.sigma, 1e-9, lambda: {"history": hist, "note": "ran without discretization"})
            except Exception:
                flags.add("after failed run")
            c.bandObject.runBandStructure()
        elif op == "scan":
            if S.c["T"]:
                continue
            A = ADMR([c], Btheta_min=0, Btheta_max=40, Btheta_step=20, Bphi_array=[0, 30], show_progress=False)
            try:
                A.runADMR()
            except np.linalg.LinAlgError:      # a cylinder does not conduct along c
                mon.event("cylinder scan")
            c.Btheta, c.Bphi = S.c["Btheta"], S.c["Bphi"]
            flags.add("after scan")
        elif op == "fig":
            c.figParameters(fig_show=False)
            if started and S.c["Bamp"] != 0 and len(c.time_array) == c.vft.shape[2]:
                c.figOnevft()
            plt.close("all")
            flags.add("after figure")
        elif op == "wc":
            if S.c["Bamp"] == 0:
                continue
            new = S.build()
            c.omegac_tau_func()
            new.omegac_tau_func()
            mon.close("omegac", c.omegac_tau_k, new.omegac_tau_k, 1e-8, lambda: {"history": hist})
    hist.append(["end", 0])
    compare()
