"""C09: every scattering-rate evaluation against an own implementation of the documented formulas -- direct calls over generated
points and histories, and the calls the package itself makes during runs (observed by wrapping tau_tot_func at run time)."""
import numpy as np

from . import wl
from .ref import gamma, model_of, fold, hbar

RULE = ("random model lists (all five documented models, any subset and order), parameter values (zero amplitudes and odd powers included), bands with a = b and a != b, "
        "points inside and far outside the zone, on the surface and along orbits, array shapes (n), (n,m), (1), update sequences (attribute, whole dictionary, "
        "model list, band parameter); every call the package makes in a run is checked too. Distinct = distinct (band, models, parameters, shape).")
NEED = {"rate": 20000, "inverse": 1000, "order": 100, "memory": 100, "periodic": 2000, "positive": 100, "max/min": 30, "dos model": 30, "pointwise": 100}


def gen(rng, kinds=None):
    k = int(rng.integers(0, 3))
    p = [wl.cuprate(rng, res=(11, 9, 3)), wl.general(rng, res=(11, 9, 3)), wl.para2(rng, res=(11, 9, 3))][k]
    mod, sp = wl.scattering(rng, kinds, wide=True)
    if rng.random() < 0.2:
        sp[str(rng.choice(["gamma_k", "gamma_k_sin", "gamma_dos_max"]))] = 0
    p.update(scattering_models=mod, scattering_params=sp, Bamp=wl.U(rng, 5, 50, 2), Btheta=wl.U(rng, -60, 100, 1), Bphi=wl.U(rng, -90, 180, 1), N_time=20)
    return p


def cases(rng, tier):
    out = []
    for i in range(90 if tier == "quick" else 2500):
        p = gen(rng)
        ops = [str(x) for x in rng.choice(["attr", "attr", "dict", "models", "mu", "run", "run0", "runT", "none", "square"], size=int(rng.integers(3, 7)))]
        out.append({"env": "nojit", "p": p, "ops": ops, "seed": int(rng.integers(0, 1 << 30))})
    for i in range(2 if tier == "quick" else 30):
        out.append({"env": "jit", "p": gen(rng), "ops": ["run", "attr", "run"], "seed": i})
    return out


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    p = case["p"]
    lat = (p["a"], p["b"], p["c"])
    b = wl.band(p)
    b.runBandStructure()
    c = wl.cond(b, p)
    models, sp, bp = list(p["scattering_models"]), dict(p["scattering_params"]), dict(p["band_params"])
    real = c.tau_tot_func
    inrun = [False]

    def want(k, v):
        dm = float(np.max(c.bandObject.dos_k)) if "gamma_dos_func" in models else None
        return gamma(models, sp, lat, *np.broadcast_arrays(*k), v=v, dos_max=dm)

    def edge(k):
        """points where the folding branch is decided by rounding"""
        e = np.zeros(np.broadcast(*k).shape, bool)
        for x, a in zip(k[:2], lat[:2]):
            e |= np.abs(np.abs(fold(np.asarray(x, float), a)) - np.pi / a) < 1e-9
        # the angle is undefined on the zone axis
        return e | (np.hypot(fold(np.asarray(k[0], float), lat[0]), fold(np.asarray(k[1], float), lat[1])) < 1e-6)

    def judge(k, v, got, where):
        w = want(k, v)
        ok = ~edge(k)
        got = np.asarray(got)
        if not mon.ok("positive", got.shape == w.shape and np.all(got > 0), lambda: {"shape": [got.shape, w.shape], "where": where}):
            return
        # |cos|**power amplifies the rounding of the angle
        mon.close("rate", 1 / got[ok], w[ok], 1e-8, lambda: {"where": where, "models": models, "params": sp}, scale=w[ok] + 1e-9)

    def spy(kx, ky, kz, vx, vy, vz, *args, **kw):
        before = [np.array(x) for x in (kx, ky, kz, vx, vy, vz)]
        r = real(kx, ky, kz, vx, vy, vz, *args, **kw)
        mon.event("call inside run")
        judge(before[:3], before[3:], r, "run")
        mon.ok("arguments kept", all(np.array_equal(x, y) for x, y in zip(before, (kx, ky, kz, vx, vy, vz))))
        return r

    def direct():
        mon.seen(p["band_params"], models, sp)
        n = int(rng.integers(2, 60))
        shape = [(n,), (n, 3), (1,), (2, 3, 4)][int(rng.integers(0, 4))]
        k = [rng.uniform(-3, 3, shape) * np.pi / a for a in lat]
        v = [rng.normal(0, 1e5, shape) for _ in range(3)]
        t = real(*[x.copy() for x in k], *[x.copy() for x in v])
        judge(k, v, t, "direct")
        mon.close("inverse", np.asarray(c.gamma_tot) * t, np.ones(shape), 1e-12)
        # nothing is remembered, and each point stands alone
        k2 = [rng.uniform(-3, 3, 7) * np.pi / a for a in lat]
        real(*k2, *[rng.normal(0, 1e5, 7) for _ in range(3)])
        mon.close("memory", real(*[x.copy() for x in k], *[x.copy() for x in v]), t, 1e-12, scale=np.abs(t))
        perm = rng.permutation(t.size)
        one = real(*[x.ravel()[perm].copy() for x in k], *[x.ravel()[perm].copy() for x in v])
        mon.close("pointwise", one, t.ravel()[perm], 1e-12, scale=np.abs(t.ravel()[perm]))
        one = real(*[x.ravel()[:1].copy() for x in k], *[x.ravel()[:1].copy() for x in v])
        mon.close("pointwise", one, t.ravel()[:1], 1e-12, scale=np.abs(t.ravel()[:1]))
        # order of the models
        old = list(c.scattering_models)
        c.scattering_models = old[::-1]
        mon.close("order", real(*k, *v), t, 1e-11, scale=np.abs(t))
        c.scattering_models = old
        # Brillouin zone (in z the documented cos(kz c/2) has the period 2 pi / c in absolute value)
        g = [k[i] + 2 * np.pi / lat[i] * rng.integers(-3, 4, shape) for i in range(3)]
        ok = ~(edge(k) | edge(g))
        w = np.abs(t)
        r2 = real(*g, *v)
        mon.close("periodic", r2[ok], t[ok], 1e-7, lambda: {"models": models}, scale=w[ok])
        if "gamma_dos_func" in models:
            mon.event("dos model")

    def extremes():
        kf, vf = np.asarray(c.bandObject.kf, float), np.asarray(c.bandObject.vf)
        w = want(list(kf), list(vf))
        mon.close("max/min", 1 / c.tau_total_max(), w.min(), 1e-8)
        mon.close("max/min", 1 / c.tau_total_min(), w.max(), 1e-8)

    def after_run():
        kf, vf = np.asarray(c.bandObject.kf, float), np.asarray(c.bandObject.vf)
        w = want(list(kf), list(vf))
        mon.close("max/min", [c.gamma_tot_min, c.gamma_tot_max], [w.min(), w.max()], 1e-8)

    direct()
    extremes()
    for op in case["ops"]:
        if op == "attr":
            n = str(rng.choice(sorted(sp)))
            v = float(np.round(rng.uniform(1, 30), 3))
            setattr(c, n, v)
            sp[n] = v
        elif op == "dict":
            sp = {n: float(np.round(rng.uniform(1, 30), 3)) for n in rng.permutation(sorted(sp))}
            c.scattering_params = dict(sp)
        elif op == "models":
            models = [str(x) for x in rng.permutation(["isotropic", "cos2phi", "cos2phi_coskz", "sin2phi", "gamma_dos_func"])[:int(rng.integers(1, 5))]]
            if "isotropic" not in models:
                models.append("isotropic")
            c.scattering_models = list(models)
        elif op == "mu":
            bp["mu"] = bp["mu"] * 0.98
            c.bandObject["mu"] = bp["mu"]
            c.bandObject.runBandStructure()
        elif op == "square":
            c.bandObject.march_square = not c.bandObject.march_square
            c.bandObject.runBandStructure()
        elif op in ("run", "run0", "runT"):
            c.tau_tot_func = spy
            B, T = c.Bamp, c.T
            if op == "run0":
                c.Bamp = 0
            if op == "runT":
                c.N_epsilon = 4
                c.T = 30
            c.runTransport()
            del c.tau_tot_func
            c.Bamp, c.T = B, T
            after_run()
            # the lifetimes along the orbits are those of the points passed
            if op == "run":
                kt, vt = c.kft, c.vft
                judge(list(kt), list(vt), c.tau_tot, "orbits")
            elif op == "runT":
                c.bandObject.runBandStructure()
        direct()
        extremes()
