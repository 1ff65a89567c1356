"""C23: poisoned allocations, floating-point traps and a finiteness monitor around real runs.

The allocation hook replaces numpy.empty / numpy.empty_like by versions which fill what they return with a poison value; the same
case is executed with several poisons and every published array must be bit-identical.  A second layer runs whole processes under
glibc's MALLOC_PERTURB_, which also reaches memory allocated outside numpy's Python functions (odeint, sorting, cython)."""
import hashlib
import json
import os
import subprocess
import sys
import warnings

import numpy as np

from . import wl

RULE = ("runs of random bands, scattering models and fields at ordinary and extreme settings (T 1e-3..900 K, B 1e-6..500 T of both signs, polar angles 0, 90, 180 and 1e-7 off, energy scales 1e-2..1e5 meV, rates 1e-2..1e5 THz, "
        "2..200 time steps including steps of many cyclotron turns), scans of 1-2 bands, angle lists with repeated, descending and single entries, integrated quantities; each executed with three allocation poisons (NaN, 1e300, 0) and some in whole processes under MALLOC_PERTURB_. "
        "Distinct = distinct case whose published arrays were compared.")
NEED = {"finite": 2500, "poison": 1200, "invalid": 60, "orbits solved": 60, "finite T": 8, "scan": 8, "zero field": 8, "extreme": 40, "malloc": 3}
ASSUMPTIONS = ["tensors read before the first run and energies at which the band has no surface are outside the property",
               "the cyclotron-mass integrals are read with slices (as documented)"]


def cases(rng, tier):
    out = []
    n = 156 if tier == "quick" else 1500
    for i in range(n):
        k = int(rng.integers(0, 6))
        if k == 3 and i % 12 == 8:
            k = 4                  # a scan needs a c-axis conductivity
        if k == 0:
            p = wl.general(rng, res=(11, 11, 5))
        elif k == 1:
            p = wl.pockets(rng, res=(15, 15, 5))
        elif k == 2:
            p = wl.para3(rng, hole=bool(rng.integers(0, 2)), offd=bool(rng.integers(0, 2)), res=(9, 9, 9))
        elif k == 3:
            p = wl.para2(rng, hole=bool(rng.integers(0, 2)), res=(11, 11, 5))
        else:
            p = wl.cuprate(rng, res=(11, 11, 5))
        mod, sp = wl.scattering(rng)
        p.update(scattering_models=mod, scattering_params=sp, Bamp=wl.U(rng, -60, 60, 2), Btheta=wl.U(rng, -90, 180, 2), Bphi=wl.U(rng, -180, 180, 2),
                 N_time=int(rng.integers(10, 120)), T=0.0, N_epsilon=int(rng.integers(2, 5)), dfdE_cut_percent=0.1)
        what = ["plain", "field", "angle", "rate", "temp", "scale", "coarse", "zero", "scan", "temp", "lattice", "power"][i % 12]
        if what == "field":
            p["Bamp"] = float(rng.choice([1e-6, 1e-3, -1e-4, 500.0, -300.0, 150]))
        elif what == "angle":
            p["Btheta"] = float(rng.choice([0, 90, 180, 89.9999999, 90.0000001, 1e-9, -90, 270, 360]))
            p["Bphi"] = float(rng.choice([0, 45, 90, 180, 1e-9, 360]))
        elif what == "rate":
            p["scattering_params"]["gamma_0"] = float(rng.choice([0.2, 1e2, 1e3, 1e5]))
        elif what == "temp":
            p["T"] = float(rng.choice([1e-3, 0.05, 4.2, 30, 300, 900]))
            p["dfdE_cut_percent"] = float(rng.choice([0.5, 0.1, 1e-3, 1e-9]))
            if i % 5 == 0:
                p["Bamp"] = 0.0
        elif what == "scale":
            p["energy_scale"] = float(p["energy_scale"] * rng.choice([1e-4, 1e-2, 30, 300]))
        elif what == "coarse":
            p["N_time"] = int(rng.integers(2, 5))
        elif what == "zero":
            p["Bamp"] = [0.0, 0, -0.0][i // 12 % 3]
        elif what == "lattice":
            f = float(rng.choice([0.2, 5, 12]))
            p["c"] = wl.f(p["c"] * f, 4)
        elif what == "power":
            p["scattering_params"]["power"] = float(rng.choice([0.5, 60, 1]))
            p["scattering_params"]["power_sin"] = float(rng.choice([0.5, 40, 0]))
            p["scattering_params"]["gamma_k"] = float(rng.choice([1e4, 0.0, 1e-6]))
        # the phase 8 omega_c tau is limited for cost (an orbit of thousands of turns is legal but slow)
        om = 0.35 * abs(p["Bamp"]) * (p["energy_scale"] * p["a"] ** 2 / 3810 * 3 if k not in (2, 3) else p["energy_scale"] * 2.5)
        lim = 2500 if what != "coarse" else 6000
        g = p["scattering_params"]
        if what == "coarse":       # steps longer than a few hundred turns' worth of internal steps
            p["scattering_models"] = ["isotropic"]
            g["gamma_0"] = float("%.4g" % max(8 * om / lim, 1e-2))
            p["res"] = None
            p["resolution"] = {1: [9, 9, 5], 2: [7, 7, 7]}.get(k, [7, 7, 5])
        else:
            g["gamma_0"] = float("%.4g" % max(g["gamma_0"], 8 * om / lim))
        p.pop("res", None)
        p["march"] = bool(rng.integers(0, 2)) and what != "temp" and k != 2
        out.append({"env": "nojit", "p": p, "what": what, "zone": int(rng.choice([1, 1, 2])),
                    "phis": [[wl.U(rng, 0, 90, 1) for _ in range(int(rng.integers(1, 3)))], [15.0, 15.0]][i // 12 % 4 == 3],
                    "thetas": [None, [30.0, 10.0, 30.0], [50.0, 20.0, -10.0, -20.0], [0.0, 0.0, 180.0, 90.0], [25.0]][i // 12 % 5], "nband": int(rng.integers(1, 3)), "norm": float(rng.choice([0, 10, 30]))})
    for i in range(4 if tier == "quick" else 40):
        p = wl.cuprate(rng, res=(9, 9, 5)) if i % 2 else wl.trig(rng, res=(9, 9, 5))
        mod, sp = wl.scattering(rng)
        p.update(scattering_models=mod, scattering_params=sp, Bamp=40.0, Btheta=30.0, Bphi=11.0, N_time=40, T=[0.0, 10.0][i % 2], N_epsilon=3, dfdE_cut_percent=0.2, march=bool(i % 4 == 0))
        what = ["scan", "temp", "plain", "coarse"][i % 4]
        if what == "coarse":
            p.update(N_time=3, T=0.0, scattering_models=["isotropic"], scattering_params={"gamma_0": 0.05}, resolution=[7, 7, 5])
        out.append({"env": "nojit", "malloc": True, "p": p, "what": what, "zone": 1, "phis": [0.0, 20.0], "nband": 2, "norm": 10.0})
    return out


# ---------------------------------------------------------------------------------------- poison
class Poison:
    """numpy.empty / numpy.empty_like whose memory holds a chosen content"""

    def __init__(self):
        self.value, self.count = None, 0
        self.e, self.el = np.empty, np.empty_like

    def fill(self, a):
        if self.value is not None and isinstance(a, np.ndarray) and a.size and a.dtype.kind in "fc":
            a.fill(self.value)
            self.count += 1
        return a

    def install(self):
        np.empty = lambda *x, **k: self.fill(self.e(*x, **k))
        np.empty_like = lambda *x, **k: self.fill(self.el(*x, **k))

    def remove(self):
        np.empty, np.empty_like = self.e, self.el


POISON = None


def poison():
    global POISON
    if POISON is None:
        POISON = Poison()
        POISON.install()       # before the repo is imported
    return POISON


# ---------------------------------------------------------------------------------------- what a run publishes
def publish(case):
    from cuprates_transport.admr import ADMR
    p = case["p"]
    q = dict(p, number_of_bz=case["zone"])
    out = {}

    def keep(pre, o, names):
        for k in names:
            out[pre + k] = getattr(o, k)
    conds = []
    for l in range(case["nband"] if case["what"] == "scan" else 1):
        r = dict(q)
        if l:
            r["band_params"] = dict(q["band_params"], mu=q["band_params"]["mu"] * 0.97)
        b = wl.band(r, march_square=p["march"])
        b.runBandStructure()
        keep("band%d." % l, b, ["kf", "vf", "dkf", "dos_k", "p", "n"])
        b.dos_epsilon_func()
        out["band%d.dos" % l] = b.dos_epsilon
        if p["march"]:
            b.mass_func()
            keep("band%d." % l, b, ["mass", "dks", "dkz"])
        if p["T"] and not wl.reachable(b, p):
            r["T"] = 0.0
            out["domain"] = False
        conds.append(wl.cond(b, r))
    if case["what"] == "scan":
        A = ADMR(conds, Btheta_min=0, Btheta_max=40, Btheta_step=20, Btheta_norm=case["norm"], Bphi_array=case["phis"], show_progress=False)
        if case.get("thetas"):
            A.Btheta_array = np.array(case["thetas"], float)
        A.runADMR()
        keep("scan.", A, ["rhozz_array", "rzz_array", "total_filling", "total_hole_doping", "Btheta_array", "Bphi_array"])
    for l, c in enumerate(conds):
        if case["what"] != "scan":
            c.runTransport()
        keep("cond%d." % l, c, ["sigma", "alpha", "beta", "gamma_tot_max", "gamma_tot_min", "kft", "vft", "t_o_tau", "tau_tot", "time_array", "B_vector", "time_max", "v_product"])
        if c.T:
            keep("cond%d." % l, c, ["epsilon_array"])
        keep("cond%d.band." % l, c.bandObject, ["kf", "vf", "dkf", "dos_k"])
    return out


def digest(out):
    return {k: hashlib.sha256(np.ascontiguousarray(np.asarray(v)).tobytes()).hexdigest()[:24] for k, v in out.items() if not isinstance(v, bool)}


def child():
    """a whole process: prints the digests of everything published"""
    case = json.load(sys.stdin)
    out = publish(case)
    bad = sorted(k for k, v in out.items() if not np.all(np.isfinite(np.asarray(v, float))))
    print("\nRESULT " + json.dumps({"digest": digest(out), "bad": bad}))


def run(case, mon):
    if case.get("malloc"):
        return run_malloc(case, mon)
    P = poison()
    import scipy.integrate       # (ODEintWarning)
    info = lambda: {"what": case["what"], "p": case["p"], "zone": case["zone"]}
    mon.seen(case)
    if case["what"] not in ("plain",):
        mon.event("extreme")
    if case["p"]["Bamp"] == 0:
        mon.event("zero field")
    ref = None
    for name, val in (("nan", np.nan), ("1e300", 1e300), ("0", 0.0)):
        if name == "0" and case["what"] == "coarse":
            continue
        inval = []

        def trap(kind, flag):
            import traceback
            if "invalid" in kind:
                st = [(os.path.basename(x.filename), x.name) for x in traceback.extract_stack()[:-1]]
                inval.append(st[-6:])
        old, oldcall = np.geterr(), np.seterrcall(trap)
        P.value, n0 = val, P.count
        try:
            np.seterr(all="ignore")
            np.seterr(invalid="call")
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                out = publish(case)
        finally:
            np.seterr(**old)
            np.seterrcall(oldcall)
            P.value = None
        mon.event("poisoned allocations", P.count - n0)
        mon.ok("invalid", not inval, lambda: {"stack": inval[:2], **info()})
        ode = [str(x.message)[:80] for x in w if "odeint" in type(x.message).__name__.lower()]
        mon.ok("orbits solved", not ode, lambda: {"odeint gave up, the rest of the orbits is undefined": ode[:1], **info()})
        dom = out.pop("domain", True)
        if case["p"]["T"] and dom:
            mon.event("finite T")
        if case["what"] == "scan":
            mon.event("scan")
        for k, v in out.items():
            a = np.asarray(v)
            mon.ok("finite", a.dtype.kind in "fiu" and a.size > 0 and bool(np.all(np.isfinite(a))), lambda: {"published": k, "poison": name, "dtype": str(a.dtype), "bad": int(a.size - np.isfinite(a).sum()) if a.dtype.kind in "fiuc" else None, **info()})
        d = digest(out)
        if ref is None:
            ref = d
        else:
            for k in sorted(set(ref) | set(d)):
                mon.ok("poison", ref.get(k) == d.get(k), lambda: {"published value depends on fresh memory": k, "poison": name, **info()})


def run_malloc(case, mon):
    from .env import worker_env
    res = {}
    for v in ("255", "1", "85"):
        e = worker_env("nojit")
        e["MALLOC_PERTURB_"] = v
        e["PYTHONPATH"] = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        r = subprocess.run([sys.executable, "-c", "from rv import c23; c23.child()"], input=json.dumps(case), env=e, capture_output=True, text=True, timeout=300, cwd="/tmp")
        l = [x for x in r.stdout.splitlines() if x.startswith("RESULT ")]
        if not mon.ok("malloc", l, lambda: {"perturb": v, "stderr": r.stderr[-500:], "rc": r.returncode}):
            return
        res[v] = json.loads(l[0][7:])
        mon.ok("finite", not res[v]["bad"], lambda: {"not finite": res[v]["bad"], "perturb": v})
    a = res["255"]["digest"]
    for v in ("1", "85"):
        d = res[v]["digest"]
        mon.ok("malloc", a == d, lambda: {"published values depend on the content of fresh memory": sorted(k for k in a if a[k] != d.get(k))[:12], "perturb": v, "p": case["p"]})
    mon.seen(case)
