"""C17: scan maps against per-angle runs of newly built conductivities combined by an own formula (sum over bands, inverse, zz)."""
import numpy as np

from . import wl

RULE = ("scans of one to three random bands (T = 0 and finite), angle lists in any order and spacing (negative, non-integer, repeated, single), ranges, normalization angles on and between grid points and outside, "
        "zero field, lists replaced after construction, repeated scans and runs at other settings in between; each entry against new objects at that angle alone. Distinct = distinct (bands, angles, T).")
NEED = {"rhozz": 200, "rzz": 180, "norm": 60, "repeat": 20, "bands>1": 10, "finite T": 8, "grid": 30, "order": 10, "after other runs": 8}


def gen(rng, T, Bamp, res=(9, 9, 5)):
    k = int(rng.integers(0, 3))
    if k == 0:
        p = wl.general(rng, res=res)
    elif k == 1:
        p = wl.pockets(rng, res=(15, 15, 5))
    else:
        p = wl.cuprate(rng, res=res)
    mod, sp = wl.scattering(rng)
    p.update(scattering_models=mod, scattering_params=sp, Bamp=Bamp, N_time=int(rng.integers(25, 60)), T=T, N_epsilon=3, dfdE_cut_percent=0.2, band_name="band_%d" % int(rng.integers(0, 9)))
    p["march"] = bool(rng.integers(0, 2))
    p["number_of_bz"] = int(rng.choice([1, 1, 2]))
    return p


def cases(rng, tier):
    out = []
    for i in range(44 if tier == "quick" else 1200):
        T = float(rng.choice([0, 0, 6])) if i % 4 else 6.0
        B = 0.0 if i % 9 == 8 else wl.U(rng, -45, 45, 1)
        nb = [1, 2, 1, 3][i % 4] if T == 0 else [1, 2][i // 4 % 2]
        phis = [wl.U(rng, -90, 180, 1) for _ in range(int(rng.integers(1, 4)))]
        if rng.random() < 0.3:
            phis = [int(x) for x in phis]
        lo = float(rng.choice([0, 0, wl.U(rng, -60, 40, 1)]))
        step = float(rng.choice([5, 7.5, 20, wl.U(rng, 4, 25, 1)]))
        n = int(rng.integers(1, 6 if T == 0 else 4))
        phis = phis if T == 0 else phis[:2]
        hi = lo + (n - 1) * step + float(rng.choice([0, 0.3 * step]))
        norm = float(rng.choice([0, lo, lo + step * 0.37, hi, lo + (n // 2) * step, lo - 5]))
        thetas = None
        if i % 3 == 1:
            thetas = [wl.U(rng, -90, 110, 1) for _ in range(n)]
            if i % 2:
                thetas = sorted(thetas, reverse=bool(rng.integers(0, 2)))
            if i // 3 % 2:
                thetas.append(thetas[0])
            if i % 2 == 0:         # angles about the plane of the layers and about the field's opposite
                thetas.append(wl.f([180, 0][i // 6 % 2] - thetas[0], 1))
        if i % 7 == 2:
            phis.append(phis[0] if i % 2 else phis[0] + [180, 90][i // 14 % 2])
        if nb == 3:                # more bands than azimuths, each of them well seen in the sum
            phis = phis[:1 + i // 4 % 2]
        bands = [gen(rng, T, B) for _ in range(nb)]
        if nb > 1:
            for b in bands:
                b["scattering_params"]["gamma_0"] = wl.U(rng, 5, 9, 2)
                b["Bamp"] = B = B if B == 0 or abs(B) > 15 else 25.5
        if T:
            for b in bands:
                b["march"] = False
        out.append({"env": "nojit", "bands": bands, "phis": phis, "lo": lo, "hi": hi, "step": step, "norm": norm, "thetas": thetas,
                    "mess": int(rng.integers(0, 5)), "seed": int(rng.integers(0, 1 << 30)), "progress": bool(i % 5 == 0)})
    for i in range(1 if tier == "quick" else 8):
        out.append({"env": "jit", "bands": [gen(rng, 0.0, 30.0)], "phis": [0, 45], "lo": 0.0, "hi": 40.0, "step": 20.0, "norm": 20.0, "thetas": None, "mess": 1, "seed": 3, "progress": False})
    return out


def run(case, mon):
    from cuprates_transport.admr import ADMR
    rng = np.random.default_rng(case["seed"])
    ps = case["bands"]

    def build(p, **over):
        b = wl.band(p, march_square=p["march"])
        b.runBandStructure()
        return wl.cond(b, p, **over)
    conds = [build(p) for p in ps]
    A = ADMR(conds, Btheta_min=case["lo"], Btheta_max=case["hi"], Btheta_step=case["step"], Btheta_norm=case["norm"], Bphi_array=case["phis"], show_progress=case["progress"])
    phis = np.array(case["phis"], float)
    if case["thetas"] is None:
        th = np.array(A.Btheta_array, float)
        # regular, starts at the minimum, reaches the maximum without leaving more than a step
        mon.ok("grid", abs(th[0] - case["lo"]) < 1e-9 and np.allclose(np.diff(th), case["step"]) and th[-1] > case["hi"] - 1e-6 and th[-1] < case["hi"] + case["step"] + 1e-6,
               lambda: {"grid": th, "lo": case["lo"], "hi": case["hi"], "step": case["step"]})
    else:
        th = np.array(case["thetas"], float)
        A.Btheta_array = th.copy()
    mon.ok("grid", np.array_equal(np.array(A.Bphi_array, float), phis))
    if case["mess"] == 1:      # what was run before does not matter
        for c in conds:
            c.Btheta, c.Bphi = 33.0, 12.0
            c.runTransport()
        mon.event("after other runs")
    elif case["mess"] == 2:    # the settings at the time of the scan count
        for c, p in zip(conds, ps):
            p["Bamp"] = 17.5 if p["Bamp"] else 0.0
            c.Bamp = p["Bamp"]
            p["scattering_params"] = dict(p["scattering_params"], gamma_0=7.77)
            c.gamma_0 = 7.77
        mon.event("after other runs")
    elif case["mess"] == 3:
        A.Btheta_norm = case["norm"] = float(th[len(th) // 2])
    A.runADMR()
    got, gotn = np.array(A.rhozz_array), np.array(A.rzz_array)
    mon.seen(case)
    T = ps[0]["T"]
    if T:
        mon.event("finite T")
    if len(ps) > 1:
        mon.event("bands>1")
    info = lambda: {"phis": phis, "thetas": th, "bands": len(ps), "T": T, "mess": case["mess"]}
    if not mon.ok("rhozz", got.shape == (len(phis), len(th)) and gotn.shape == got.shape, lambda: {"shape": got.shape, **info()}):
        return
    # new objects, in another order of angles; at most 14 entries (all of them for T = 0 small maps)
    pts = [(i, j) for i in range(len(phis)) for j in range(len(th))]
    rng.shuffle(pts)
    if T:
        pts = pts[:4]
    want = np.full(got.shape, np.nan)
    base = [build(p) for p in ps]
    import copy
    for i, j in pts:
        S = 0
        for k, p in enumerate(ps):
            c = copy.deepcopy(base[k])         # never run before
            c.Bphi, c.Btheta = float(phis[i]), float(th[j])
            c.runTransport()
            S = S + np.array(c.sigma)
        # own inverse: adjugate over determinant
        d = np.linalg.det(S)
        want[i, j] = (S[0, 0] * S[1, 1] - S[0, 1] * S[1, 0]) / d
    m = ~np.isnan(want)
    mon.close("rhozz", got[m], want[m], 1e-8, info, scale=np.abs(want[m]))
    # one entry with everything built with its angles
    i, j = pts[0]
    S = 0
    for p in ps:
        c = build(p, Bphi=float(phis[i]), Btheta=float(th[j]))
        c.runTransport()
        S = S + np.array(c.sigma)
    mon.close("rhozz", got[i, j], np.linalg.solve(S, np.eye(3))[2, 2], 1e-8, info)
    # normalization: own piecewise linear interpolation
    x = A.Btheta_norm
    lo, hi = int(np.argmin(th)), int(np.argmax(th))
    for i in range(len(phis)):
        if x <= th[lo]:
            n = got[i, lo]
        elif x >= th[hi]:
            n = got[i, hi]
        else:      # between the nearest angle below and the nearest above
            j = max((k for k in range(len(th)) if th[k] <= x), key=lambda k: th[k])
            k = min((k for k in range(len(th)) if th[k] > x), key=lambda k: th[k])
            w = (x - th[j]) / (th[k] - th[j])
            n = got[i, j] * (1 - w) + got[i, k] * w
        mon.close("rzz", gotn[i], got[i] / n, 1e-10, lambda: {"norm": x, **info()})
        mon.event("norm")
        for j in range(len(th)):
            if abs(th[j] - x) < 1e-12:
                mon.close("norm", gotn[i, j], 1.0, 1e-12)
    # repeating reproduces
    A.runADMR()
    mon.ok("repeat", np.array_equal(np.array(A.rhozz_array), got) and np.array_equal(np.array(A.rzz_array), gotn), info)
    # other orders of the azimuths, on a new scan of the same conductivities
    if len(phis) > 1:
        o = rng.permutation(len(phis))
        Z = ADMR(conds[::-1], Btheta_norm=x, Bphi_array=[case["phis"][k] for k in o], show_progress=False)
        Z.Btheta_array = th.copy()
        Z.runADMR()
        mon.close("order", Z.rhozz_array, got[o], 1e-12, info)
        mon.close("order", Z.rzz_array, gotn[o], 1e-12, info)
