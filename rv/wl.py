"""Workload generators shared by the checks: everything is a JSON dictionary of constructor arguments."""
import numpy as np

from .ref import CUPRATE

# meV A^2: hbar^2 / (2 m_e)
H2M = 3809.9821


def f(x, n=6):
    return float(round(float(x), n))


def U(rng, lo, hi, n=6):
    return f(rng.uniform(lo, hi), n)


def shuffled(rng, d):
    k = list(d)
    rng.shuffle(k)
    return {str(x): d[str(x)] for x in k}


def cuprate(rng, ortho=None, res=(13, 13, 5)):
    a = U(rng, 3.2, 4.4, 3)
    if ortho is None:
        ortho = rng.random() < 0.3
    b = f(a * (rng.uniform(1.05, 1.4) if rng.random() < 0.5 else rng.uniform(0.7, 0.95)), 3) if ortho else a
    return {"a": a, "b": b, "c": U(rng, 8, 16, 2), "energy_scale": U(rng, 80, 260, 1),
            "band_params": shuffled(rng, {"t": 1, "tp": U(rng, -0.2, -0.08), "tpp": U(rng, 0.03, 0.08),
                                          "tz": U(rng, 0.02, 0.1), "mu": U(rng, -1.05, -0.6)}),
            "band_model": CUPRATE, "resolution": list(res), "k_max": [np.pi, np.pi, 2 * np.pi]}


def trig(rng, ortho=False, res=(13, 13, 5)):
    """generic tetragonal (or orthorhombic) tight binding with another form and other names"""
    a = U(rng, 3.0, 5.0, 3)
    b = f(a * rng.uniform(1.1, 1.4), 3) if ortho else a
    return {"a": a, "b": b, "c": U(rng, 5, 14, 2), "energy_scale": U(rng, 60, 300, 1),
            "band_params": shuffled(rng, {"w": 1, "u": U(rng, -0.25, 0.25), "g": U(rng, 0.02, 0.12), "mu": U(rng, -1.2, 0.6)}),
            "band_model": "-mu - 2*w*(cos(a*kx)+cos(b*ky)) - 4*u*cos(a*kx)*cos(b*ky) - 2*g*cos(c*kz)",
            "resolution": list(res), "k_max": [np.pi, np.pi, np.pi]}


def para3(rng, hole=False, offd=False, res=(21, 21, 21), sphere=False, kF=None, tetra=False):
    """closed parabolic pocket, masses in m_e; box is [-pi/a, pi/a]^3 and the pocket fits in it"""
    a, b, c = (U(rng, 3, 5, 3) for _ in range(3))
    if tetra:
        b = a
    m = [U(rng, 0.4, 3, 4) for _ in range(3)]
    if tetra:
        m[1] = m[0]
    if sphere:
        b = c = a
        m = [m[0]] * 3
    # E_i = hbar^2/(2 m_i) in meV A^2 ; energy scale 1
    co = [f(H2M / x, 6) for x in m]
    s = -1 if hole else 1
    kf = kF if kF is not None else rng.uniform(0.45, 0.75)
    # Fermi energy: the pocket reaches fraction kf of the box along its longest axis
    EF = min(co[i] * (kf * np.pi / (a, b, c)[i]) ** 2 for i in range(3))
    bp = {"Ex": co[0], "Ey": co[1], "Ez": co[2], "mu": f(EF, 4)}
    model = "%s(Ex*kx**2 + Ey*ky**2 + Ez*kz**2 - mu)" % ("-" if hole else "")
    if offd:
        bp["Exy"] = f(rng.uniform(-0.5, 0.5) * np.sqrt(co[0] * co[1]), 4)
        model = "%s(Ex*kx**2 + Ey*ky**2 + Ez*kz**2 + 2*Exy*kx*ky - mu)" % ("-" if hole else "")
        bp["mu"] = f(EF * 0.5, 4)
    return {"a": a, "b": b, "c": c, "energy_scale": 1, "band_params": shuffled(rng, bp), "band_model": model,
            "resolution": list(res), "k_max": [np.pi] * 3, "masses": m, "sign": s}


def para2(rng, hole=False, res=(21, 21, 5), iso=False):
    """cylinder along kz"""
    a = U(rng, 3, 5, 3)
    b = a if iso else f(a * rng.uniform(1.1, 1.4), 3)
    c = U(rng, 6, 14, 2)
    mx = U(rng, 0.4, 3, 4)
    my = mx if iso else U(rng, 0.4, 3, 4)
    kf = rng.uniform(0.4, 0.8)
    cx, cy = f(H2M / mx, 6), f(H2M / my, 6)
    EF = f(min(cx * (kf * np.pi / a) ** 2, cy * (kf * np.pi / b) ** 2), 4)
    bp = {"Ex": cx, "Ey": cy, "mu": EF}
    return {"a": a, "b": b, "c": c, "energy_scale": 1, "band_params": shuffled(rng, bp),
            "band_model": "%s(Ex*kx**2 + Ey*ky**2 - mu)" % ("-" if hole else ""),
            "resolution": list(res), "k_max": [np.pi] * 3, "masses": [mx, my], "sign": -1 if hole else 1}


def sheet(rng, axis=None, flat=None, res=(21, 21, 21)):
    """open sheets across one axis (exactly flat or warped), a != b"""
    axis = int(rng.integers(0, 3)) if axis is None else axis
    flat = bool(rng.integers(0, 2)) if flat is None else flat
    a = U(rng, 3, 5, 3)
    arg = ["a*kx", "b*ky", "c*kz"]
    bp = {"w": 1, "mu": U(rng, -0.9, 0.9)}
    model = "-mu - 2*w*cos(%s)" % arg[axis]
    if not flat:
        bp["g"] = U(rng, 0.03, 0.12)
        model += " - 2*g*(cos(%s) + cos(%s))" % tuple(arg[:axis] + arg[axis + 1:])
    return {"a": a, "b": f(a * rng.uniform(1.1, 1.4), 3), "c": U(rng, 4, 12, 2), "energy_scale": U(rng, 60, 250, 1),
            "band_params": shuffled(rng, bp), "band_model": model, "resolution": list(res), "k_max": [np.pi] * 3}


def skew(rng, odd=False, res=(25, 23, 15), tetra=False):
    """a band without mirror planes (odd: without inversion either); a == b only when tetra (then for marching cubes only)"""
    a = U(rng, 3.0, 4.6, 3)
    b = a if tetra else f(a * rng.uniform(1.1, 1.35), 3)
    bp = {"w": 1, "h": U(rng, 0.08, 0.2), "g": U(rng, 0.05, 0.14), "j": U(rng, 0.03, 0.1), "mu": U(rng, -1.3, -0.3)}
    model = "-mu - 2*w*(cos(a*kx) + cos(b*ky)) - 2*h*cos(a*kx + b*ky) - 2*g*cos(c*kz + a*kx) - 2*j*sin(b*ky)*sin(c*kz)"
    if odd:
        bp["o"] = U(rng, 0.06, 0.15)
        model += " - o*(sin(a*kx) + sin(2*b*ky)/2)"
    return {"a": a, "b": b, "c": U(rng, 5, 12, 2), "energy_scale": U(rng, 60, 250, 1),
            "band_params": shuffled(rng, bp), "band_model": model, "resolution": list(res), "k_max": [np.pi] * 3}


def general(rng, res=(13, 13, 5)):
    """tight binding with or without a = b, mirror planes, inversion"""
    k = int(rng.integers(0, 4))
    if k >= 2:
        return skew(rng, odd=k == 3, res=res)
    return trig(rng, ortho=k == 1, res=res)


def pockets(rng, res=(25, 25, 7), ortho=None):
    """several disconnected sheets: four pockets around (+-pi/2, +-pi/2) plus one around the centre or none"""
    a = U(rng, 3.2, 4.4, 3)
    if ortho is None:
        ortho = rng.random() < 0.5
    b = f(a * rng.uniform(1.1, 1.35), 3) if ortho else a
    return {"a": a, "b": b, "c": U(rng, 8, 14, 2), "energy_scale": U(rng, 80, 200, 1),
            "band_params": shuffled(rng, {"t": 1, "d": U(rng, 0.02, 0.12), "mu": U(rng, 0.45, 0.8)}),
            "band_model": "t*(cos(2*a*kx) + cos(2*b*ky))/2 + mu - d*cos(c*kz)",
            "resolution": list(res), "k_max": [np.pi, np.pi, np.pi]}


def scattering(rng, kinds=None, wide=False):
    kinds = kinds or ["isotropic", "cos2phi", "cos2phi_coskz", "sin2phi", "gamma_dos_func"]
    n = 1 + int(rng.integers(0, len(kinds)))
    mod = [str(x) for x in rng.permutation(kinds)[:n]]
    if "isotropic" not in mod:        # keeps the rate away from zero
        mod.append("isotropic")
        mod = [str(x) for x in rng.permutation(mod)]
    sp = {"gamma_0": U(rng, 2, 20, 3), "gamma_k": U(rng, 1, 60, 3), "power": U(rng, 1, 14, 2),
          "power_z": U(rng, 1, 4, 2), "gamma_k_sin": U(rng, 1, 40, 3), "power_sin": U(rng, 1, 14, 2),
          "gamma_dos_max": U(rng, 1, 30, 3)}
    if wide and rng.random() < 0.4:
        sp["gamma_0"] = f(np.exp(rng.uniform(np.log(0.05), np.log(300))), 4)
        if sp["gamma_0"] < 1:           # all of them small, or the spread costs too many time steps
            for k in ("gamma_k", "gamma_k_sin", "gamma_dos_max"):
                sp[k] = f(sp["gamma_0"] * sp[k] / 5, 5)
        sp["power"] = float(rng.choice([1, 2, 12, 20]))
    elif wide and rng.random() < 0.3:           # strongly anisotropic
        sp["gamma_0"] = U(rng, 0.5, 2, 3)
        sp["gamma_k"] = U(rng, 60, 200, 2)
        sp["gamma_k_sin"] = U(rng, 20, 100, 2)
        sp["power"] = float(rng.choice([1, 2, 3]))
    return mod, shuffled(rng, sp)


# ------------------------------------------------------------- object construction (worker side)
BKEYS = ("a", "b", "c", "energy_scale", "band_params", "band_model", "band_name", "resolution", "k_max", "number_of_bz")


def band(p, parallel=None, march_square=False, clamp=None):
    import copy
    from cuprates_transport.bandstructure import BandStructure
    q = copy.deepcopy({k: p[k] for k in BKEYS if k in p})
    q.setdefault("band_name", ["band_1", "LargePocket", "hPocket", "e 2"][int(round(p["a"] * 1000)) % 4])
    if parallel is None:
        import os
        parallel = bool(os.environ.get("NUMBA_DISABLE_JIT") == "1" and int(round(p["c"] * 1000)) % 2)      # compiles nothing there
    o = BandStructure(parallel=parallel, march_square=march_square, **q)
    if clamp:
        clamp_grid(o, clamp)
    return o


def clamp_grid(o, n):
    """harness-side stand-in: full-size (500^3) doping grids are replaced by n^3 ones on this object"""
    real = type(o).dispersion_grid

    def dispersion_grid(resolution):
        return real(o, [min(int(r), n) if int(r) >= 400 else int(r) for r in resolution])
    o.dispersion_grid = dispersion_grid


def cond(b, p, **over):
    import copy
    from cuprates_transport.conductivity import Conductivity
    q = {k: p[k] for k in ("Bamp", "Bphi", "Btheta", "N_time", "rtol", "atol", "T", "dfdE_cut_percent", "N_epsilon",
                           "scattering_models", "scattering_params") if k in p}
    q.update(over)
    return Conductivity(b, **copy.deepcopy(q))


def reachable(b, p):
    """the energies of the window have a surface on the grid, away from the edges of the band (own formula)"""
    kT = 0.08617333262 * p["T"]
    w = 2 * kT * np.arccosh(1 / np.sqrt(p.get("dfdE_cut_percent", 0.001)))
    E = np.asarray(b.dispersion_grid(b.resolution)[0], float)
    span = E.max() - E.min()
    return E.min() + 0.08 * span < -w and w < E.max() - 0.08 * span
