"""Workloads for the fitting modules: parameter dictionaries, synthetic data files, and the reference simulation (new objects)."""
import copy
import os

import numpy as np

from . import wl
from .ref import CUPRATE


def band_dict(rng, name="b1", models=("isotropic", "cos2phi"), nz=5, ortho=False):
    mod = [str(x) for x in models]
    a = 3.75
    return {"band_name": name, "a": a, "b": a if not ortho else 4.3, "c": 13.2, "energy_scale": wl.U(rng, 130, 190, 1),
            "band_params": wl.shuffled(rng, {"t": 1, "tp": wl.U(rng, -0.16, -0.12, 4), "tpp": wl.U(rng, 0.04, 0.07, 4), "tz": wl.U(rng, 0.03, 0.08, 4),
                                             "mu": wl.U(rng, -0.86, -0.78, 4)}),
            "band_model": CUPRATE, "resolution": [7, 7, nz], "k_max": [float(np.pi), float(np.pi), float(2 * np.pi)], "number_of_bz": 1,
            "T": 0, "Bamp": wl.U(rng, 20, 50, 1), "N_time": 60, "scattering_models": mod,
            "scattering_params": {"gamma_0": wl.U(rng, 8, 15, 3), "gamma_k": wl.U(rng, 20, 70, 3), "power": wl.U(rng, 2, 12, 2)}}


def simulate(bands, phis, thetas, norm=0):
    """the scan of newly built objects: bands = {name: parameters}"""
    from cuprates_transport.admr import ADMR
    from cuprates_transport.bandstructure import BandStructure
    from cuprates_transport.conductivity import Conductivity
    conds = []
    for p in bands.values():
        p = copy.deepcopy(p)
        b = BandStructure(**p, parallel=False)
        b.march_square = True
        b.runBandStructure()
        conds.append(Conductivity(b, **p))
    A = ADMR(conds, show_progress=False)
    A.Bphi_array, A.Btheta_array, A.Btheta_norm = np.array(phis, float), np.array(thetas, float), norm
    A.runADMR()
    return np.array(A.rhozz_array), np.array(A.rzz_array)


def write_data(path, cols, rng, comments=True, shuffle=True):
    """whitespace table; rows in any order, comment lines anywhere"""
    m = np.array(cols, float).T
    if shuffle:
        m = m[rng.permutation(len(m))]
    with open(path, "w") as f:
        if comments:
            f.write("#theta[deg] something\n# a second line\n")
        for i, row in enumerate(m):
            f.write("\t".join("%.12e" % v for v in row) + ("  # note" if comments and i % 5 == 2 else "") + "\n")
            if comments and i == len(m) // 2:
                f.write("# in between\n")


def curve(phi, T, theta):
    """a smooth positive made-up angle curve"""
    t = np.deg2rad(np.asarray(theta, float))
    return (1 + 0.3 * np.sin(t + 0.2) ** 2 + 0.05 * np.cos(6 * t + np.deg2rad(phi)) + 0.004 * T) * 6e-5


def snap(x):
    return copy.deepcopy(x)


def same(a, b):
    """deep equality including types, orders of dictionaries and array contents"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)
    return a == b


def scribble(x, rng=None):
    """what a caller may do with his own objects afterwards"""
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list)):
                scribble(x[k])
            elif isinstance(x[k], (int, float)) and not isinstance(x[k], bool):
                x[k] = x[k] * 1.37 + 0.11
        if x:
            del x[next(iter(x))]
        x["unwanted"] = 1
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, (dict, list)):
                scribble(v)
            elif isinstance(v, (int, float)):
                x[i] = v + 2
        if x and isinstance(x[0], str):
            x.reverse()
            x.append("cos2phi")
    elif isinstance(x, np.ndarray):
        x += 7


def path(mon, name):
    return os.path.join(mon.scratch, name)
