"""C18: totals, default file names and exported tables of scans, read back by an own parser; directory trees compared before and after."""
import os
import re

import numpy as np

from . import wl

RULE = ("scans of one to three bands (same or different parameters, with and without an antiferromagnetic gap M, T = 0 and finite), run one to three times with the chemical potential moved in between; "
        "tables and figures written by default name, to a folder, by name, and both; every table parsed back; directory listings before and after. Distinct = distinct (bands, angles, T, way of writing).")
NEED = {"total": 60, "name": 60, "table": 40, "column": 300, "where": 40, "figure file": 4, "pure": 40, "AF": 3, "bands>1": 10, "rescan": 10, "filling moved": 10, "finite T": 3}


def gen(rng, af):
    p = wl.trig(rng, ortho=bool(rng.integers(0, 2)), res=(9, 9, 5)) if rng.random() < 0.6 else wl.pockets(rng, res=(13, 13, 5))
    if af:
        p = wl.trig(rng, res=(9, 9, 5))
        p["band_model"] = p["band_model"] + " - M*cos(a*kx)*cos(b*ky)"
        p["band_params"] = wl.shuffled(rng, dict(p["band_params"], M=wl.U(rng, 0.02, 0.2)))
    if rng.random() < 0.25:        # parameters in meV
        e = p["energy_scale"]
        p["energy_scale"] = 1
        p["band_params"] = {k: wl.f(v * e, 4) for k, v in p["band_params"].items()}
    p.update(scattering_models=["isotropic"], scattering_params={"gamma_0": wl.U(rng, 5, 20, 2)}, N_time=20, N_epsilon=3, dfdE_cut_percent=0.2)
    return p


def cases(rng, tier):
    out = []
    for i in range(36 if tier == "quick" else 900):
        T = float(rng.choice([3, 7.6])) if i % 8 == 7 else 0.0
        B = [wl.U(rng, 5, 60, 2), 45, 0.0, -22.4][i % 4]
        af = i % 5 == 2
        nb = 1 if T else [1, 2, 3][i % 3]
        ps = [gen(rng, af) for _ in range(nb)]
        if i % 2 and nb > 1:                 # bands of the same model and parameters (as reconstructed bands have)
            for q in ps[1:]:
                q.update({k: ps[0][k] for k in ("a", "b", "c", "energy_scale", "band_params", "band_model", "resolution")})
        for k, q in enumerate(ps):
            q.update(T=T, Bamp=B, band_name=["LargePocket", "hPocket_%d" % k, "e" + str(k), "band"][int(rng.integers(0, 4))] + ("" if k == 0 else "x%d" % k), number_of_bz=int(rng.choice([1, 1, 2])))
        phis = [[0, 15, 30, 45], [0.0], [wl.U(rng, -90, 90, 1) for _ in range(3)], [7.25, 7.5]][int(rng.integers(0, 4))]
        th = [[0, 10, 20, 30], [wl.U(rng, -60, 60, 2) for _ in range(3)], [0.0, 12.5, 25.0], [33.3]][int(rng.integers(0, 4))]
        out.append({"env": "nojit", "bands": ps, "phis": phis[:2] if T else phis, "thetas": th[:2] if T else th, "scans": int(rng.integers(1, 4)), "dmu": wl.U(rng, 0.02, 0.2),
                    "way": i % 4, "fig": i % 6 == 0, "same": i % 7 == 3, "seed": int(rng.integers(0, 1 << 30))})
    return out


def tree(d):
    return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)


def readtable(path):
    with open(path, newline="") as f:
        lines = f.read().splitlines()
    head = lines[0]
    if head.startswith("#"):
        head = head[1:]
    names = [x.strip() for x in head.strip().split("\t")]
    rows = [[float(x) for x in ln.split()] for ln in lines[1:] if ln.strip()]
    return names, rows


def run(case, mon):
    from cuprates_transport.admr import ADMR
    ps = case["bands"]
    bands = [wl.band(p) for p in ps]
    for b in bands:
        b.runBandStructure()
    conds = [wl.cond(b, p) for b, p in zip(bands, ps)]
    if case["same"]:
        conds = conds + [conds[0]]
    A = ADMR(conds, Bphi_array=case["phis"], show_progress=False)
    A.Btheta_array = np.array(case["thetas"])
    phis, th = [float(x) for x in case["phis"]], [float(x) for x in case["thetas"]]
    mon.seen(case)
    top = os.path.join(mon.scratch, "c18_%d" % case["seed"])
    here, sub = os.path.join(top, "here"), os.path.join(top, "asked", "deeper")
    os.makedirs(here)
    os.makedirs(sub)
    old = os.getcwd()
    os.chdir(here)
    try:
        for s in range(case["scans"]):
            if s == 1:         # the band changes: the next scan tells its filling
                was = [c.bandObject.n for c in conds]
                for c in {id(c): c for c in conds}.values():       # each conductivity holds its own band
                    c.bandObject["mu"] = c.bandObject["mu"] + case["dmu"] * (160 if c.bandObject.energy_scale == 1 else 1)
                    c.bandObject.runBandStructure()
                if was != [c.bandObject.n for c in conds]:
                    mon.event("filling moved")
                mon.event("rescan")
            A.runADMR()
            if case["seed"] % 2:
                A.update_total_doping()      # as often as one likes
            check(A, conds, phis, th, case, mon, top, here, sub, s)
    finally:
        os.chdir(old)


def check(A, conds, phis, th, case, mon, top, here, sub, s):
    b0, c0 = conds[0].bandObject, conds[0]
    n = [c.bandObject.n for c in conds]
    if len(n) > 1:
        mon.event("bands>1")
    if c0.T:
        mon.event("finite T")
    # own count on the same kind of grid, looser: fillings are those of these bands at this chemical potential
    for c in conds:
        b = c.bandObject
        N = 60
        k = [-np.pi + 2 * np.pi * (np.arange(N) + 0.5) / N for _ in range(2)]
        kz = -np.pi + 2 * np.pi * (np.arange(16) + 0.5) / 16
        X, Y, Z = np.meshgrid(k[0] / b.a, k[1] / b.b, kz / b.c, indexing="ij")
        mine = 2 * np.mean(np.asarray(b.energy_func(X, Y, Z)) <= 0) / b.number_of_bz
        mon.ok("total", abs(mine - b.n) < 0.08, lambda: {"own": mine, "n": b.n})
    mon.close("total", A.total_filling, sum(n), 1e-12, lambda: {"n": n, "scan": s}, scale=1)
    mon.close("total", A.total_hole_doping, 1 - sum(n), 1e-12, lambda: {"n": n, "scan": s}, scale=1)
    # default name
    name = A.file_name_func()
    toks = name.split("_")
    af = "M" in dict(b0.band_params) if isinstance(b0.band_params, dict) else False
    first = ("AF" if af else "")
    if af:
        mon.event("AF")
    need = [first + "p%.3f" % (1 - sum(n)), "T%.0f" % c0.T, "B%.0f" % c0.Bamp, "t%.1f" % b0.energy_scale]
    need += ["%s%.3f" % (k, v) for k, v in b0.band_params.items() if k != "t"]
    for x in need:
        mon.ok("name", x in toks, lambda: {"name": name, "lacks": x})
    for c in conds:
        mon.ok("name", ("_" + c.bandObject.band_name + "_") in name + "_", lambda: {"name": name, "lacks band": c.bandObject.band_name})
    mon.ok("name", name == A.file_name_func())
    # tables
    way = case["way"]
    before = tree(top)
    keep = (A.rhozz_array.copy(), A.rzz_array.copy(), [np.array(c.sigma) for c in conds], A.total_filling, [c.bandObject.n for c in conds])
    if way == 0:
        A.fileADMR()
        want = os.path.join("here", "Rzz_" + name + ".dat")
    elif way == 1:
        A.fileADMR(folder=sub)
        want = os.path.join("asked", "deeper", "Rzz_" + name + ".dat")
    elif way == 2:
        A.fileADMR(folder="../asked", filename="my %d.txt" % s)
        want = os.path.join("asked", "my %d.txt" % s)
    else:
        A.fileADMR(filename=os.path.join(sub, "own_%d.dat" % s))
        want = os.path.join("asked", "deeper", "own_%d.dat" % s)
    after = tree(top)
    mon.ok("where", sorted(set(before) | {want}) == after, lambda: {"wanted": want, "new": sorted(set(after) - set(before)), "way": way})
    if want in after:
        names, rows = readtable(os.path.join(top, want))
        table(A, names, rows, conds, phis, th, mon)
        if s == 0:
            raw = open(os.path.join(top, want), "rb").read()
            again = {0: {}, 1: {"folder": sub}, 2: {"folder": "../asked", "filename": "my %d.txt" % s}, 3: {"filename": os.path.join(sub, "own_%d.dat" % s)}}[way]
            A.fileADMR(**again)
            mon.ok("where", open(os.path.join(top, want), "rb").read() == raw and tree(top) == after, "written twice")
            if way == 0:           # a relative folder under a chosen name gives the same table
                A.fileADMR(folder=os.path.join("..", "asked", "deeper"), filename="twice.dat")
                p = os.path.join(sub, "twice.dat")
                mon.ok("where", os.path.exists(p) and open(p, "rb").read() == raw, "same table elsewhere")
    mon.ok("pure", np.array_equal(keep[0], A.rhozz_array) and np.array_equal(keep[1], A.rzz_array) and all(np.array_equal(x, c.sigma) for x, c in zip(keep[2], conds))
           and keep[3] == A.total_filling and keep[4] == [c.bandObject.n for c in conds])
    if case["fig"] and s == 0:
        import matplotlib.pyplot as plt
        before = tree(top)
        if way in (0, 1):
            A.figADMR(fig_show=False, fig_save=True, **({} if way == 0 else {"folder": sub}))
            want = os.path.join("here" if way == 0 else os.path.join("asked", "deeper"), "Rzz_" + name + ".pdf")
        else:
            A.figADMR(fig_show=False, fig_save=True, folder="../asked" if way == 2 else "", filename="f.pdf" if way == 2 else os.path.join(sub, "f.pdf"))
            want = os.path.join("asked", "f.pdf") if way == 2 else os.path.join("asked", "deeper", "f.pdf")
        plt.close("all")
        mon.ok("where", sorted(set(before) | {want}) == tree(top), lambda: {"wanted": want, "new": sorted(set(tree(top)) - set(before))})
        if os.path.exists(os.path.join(top, want)):
            pages = len(re.findall(rb"/Type\s*/Page\b", open(os.path.join(top, want), "rb").read()))
            mon.ok("figure file", pages == 1 + len(conds), lambda: {"pages": pages, "bands": len(conds)})
        before = tree(top)
        A.figADMR(fig_show=False, fig_save=False)
        plt.close("all")
        mon.ok("where", tree(top) == before, "a figure not to be saved")


def table(A, names, rows, conds, phis, th, mon):
    b0, c0 = conds[0].bandObject, conds[0]
    if not mon.ok("table", len(rows) == len(th) and all(len(r) == len(names) for r in rows) and "" not in names,
                  lambda: {"names": names, "rows": len(rows), "columns": [len(r) for r in rows][:3], "angles": len(th)}):
        return
    M = np.array(rows).T
    info = lambda: {"names": names}
    got = {}
    used = set()
    for i, x in enumerate(names):
        m = re.search(r"phi=([^)]*)\)", x)
        if m:
            v = float(m.group(1))
            mon.ok("table", v in phis and v not in got and x.endswith("[Ohm.m]"), lambda: {"column": x})
            got[v] = M[i]
            used.add(i)
    mon.ok("table", sorted(got) == sorted(phis), info)
    for l, v in enumerate(phis):
        if v in got:
            mon.close("column", got[v], A.rhozz_array[l], 1.01e-7, lambda: {"phi": v, **info()}, scale=np.abs(A.rhozz_array[l]))
    one = {"theta[deg]": (th, 1e-6), "B[T]": (c0.Bamp, 1e-5), "t[meV]": (b0.energy_scale, 0.501),
           "res_x": (b0.resolution[0], 0), "res_y": (b0.resolution[1], 0), "res_z": (b0.resolution[2], 0)}
    one.update({k: (v, 0.000501) for k, v in b0.band_params.items() if k != "t"})
    for k, (v, tol) in one.items():
        where = [i for i, x in enumerate(names) if x == k]
        if mon.ok("table", len(where) >= 1, lambda: {"lacks": k, **info()}):
            for i in where:
                used.add(i)
                mon.ok("column", np.all(np.abs(M[i] - np.asarray(v, float)) <= tol + 1e-12), lambda: {"column": k, "got": M[i], "want": v})
    mon.ok("table", used == set(range(len(names))), lambda: {"columns not told": [names[i] for i in range(len(names)) if i not in used]})
