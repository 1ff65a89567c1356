"""C24: the same inputs in many differently configured processes, many of them at the same time; what they publish is compared bit by bit
(repeats) or to rounding (other compile mode, threads, hash seed, dictionary order, position in the process, environment)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from . import wl

RULE = ("sets of random inputs (bands of several families with any parameter names, scattering models, fields, temperatures, 2-band scans with exported table, 3 discretizations) executed in processes which differ by one or more of: hash seed, "
        "number of numba/BLAS threads, parallel/serial/no compilation, order of the parameter dictionaries and of the keyword arguments, order of the inputs within the process, working directory, locale; up to eight processes at the same time. "
        "Distinct = distinct (input, configuration) compared.")
NEED = {"identical": 300, "rounding": 250, "processes": 20, "jit parallel": 1, "jit serial": 1, "nojit": 10, "hash seeds": 5, "thread counts": 3, "concurrent": 3}
ASSUMPTIONS = ["runs at the same time are separate processes (the LSODA integrator of scipy is not re-entrant between threads of one process)",
               "equal to rounding: marching cubes works in single precision, 2e-6 of the scale for points, weights and tensors; inputs have no grid energy within rounding of the Fermi level"]
CASE_TIMEOUT = 600
MAX_WORKERS = 3


def gen(rng, small=False):
    k = int(rng.integers(0, 5))
    if k == 0:
        p = wl.general(rng, res=(11, 11, 5))
    elif k == 1:
        p = wl.pockets(rng, res=(15, 15, 5))
    elif k == 2:
        p = wl.para3(rng, offd=bool(rng.integers(0, 2)), res=(9, 9, 9))
    else:
        p = wl.cuprate(rng, res=(11, 11, 5))
    mod, sp = wl.scattering(rng)
    p.update(scattering_models=mod, scattering_params=sp, Bamp=wl.U(rng, 5, 45, 2), Btheta=wl.U(rng, 0, 90, 2), Bphi=wl.U(rng, 0, 90, 2),
             N_time=int(rng.integers(30, 80)), T=float(rng.choice([0, 0, 8])), N_epsilon=3, dfdE_cut_percent=0.2)
    if k == 2 or p["T"]:
        p["march"] = False
        if k == 2:
            p["T"] = 0.0
    else:
        p["march"] = bool(rng.integers(0, 2))
    return {"p": p, "phis": [0.0, wl.U(rng, 5, 60, 1)], "norm": 10.0}


def cases(rng, tier):
    out = []
    for i in range(9 if tier == "quick" else 90):
        K = 4
        cfg = []
        # two repeats of the base configuration, then one factor or several changed at a time
        base = {"mode": "nojit", "hash": "0", "threads": 1, "dicts": 0, "order": 0, "lang": "C"}
        cfg += [dict(base), dict(base, cwd=1)]
        for j in range(4):
            c = dict(base, hash=str(int(rng.integers(1, 1 << 31))))
            if j != 0:
                c["dicts"] = int(rng.integers(1, 1 << 30))
            if j >= 2:
                c["order"] = int(rng.integers(1, 1 << 30))
            if j == 3:
                c["threads"], c["lang"] = 4, "C.UTF-8"
            cfg.append(c)
        jit = i % 3 == 0
        if jit:
            K = 2
            m = "jit parallel" if i % 2 == 0 else "jit serial"
            t = [1, 2, 8, 3][int(rng.integers(0, 4))]
            J = dict(base, mode=m, threads=t)
            cfg = cfg[:4] + [J, dict(J), dict(J, mode="jit serial" if i % 2 == 0 else "jit parallel", threads=8 if t != 8 else 2, hash="77", dicts=5)]
        out.append({"env": "nojit", "inputs": [gen(rng) for _ in range(K)], "configs": cfg, "together": bool(i % 2 == 0)})
    out.sort(key=lambda c: not any(x["mode"] != "nojit" for x in c["configs"]))
    return out


# ---------------------------------------------------------------------------------------- the child process
def child():
    import random
    job = json.load(sys.stdin)
    os.dup2(2, 1)
    from cuprates_transport.admr import ADMR
    from cuprates_transport.bandstructure import BandStructure, doping
    from cuprates_transport.conductivity import Conductivity
    cfg = job["config"]
    rnd = random.Random(cfg["dicts"])

    def order(d):
        k = list(d)
        if cfg["dicts"]:
            rnd.shuffle(k)
        return {x: d[x] for x in k}
    idx = list(range(len(job["inputs"])))
    if cfg["order"]:
        random.Random(cfg["order"]).shuffle(idx)
    out = {}
    for i in idx:
        inp = job["inputs"][i]
        p = dict(inp["p"], number_of_bz=1)
        march = p.pop("march")
        conds = []
        for l in range(2):
            q = {k: (order(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in p.items() if k not in ("masses", "sign")}
            if l:
                q["band_params"] = order(dict(q["band_params"], mu=q["band_params"]["mu"] * 0.97))
            q["band_name"] = "band_%d" % l
            q = order(q)
            b = BandStructure(parallel=cfg["mode"] == "jit parallel", march_square=march, **q)
            b.runBandStructure()
            b.dos_epsilon_func()
            c = Conductivity(b, **q)
            c.runTransport()
            pre = "%d.%d." % (i, l)
            for k in ("kf", "vf", "dkf", "dos_k", "n", "p", "dos_epsilon"):
                out[pre + k] = np.array(getattr(b, k))
            for k in ("sigma", "alpha", "beta", "gamma_tot_max", "gamma_tot_min", "kft", "t_o_tau"):
                out[pre + k] = np.array(getattr(c, k))
            out[pre + "sum"] = np.array(sum(np.asarray(c.kft, float).ravel()[:50]))
            conds.append(c)
            if p["T"] != 0:
                break
        if p["T"] == 0:
            A = ADMR(conds, Btheta_min=0, Btheta_max=30, Btheta_step=15, Btheta_norm=inp["norm"], Bphi_array=inp["phis"], show_progress=False)
            A.runADMR()
            pre = "%d.scan." % i
            out[pre + "rhozz"], out[pre + "rzz"] = np.array(A.rhozz_array), np.array(A.rzz_array)
            out[pre + "filling"] = np.array(A.total_filling)
            f = os.path.join(os.path.dirname(job["out"]), "table")
            os.makedirs(f, exist_ok=True)
            A.fileADMR(folder=f)
            name = os.listdir(f)
            out[pre + "file"] = np.frombuffer((name[0] + "\n" + open(os.path.join(f, name[0])).read()).encode(), dtype=np.uint8)
            os.remove(os.path.join(f, name[0]))
    np.savez(job["out"], **out)


def env_of(cfg):
    from .env import worker_env
    e = worker_env("nojit" if cfg["mode"] == "nojit" else "plain")
    t = str(cfg["threads"])
    e.update({"PYTHONHASHSEED": cfg["hash"], "NUMBA_NUM_THREADS": t, "OMP_NUM_THREADS": t, "OPENBLAS_NUM_THREADS": t, "LC_ALL": cfg["lang"], "LANG": cfg["lang"],
              "PYTHONPATH": os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.pathsep + os.environ.get("RV_REPO", "/repo")})
    return e


def run(case, mon):
    procs, res = [], []
    cfgs = case["configs"]

    def start(i):
        d = tempfile.mkdtemp(dir=mon.scratch)
        home = d if cfgs[i].get("cwd") else mon.scratch
        o = os.path.join(d, "out.npz")
        err = open(os.path.join(d, "err"), "w")
        pr = subprocess.Popen([sys.executable, "-c", "from rv import c24; c24.child()"], env=env_of(cfgs[i]), stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=err, text=True, cwd=home)
        pr.stdin.write(json.dumps({"inputs": case["inputs"], "config": cfgs[i], "out": o}))
        pr.stdin.close()
        return pr, o, err

    def finish(x):
        pr, o, err = x
        try:
            rc = pr.wait(500)
        finally:
            pr.kill()
        err.close()
        t = open(err.name).read()[-700:]
        if not mon.ok("processes", rc == 0 and os.path.exists(o), lambda: {"rc": rc, "stderr": t}):
            return None
        with np.load(o) as z:
            r = {k: z[k] for k in z.files}
        shutil.rmtree(os.path.dirname(o), ignore_errors=True)
        return r
    if case["together"]:
        procs = [start(i) for i in range(len(cfgs))]
        res = [finish(x) for x in procs]
        mon.event("concurrent")
    else:
        for j in range(0, len(cfgs), 2):
            procs = [start(i) for i in range(j, min(j + 2, len(cfgs)))]
            res += [finish(x) for x in procs]
    if any(r is None for r in res):
        return
    ref = res[0]
    first = {}
    for c, r in zip(cfgs, res):
        key = json.dumps({k: v for k, v in c.items() if k != "cwd"}, sort_keys=True)
        mon.event(c["mode"])
        mon.event("hash seeds", c["hash"] != "0")
        mon.event("thread counts", c["threads"] != 1)
        mon.seen(case["inputs"], c)
        if not mon.ok("identical", sorted(r) == sorted(ref), lambda: {"published": sorted(set(r) ^ set(ref)), "config": c}):
            continue
        if key in first:         # an exact repeat
            for k in r:
                mon.ok("identical", r[k].tobytes() == first[key][k].tobytes(), lambda: {"what": k, "config": c, "first": first[key][k], "now": r[k], "input": case["inputs"][int(k.split(".")[0])]})
        else:
            first[key] = r
        if r is ref:
            continue
        for k in r:
            want = ref[k]
            info = lambda: {"what": k, "config": c, "base": cfgs[0], "input": case["inputs"][int(k.split(".")[0])]}
            if k.endswith(".file"):
                same_table(mon, r[k], want, info)
                continue
            if not mon.ok("rounding", r[k].shape == want.shape, info):
                continue
            if k.endswith((".n", ".p", ".filling")):
                mon.close("filling", r[k], want, 1e-12, info, scale=1.0)
            elif k.endswith("sum"):
                continue
            elif k.endswith(("sigma", "alpha", "beta")):
                g = np.sqrt(np.abs(np.diag(want)) + 1e-300)
                sc = np.outer(g, g) if k.endswith(("sigma", "beta")) else np.full((3, 3), np.abs(want).max() + 1e-300)
                if k.endswith("alpha"):
                    s = ref[k[:-5] + "sigma"]
                    sc = np.full((3, 3), np.abs(s).max() * 1e-4)
                mon.close("rounding", r[k], want, 2e-5, info, scale=sc)
            else:
                mon.close("rounding", r[k], want, 2e-5 if "scan" in k or "kft" in k or "t_o_tau" in k else 3e-6, info)


def same_table(mon, a, b, info):
    """the exported tables: same name and header, same numbers to the printed precision and rounding"""
    ta, tb = bytes(a).decode().splitlines(), bytes(b).decode().splitlines()
    if not mon.ok("rounding", ta[:2] == tb[:2] and len(ta) == len(tb), lambda: {"name": [ta[0], tb[0]], "header": [ta[1], tb[1]], **info()}):
        return
    x = np.array([[float(v) for v in l.split()] for l in ta[2:]])
    y = np.array([[float(v) for v in l.split()] for l in tb[2:]])
    mon.close("rounding", x, y, 2e-5, info, scale=np.maximum(np.abs(y), 1e-30))
