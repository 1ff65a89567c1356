"""The monitor: an oracle layer that counts what it saw and records every violation.

A check's workload calls `mon.ok` / `mon.close` with what it observed on the real code and what the
reference says.  Nothing raises: a violation is recorded and the execution goes on, so that one
defect does not hide another.  Counters go to the evidence file; a kind that was never evaluated
makes the run inconclusive (see run.py)."""
import hashlib
import json
import math

import numpy as np


def jsonable(x, depth=0):
    if isinstance(x, (str, bool, int)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, np.ndarray):
        if x.size > 24:
            return {"shape": list(x.shape), "head": [jsonable(v) for v in x.ravel()[:6].tolist()]}
        return jsonable(x.tolist())
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    return repr(x)[:300]


class Monitor:
    MAXV = 40

    def __init__(self):
        self.events = {}        # observed events (operations, points, ...)
        self.evals = {}         # oracle evaluations per kind
        self.worst = {}         # worst error / tolerance per kind
        self.violations = []
        self.known = {}         # id -> [detail, ...]
        self.nontrivial = set()
        self.nviol = 0

    # ---- what was observed
    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + int(n)

    def seen(self, *key):
        """marks a distinct, non-trivial observation"""
        h = hashlib.sha1(json.dumps(jsonable(list(key)), sort_keys=True).encode()).hexdigest()[:16]
        self.nontrivial.add(h)

    # ---- oracles
    def fail(self, kind, detail=None):
        self.nviol += 1
        if len(self.violations) < self.MAXV:
            self.violations.append({"kind": kind, "detail": jsonable(detail)})

    def ok(self, kind, cond, detail=None):
        self.evals[kind] = self.evals.get(kind, 0) + 1
        if not bool(cond):
            self.fail(kind, detail() if callable(detail) else detail)
            return False
        return True

    def close(self, kind, got, want, tol, detail=None, scale=None):
        """|got - want| <= tol * scale element-wise (scale defaults to max|want|); counts one evaluation
        per element.  NaN on either side is a violation; shapes must agree."""
        try:
            got = np.asarray(got, dtype=complex if np.iscomplexobj(got) else float)
        except (TypeError, ValueError):
            self.evals[kind] = self.evals.get(kind, 0) + 1
            self.fail(kind, {"not a number array": repr(got)[:200], "ctx": detail})
            return False
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.evals[kind] = self.evals.get(kind, 0) + 1
            self.fail(kind, {"shape": [got.shape, want.shape], "ctx": detail() if callable(detail) else detail})
            return False
        n = max(1, want.size)
        self.evals[kind] = self.evals.get(kind, 0) + n
        if want.size == 0:
            return True
        if scale is None:
            scale = np.max(np.abs(want))
        with np.errstate(all="ignore"):
            lim = np.asarray(tol * np.asarray(scale, dtype=float)) + 1e-300
            err = np.abs(got - want) / lim
        bad = ~(err <= 1)
        w = float(np.max(np.where(np.isnan(err), np.inf, err)))
        if w > self.worst.get(kind, -1):
            self.worst[kind] = w
        if bad.any():
            i = np.unravel_index(int(np.argmax(np.where(np.isnan(err), np.inf, err))), err.shape)
            self.fail(kind, {"at": list(map(int, i)), "got": got[i], "want": want[i], "err/tol": w,
                             "n_bad": int(bad.sum()), "of": int(bad.size),
                             "ctx": detail() if callable(detail) else detail})
            return False
        return True

    def known_finding(self, kid, detail):
        self.known.setdefault(kid, [])
        if len(self.known[kid]) < 3:
            self.known[kid].append(jsonable(detail))

    def result(self):
        return {"events": self.events, "evals": self.evals, "worst": {k: (v if math.isfinite(v) else 1e300) for k, v in self.worst.items()},
                "violations": self.violations, "nviol": self.nviol, "known": self.known,
                "nontrivial": sorted(self.nontrivial)}
