#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks present (rv/cNN.py)."""
import json, os
T = {
 "C01": "runtime monitoring: reference-model oracle on energy/velocity calls over generated band models",
 "C02": "runtime monitoring: independent counting oracle on generated grids",
 "C03": "runtime monitoring: post-condition monitors on solver calls over random histories",
 "C04": "runtime monitoring: surface-membership, coverage and stray-part monitors against an independent triangulation",
 "C05": "runtime monitoring: surface/contour integral oracle against an independent triangulation",
 "C06": "runtime monitoring: numerical-derivative oracle for density of states and mass",
 "C07": "runtime monitoring: model-based random operation histories with a stale-result monitor and a fresh-object oracle",
 "C08": "runtime monitoring: deep-snapshot monitors on inputs and sibling objects over interleaved histories",
 "C09": "runtime monitoring: reference-model oracle on every scattering-rate call, including those made during runs",
 "C10": "runtime monitoring: trace checker over recorded orbits (invariants, equation of motion, exposure)",
 "C11": "runtime monitoring: reference-model oracle on zero-field tensors",
 "C12": "runtime monitoring: reference-model oracle (own orbit integrator and Chambers sum) on in-field tensors",
 "C13": "runtime monitoring: metamorphic oracles over pairs of runs (Onsager, symmetry, equivalent fields)",
 "C14": "runtime monitoring: closed-form Drude oracle on generated parabolic bands",
 "C15": "runtime monitoring: Fermi-window oracle on tensors, grid and weights over setter histories",
 "C16": "runtime monitoring: random operation histories with a fresh-object oracle",
 "C17": "runtime monitoring: per-angle fresh-object oracle on scans",
 "C18": "runtime monitoring: read-back oracle on totals, names and tables in scratch folders",
 "C19": "runtime monitoring: reference objective and purity oracle over evaluation histories",
 "C20": "runtime monitoring: reference loader oracle over generated data files",
 "C21": "runtime monitoring: event log of all objective calls in all worker processes with an offline checker, injected delays",
 "C22": "runtime monitoring: reference residual oracle and read-back of saved fits over evaluation histories",
 "C23": "runtime monitoring: poisoned-allocation sanitizer and floating-point trap monitor over extreme inputs",
 "C24": "runtime monitoring: differential oracle over a matrix of processes, threads, compile modes, hash seeds and concurrent runs",
 "C26": "runtime monitoring: reference-model oracle on the published cyclotron quantity over setting histories",
 "C25": "runtime monitoring: monitors on the drawn artists and on the state before and after every figure",
}
NOTE = "Holds on every execution observed (generated workloads, seeds from VERIF_SEED); assumes numpy/scipy and the reference model in rv/ref.py. See DESIGN.md."
def main():
    props = [json.loads(l) for l in open("properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists("rv/%s.py" % i.lower()):
            checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                           "technique": T[i], "level": "exploration", "level_note": NOTE})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: the monitors observe public objects and wrap functions at run time. Known findings: known_findings.txt."},
              open("MANIFEST.json", "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")
main()
