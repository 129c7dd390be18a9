"""Writes /verif/MANIFEST.json from the check modules present."""
import json, os, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
LEVELS = {}
TECH = {
 "C01": "deterministic simulation: seeded circuits x compilation variants x scripted measurement-outcome histories, refinement against a reference circuit/pattern simulator",
 "C02": "deterministic simulation: seeded open graphs, measurement orders and outcome histories; every branch must be the same isometry; corrupted orders/flows as faults",
 "C03": "deterministic simulation: seeded rewrite histories on patterns, branch-by-branch refinement under scripted outcomes",
 "C04": "deterministic simulation: lock-step refinement of real backends against a reference, scripted outcomes and scripted random streams with extreme draws",
 "C05": "deterministic simulation: asynchronous distributed executor over the declared dependencies with message delay, reordering, duplication, node stalls",
 "C06": "deterministic simulation with fault injection: physical fault trajectories and readout flips; exact trajectory average vs real density-matrix run",
 "C07": "deterministic simulation: controlled thread interleavings (baton at traced lines), hash-seed perturbed interpreters, log diffing",
 "C08": "deterministic simulation with fault injection: exceptions/cancellation at arbitrary traced points and in user components, state comparison afterwards",
 "C09": "deterministic simulation: seeded histories of operations on aliased/copied objects against by-value models",
 "C10": "deterministic simulation: controlled schedules of parallel-loop iterations of the real kernels (including partial interleavings), compiled kernels across thread counts, reference results",
 "C11": "deterministic simulation with fault injection: QASM interpreter on scripted outcomes; simulated disk with short/failed writes",
 "C12": "deterministic simulation: seeded substitution histories through compile/rewrite/run pipelines, branch-by-branch refinement",
 "C13": "deterministic simulation: seeded compositions with scripted outcome histories vs composed reference maps; corrupted mappings as faults",
 "C14": "deterministic simulation: extracted circuit vs every scripted outcome branch of the corresponding pattern",
 "C15": "deterministic simulation with fault injection: corrupted command streams (drop/duplicate/reorder/retarget) vs reference validity; observed executions vs reported metrics",
 "C16": "deterministic simulation: seeded operation/outcome histories on the graph-state simulator in lock-step with a state vector",
 "C18": "deterministic simulation: seeded open graphs (including corrupted ones as faults); every measurement schedule played backwards by a reference scheduler decides existence and least depth; returned flows replayed against their definition",
 "C20": "deterministic simulation with fault injection: every random draw decided by the simulator, boundary draws injected at drawn positions; validity and use of each generated object",
 "C21": "deterministic simulation with fault injection: resource-state factories and fusion gates under drawn schedules and outcomes, with failed fusions, crashes and duplicated requests; final state against the graph state",
 "C22": "deterministic simulation with fault injection: sessions of drawings with layouts from a seeded or adversarial source, failing screens, full disks, size limits and bad targets; figures read back and compared with the object",
}
NOTE = {
 "C01": "Sampling, not proof. Trusts dst/ref.py. Circuits up to 5 qubits/14 gates.",
}
checks = []
for pid in sorted(TECH):
    f = V / "dst" / "checks" / f"{pid.lower()}.py"
    if not f.exists():
        continue
    ns = {}
    src = f.read_text()
    level = src.split('LEVEL = "')[1].split('"')[0]
    note = NOTE.get(pid) or (src.split('LEVEL_NOTE = "')[1].split('"')[0] if 'LEVEL_NOTE = "' in src else "Seeded sampling of runs (not exhaustive); trusts the reference simulator in dst/ref.py and the bounds listed in the evidence file.")
    checks.append(dict(property=pid, quick_cmd=f"/verif/check.py {pid} --tier quick",
                       thorough_cmd=f"/verif/check.py {pid} --tier thorough",
                       evidence_file=f"evidence/{pid}.json", technique=TECH[pid], level=level, level_note=note))
claimed = {c["property"] for c in checks}
NA = {
 "C17": "Finite tables and pure functions: no schedule, clock, fault or history for a simulator to decide. (The tables are exercised indirectly by C03, C04, C14 and C16 against frozen matrices.)",
 "C19": "Pure string rendering of an in-memory object; no nondeterminism, fault or history.",
}
na = [dict(property=k, reason=v) for k, v in NA.items()]
for line in open(V / "properties.jsonl"):
    pid = json.loads(line)["id"]
    if pid not in claimed and pid not in NA:
        na.append(dict(property=pid, reason="check under construction"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '/verif'); import dst.core, dst.runner\"",
         checks=checks, not_applicable=na,
         notes="One framework (dst/) runs all checks: check.py <ID> --tier quick|thorough; check.py --replay FILE re-executes a minimised replay file. No hooks in /repo are needed: all seams are public APIs, kernels' Python source, and interpreter-level tracing.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks")
