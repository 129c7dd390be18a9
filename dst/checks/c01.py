"""C01: a compiled circuit runs as the circuit on every measurement-outcome history."""

from __future__ import annotations

import copy

import numpy as np

from dst import gen, ref
from dst.core import Discard, Violation, close_up_to_phase, fidelity
from graphix import instruction
from graphix.fundamentals import Axis

from dst.gx import (
    DensityMatrixBackend,
    StatevectorBackend,
    Circuit, Pattern, ScriptSelector, circuit_key, circuit_repr, measured_nodes, pattern_repr, simulate, vec,
)

LEVEL = "exploration"
QUICK_RUNS = 20000
THOROUGH_RUNS = 1000000
REAL = ["graphix.transpiler", "graphix.instruction", "graphix.flow.core (corrections)", "graphix.pattern", "graphix.optimization",
        "graphix.simulator", "graphix.sim.statevec (kernel source run uncompiled)", "graphix.sim.density_matrix"]
STUB = ["random number source and branch selection (scripted by the simulator)"]
RULE = ("random circuits over the full instruction set (width<=4), random compilation variant, 3-5 scripted outcome "
        "histories per pattern (all-0, all-1, one-hot, random); non-trivial = at least one gate and one internal measurement; "
        "distinct = distinct event-log digests")
ASSUMPTIONS = ["reference semantics in dst/ref.py (numpy)", "circuits of at most 4 qubits, at most 14 gates",
               "fidelity tolerance 1e-6"]
REQUIRED_PROBES = ("reused", "own-backend", "mid-circuit-measurement", "swap", "outcome-one", "identity-gate")


def compile_variant(ctx, c):
    """(name, pattern, classical_outputs)."""
    k = ctx.draw(6)
    if k == 0:
        t = c.transpile()
        name = "transpile"
    elif k == 1:
        t = c.transpile(transpile_swaps=False)
        name = "transpile(noswap)"
    elif k == 2:
        f = c.transpile_to_causalflow()
        t = f.to_pattern()
        name = "flow.to_pattern"
    elif k == 3:
        f = c.transpile_to_causalflow()
        p = f.flow.to_xzcorrections().to_pattern()
        p.extend(f.classical_outputs.values())
        return "flow.to_xz.to_pattern", p, tuple(f.classical_outputs)
    elif k == 4:
        c2 = c.transpile_measurements_to_z_axis()
        t = c2.transpile(transpile_swaps=bool(ctx.draw(2)))
        name = "zaxis+transpile"
    else:
        c2 = c.transpile_j_to_rzh()
        t = c2.transpile(transpile_swaps=bool(ctx.draw(2)))
        name = "j2rzh+transpile"
    return name, t.pattern, tuple(t.classical_outputs)


def note(ctx, c):
    kinds = {i.kind.name for i in c.instruction}
    if "M" in kinds:
        ctx.probe("mid-circuit-measurement")
    if "SWAP" in kinds:
        ctx.probe("swap")
    if "I" in kinds:
        ctx.probe("identity-gate")
    if "CCX" in kinds:
        ctx.probe("ccx")


def branches(ctx):
    """Compile, then run scripted outcome histories in the reference and in the real simulator."""
    measures = ctx.flag(1, 2)
    c = gen.circuit(ctx, max_width=4, max_depth=12, measures=measures)
    note(ctx, c)
    ctx.describe(circuit_repr(c))
    key = circuit_key(c)
    name, p, cls = compile_variant(ctx, c)
    ctx.log(name, circuit_repr(c))
    ctx.check(circuit_key(c) == key, "source-mutated", lambda: f"compilation changed the circuit: {circuit_repr(c)}")
    n = c.width
    mgates = [i for i in c.instruction if i.kind.name == "M"]
    ctx.check(len(cls) == len(mgates), "classical-outputs", lambda: f"{name}: {len(cls)} classical outputs for {len(mgates)} measurements")
    ctx.check(len(p.input_nodes) == n and len(p.output_nodes) == n - len(mgates), "interface",
              lambda: f"{name}: interface of compiled pattern {pattern_repr(p)}")
    p.check_runnability()
    mnodes = measured_nodes(p)
    ctx.check(set(cls) <= set(mnodes), "classical-outputs", lambda: f"{name}: {cls} not all measured")
    internal = [m for m in mnodes if m not in cls]
    if internal and c.instruction:
        ctx.nontrivial()
    nb = ctx.int(1, 3)
    for _ in range(nb):
        out = gen.outcomes(ctx, internal)
        cm = [ctx.draw(2) for _ in mgates]
        out.update(zip(cls, cm))
        if any(out.values()):
            ctx.probe("outcome-one")
        ctx.sched(*[out[m] for m in mnodes])
        # reference run of the pattern with inputs entangled to reference qubits
        expected, live = ref.circuit_run(c.instruction, n, ref.identity_input(n), cm)
        try:
            got, _ = ref.pattern_kraus(p, ref.scripted(out))
        except ref.RefError as e:
            raise Violation("not-runnable", f"{name}: {e}: {pattern_repr(p)}") from None
        got = got * 2 ** (len(internal) / 2)
        en, gn = np.linalg.norm(expected), np.linalg.norm(got)
        ctx.check(abs(en - gn) < 1e-6 * max(1, en), "distribution",
                  lambda: f"{name}: outcome probability weight {gn**2:.6g} but circuit has {en**2:.6g}; outcomes {out}, classical {cm}; {circuit_repr(c)}")
        if en > 1e-7:
            ctx.check(close_up_to_phase(expected, got), "wrong-map",
                      lambda: f"{name}: compiled pattern does not implement the circuit on outcomes {out} (classical {cm}), "
                              f"fidelity {fidelity(expected, got):.6f}; {circuit_repr(c)}")
        # the real simulator on a concrete input
        space = ref.space_needed(list(p), n)
        if space > 11:
            continue
        inp, v = gen.input_state(ctx, n)
        expv, _ = ref.circuit_run(c.instruction, n, v.reshape((2,) * n), cm)
        if np.linalg.norm(expv) < 1e-4:
            continue
        backend = ctx.pick(["statevector", "statevector", "statevector", "densitymatrix"]) if space <= 5 else "statevector"
        st, res, sel = simulate(p, out, input_state=inp, backend=backend)
        ctx.log(backend, sorted(res.items()))
        ctx.check(all(res.get(m) == sel.taken.get(m) for m in mnodes), "results-recorded",
                  lambda: f"{name}: recorded results {res} differ from outcomes {sel.taken}")
        if any(sel.taken[m] != out[m] for m in mnodes):
            raise Violation("probability-zero", f"{name}: outcome history {out} should be possible, selector was offered {sel.p0}; {circuit_repr(c)}")
        w = 1.0
        for m in mnodes:
            w *= sel.p0[m] if out[m] == 0 else 1 - sel.p0[m]
        ew = float(np.vdot(expv, expv).real) / 2 ** len(internal)
        ctx.check(abs(w - ew) < 1e-6, "distribution", lambda: f"{name}: joint probability {w} expected {ew}; {circuit_repr(c)}")
        compare_state(ctx, st, expv, backend, f"{name} on {circuit_repr(c)} outcomes {out}")


def compare_state(ctx, st, expv, backend, what):
    a = vec(st)
    e = np.asarray(expv).reshape(-1)
    e = e / np.linalg.norm(e)
    if backend == "densitymatrix":
        ctx.check(a.shape == (e.size, e.size) and np.allclose(a, np.outer(e, e.conj()), atol=1e-6), "wrong-state",
                  lambda: f"density matrix differs: {what}")
    else:
        ctx.check(close_up_to_phase(a, e), "wrong-state", lambda: f"state differs (fidelity {fidelity(a, e):.6f}): {what}")


def circuit_simulation(ctx):
    """Circuit.simulate with scripted classical outcomes against the reference circuit semantics."""
    c = gen.circuit(ctx, max_width=5, max_depth=14, measures=ctx.flag(2, 3))
    note(ctx, c)
    ctx.describe(circuit_repr(c))
    key = circuit_key(c)
    n = c.width
    inp, v = gen.input_state(ctx, n)
    mg = [i for i in c.instruction if i.kind.name == "M"]
    bits = {i.target: ctx.draw(2) for i in mg}
    backend = ctx.pick(["statevector", "densitymatrix"]) if n <= 4 else "statevector"
    sel = ScriptSelector(bits)
    kw = {} if inp is None else {"input_state": inp}
    spectators = None
    if ctx.flag(1, 3):
        # the user's own backend, which may already hold other qubits
        be = {"statevector": StatevectorBackend, "densitymatrix": DensityMatrixBackend}[backend](branch_selector=sel)
        k = ctx.int(0, 2) if n <= 3 else 0
        if k:
            spectators = gen.random_unit_vector(ctx, 1 << k)
            be.add_nodes([n + 3 * j + 1 for j in range(k)], spectators)
        ctx.probe("own-backend")
        res = c.simulate(be, rng=np.random.default_rng(0), **kw)
        ctx.check(res.state is be.state, "own-backend", lambda: f"the result of {circuit_repr(c)} is not the state of the given backend")
    else:
        res = c.simulate(backend, branch_selector=sel, rng=np.random.default_rng(0), **kw)
    cm = list(res.classical_measures)
    ctx.sched(*cm)
    ctx.log(circuit_repr(c), cm)
    if len(c.instruction) > 1:
        ctx.nontrivial()
    exp_bits = [sel.taken[i.target] for i in mg]
    ctx.check(cm == exp_bits, "classical-order", lambda: f"classical measures {cm} expected {exp_bits}: {circuit_repr(c)}")
    expv, _ = ref.circuit_run(c.instruction, n, v.reshape((2,) * n), cm)
    w = 1.0
    for i in mg:
        w *= sel.p0[i.target] if sel.taken[i.target] == 0 else 1 - sel.p0[i.target]
    ctx.check(abs(w - np.vdot(expv, expv).real) < 1e-6, "distribution",
              lambda: f"joint probability {w}, expected {np.vdot(expv, expv).real}: {circuit_repr(c)}")
    if spectators is not None:
        expv = np.kron(spectators, np.asarray(expv).reshape(-1))
    compare_state(ctx, res.state, expv, backend, f"Circuit.simulate({backend}{'' if spectators is None else ' with other qubits'}) of {circuit_repr(c)}")
    ctx.check(circuit_key(c) == key, "source-mutated", "simulation changed the circuit")


def lowering(ctx):
    """Circuit-to-circuit passes preserve the joint behaviour for every classical outcome history."""
    from graphix.transpiler import OutputKind, transpile_swaps

    c = gen.circuit(ctx, max_width=4, max_depth=14, measures=ctx.flag(1, 2))
    note(ctx, c)
    ctx.describe(circuit_repr(c))
    n = c.width
    mg = [i for i in c.instruction if i.kind.name == "M"]
    cm = [ctx.draw(2) for _ in mg]
    ctx.sched(*cm)
    key = circuit_key(c)
    if len(c.instruction) > 1:
        ctx.nontrivial()
    expected, live = ref.circuit_run(c.instruction, n, ref.identity_input(n), cm)
    k = ctx.draw(4)
    ctx.log(k, circuit_repr(c))
    if k == 0:
        c2 = c.transpile_measurements_to_z_axis()
        ctx.check(all(i.axis.name == "Z" for i in c2.instruction if i.kind.name == "M"), "lowering", "non-Z measurement left")
        got, live2 = ref.circuit_run(c2.instruction, n, ref.identity_input(n), cm)
        ok = live2 == live
    elif k == 1:
        c2 = c.transpile_j_to_rzh()
        ctx.check(not any(i.kind.name == "J" for i in c2.instruction), "lowering", "J gate left")
        got, live2 = ref.circuit_run(c2.instruction, n, ref.identity_input(n), cm)
        ok = live2 == live
    else:
        inplace = k == 3
        src = copy.deepcopy(c) if inplace else c
        instrs = list(copy.deepcopy(c.instruction))
        r = transpile_swaps(src, copy=not inplace)
        c2 = r.circuit
        ctx.check(not any(i.kind.name == "SWAP" for i in c2.instruction), "lowering", "SWAP gate left")
        got, live2 = ref.circuit_run(c2.instruction, n, ref.identity_input(n), cm)
        # outputs[q] tells where qubit q of the original ended up
        idx = []
        for q, o in enumerate(r.outputs):
            if o.kind == OutputKind.Qubit:
                ctx.check(q in live and o.index in live2, "swap-outputs", lambda: f"bad output map {r.outputs}: {circuit_repr(c)}")
                idx.append(live2.index(o.index))
            else:
                ctx.check(q not in live and instrs and [i.target for i in instrs if i.kind.name == "M"][o.index] == q,
                          "swap-outputs", lambda: f"bad bit map {r.outputs}: {circuit_repr(c)}")
        ok = sorted(idx) == list(range(len(live2)))
        # relabelling of the two kinds of outputs of the swap-free circuit
        where = {i.target: 100 + m for m, i in enumerate(i for i in instrs if i.kind.name == "M")}
        bits = tuple(r.swap_classical_outputs([100 + m for m in range(len(mg))]))
        ctx.check(bits == tuple(where[q] for q in sorted(where)), "swap-outputs", lambda: f"classical outputs relabelled {bits}, expected those of the measured qubits {sorted(where)} in order: {where}: {circuit_repr(c)}")
        outs = tuple(r.swap_output_nodes([200 + m for m in range(len(live2))]))
        ctx.check(outs == tuple(200 + m for m in idx), "swap-outputs", lambda: f"output nodes relabelled {outs}, expected positions {idx}: {circuit_repr(c)}")
        if ok:
            got = np.transpose(got, idx + list(range(len(live2), got.ndim)))
    ctx.check(ok, "lowering", lambda: f"live qubits differ after pass {k}: {circuit_repr(c)}")
    if k != 3:
        ctx.check(circuit_key(c) == key, "source-mutated", "pass changed its input circuit")
    ctx.check(abs(np.linalg.norm(got) - np.linalg.norm(expected)) < 1e-6, "distribution", lambda: f"pass {k} changes probabilities: {circuit_repr(c)}")
    if np.linalg.norm(expected) > 1e-7:
        ctx.check(close_up_to_phase(got, expected), "wrong-map", lambda: f"pass {k} changes the circuit: {circuit_repr(c)} -> {circuit_repr(c2)}")


def reused(ctx):
    """A circuit that goes on using a measured qubit is refused, whoever is asked to run or to compile it."""
    from graphix.qasm3_exporter import circuit_to_qasm3
    from graphix.transpiler import transpile_swaps

    c = gen.circuit(ctx, max_width=4, max_depth=8, measures=True)
    mg = [(i, x.target) for i, x in enumerate(c.instruction) if x.kind.name == "M"]
    if not mg:
        raise Discard
    i, t = ctx.pick(mg)
    others = [q for q in range(c.width) if q != t]
    bad = [instruction.H(t), instruction.RX(t, 0.3), instruction.M(t, Axis.X), instruction.S(t), instruction.Z(t), instruction.J(t, 0.2)]
    if others:
        o = ctx.pick(others)
        bad += [instruction.CNOT(t, o), instruction.CNOT(o, t), instruction.SWAP((t, o)), instruction.CZ((o, t)), instruction.RZZ(t, o, 0.2)]
    c.instruction.insert(ctx.int(i + 1, len(c.instruction)), ctx.pick(bad))
    note(ctx, c)
    ctx.describe(circuit_repr(c))
    ctx.nontrivial()
    ctx.fault("measured-qubit-reused")
    ctx.probe("reused")
    key = circuit_key(c)
    ways = {
        "transpile_swaps": lambda: transpile_swaps(c), "transpile_swaps(copy)": lambda: transpile_swaps(c, copy=True), "transpile": lambda: c.transpile(),
        "transpile(transpile_swaps=False)": lambda: c.transpile(transpile_swaps=False), "transpile_to_causalflow": lambda: c.transpile_to_causalflow(),
        "simulate": lambda: c.simulate(rng=np.random.default_rng(0)), "transpile_measurements_to_z_axis": lambda: c.transpile_measurements_to_z_axis(),
        "circuit_to_qasm3": lambda: circuit_to_qasm3(c),
    }
    name = ctx.pick(list(ways))
    ctx.log(circuit_repr(c), name)
    ctx.sched(name)
    try:
        ways[name]()
    except Exception:  # noqa: BLE001
        ctx.check(circuit_key(c) == key, "source-mutated", lambda: f"the refused {name} changed the circuit")
        return
    raise Violation("reused", f"{name} accepts {circuit_repr(c)}, which uses qubit {t} after measuring it")


SCENARIOS = [("branches", branches, 6), ("circuit_simulation", circuit_simulation, 2), ("lowering", lowering, 3), ("reused", reused, 1)]
