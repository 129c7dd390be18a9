"""C14: circuit extraction inverts compilation on every outcome branch."""

from __future__ import annotations

import warnings

import numpy as np

from dst import flowref, gen, ref
from dst.core import Discard, Violation, close_up_to_phase, fidelity
from dst.gx import Axis, Circuit, Measurement, OpenGraph, Sign, circuit_repr, measured_nodes, og_repr, pattern_repr

from graphix._linalg import MatGF2
from graphix.circ_ext.compilation import cm_berg_pass, pexp_ladder_pass
from graphix.circ_ext.extraction import CliffordMap, ExtractionResult, PauliExponential, PauliExponentialDAG, PauliString
from graphix.opengraph import OpenGraphError

LEVEL = "exploration"
QUICK_RUNS = 120000
THOROUGH_RUNS = 3000000
REAL = ["graphix.circ_ext.extraction", "graphix.circ_ext.compilation", "graphix.flow.core", "graphix.flow._find_gpflow", "graphix.opengraph", "graphix.transpiler",
        "graphix.pattern"]
STUB = ["execution of circuits, patterns and Pauli exponentials (dst/ref.py)", "synthesis order inside a layer (drawn by the simulator)",
        "branch selection (scripted outcome histories)"]
RULE = ("random and constructed open graphs with flow (<=8 nodes, as many outputs as inputs or more), circuits compiled to patterns and extracted again, "
        "random Clifford maps (<=5 qubits) and Pauli-exponential DAGs; the extracted circuit, and separately the extracted Clifford map and Pauli exponentials "
        "in a drawn order, are compared with the map of the pattern on scripted outcome histories; unfocused flows must be refused or extracted correctly; "
        "non-trivial = at least one measured node and one edge, or at least two gates")
ASSUMPTIONS = ["post-selected all-0 map computed by dst/flowref.py is the meaning of an open graph", "graphs of at most 8 nodes (14 for compiled circuits), at most 3 outputs"]
REQUIRED_PROBES = ("extracted", "isometry", "roundtrip", "clifford-map", "pexp-dag", "unfocused-refused", "branch-one", "pauli-measurement", "YZ", "XZ", "strings")

P2 = {"I": np.eye(2, dtype=complex), "X": ref.PX, "Y": np.array([[0, -1j], [1j, 0]]), "Z": ref.PZ}


def dense(ps):
    m = np.ones((1, 1), dtype=complex)
    for q in range(ps.dim):
        ax = ps.axes.get(q)
        m = np.kron(m, P2[ax.name if ax is not None else "I"])
    return (-1 if ps.sign is Sign.MINUS else 1) * m


def pexp_matrix(pe):
    """exp(i a P) with a in units of pi: the rotation R_P(-2a)."""
    p = dense(pe.pauli_string)
    a = float(pe.angle) * np.pi
    return np.cos(a) * np.eye(len(p)) + 1j * np.sin(a) * p


def circuit_matrix(ctx, c, what):
    ctx.check(all(i.kind.name != "M" for i in c.instruction), "measures", lambda: f"{what}: extracted circuit measures: {circuit_repr(c)}")
    n = c.width
    t, live = ref.circuit_run(list(c.instruction), n, ref.identity_input(n).reshape((2,) * (2 * n)))
    return t.reshape(2**n, 2**n)


def dag_problem(og, dag, layers_flow):
    return flowref.layers_problem(og, dag.partial_order_layers)


def drawn_order(ctx, dag):
    order = []
    for lay in reversed([set(x) for x in dag.partial_order_layers[1:]]):
        order += ctx.shuffle(sorted(lay))
    return order


def shuffled_pass(ctx):
    """A caller-supplied synthesis pass: same synthesis, order within each layer decided by the simulation."""

    def cp(dag, circuit):
        for node in drawn_order(ctx, dag):
            pexp_ladder_pass(PauliExponentialDAG({node: dag.pauli_exponentials[node]}, [set(dag.output_nodes), {node}], dag.output_nodes), circuit)

    return cp


def check_er(ctx, og, er, exp, what):
    """Clifford map and Pauli exponentials against the map of the open graph (isometries included)."""
    dag, cm = er.pexp_dag, er.clifford_map
    nin, nout = len(og.input_nodes), len(og.output_nodes)
    ctx.check(list(dag.output_nodes) == list(og.output_nodes) and list(cm.output_nodes) == list(og.output_nodes) and list(cm.input_nodes) == list(og.input_nodes),
              "interface", lambda: f"{what}: interface of the extraction result differs: {er}; {og_repr(og)}")
    ctx.check(set(dag.pauli_exponentials) == set(og.measurements), "interface", lambda: f"{what}: exponentials of {set(dag.pauli_exponentials)}; {og_repr(og)}")
    m = exp.reshape(2**nout, 2**nin)
    u = np.eye(2**nout, dtype=complex)
    order = drawn_order(ctx, dag)
    ctx.sched(*order)
    for n in order:
        pe = dag.pauli_exponentials[n]
        ctx.check(pe.pauli_string.dim == nout, "interface", lambda: f"{what}: string {pe.pauli_string} on {nout} outputs")
        u = pexp_matrix(pe) @ u
    v = u.conj().T @ m
    s = np.linalg.norm(v)
    for i in range(nin):
        for letter, ps in (("X", cm.x_map[i]), ("Z", cm.z_map[i])):
            g = np.kron(np.kron(np.eye(2**i), P2[letter]), np.eye(2 ** (nin - 1 - i)))
            d = np.linalg.norm(v @ g - dense(ps) @ v) / s
            ctx.check(d < 1e-6, "wrong-extraction",
                      lambda: f"{what}: exponentials (order {order}) then image {letter}_{i} -> {ps} do not reproduce the map of the open graph (deviation {d:.3g}): {er}; {og_repr(og)}")


def branch_check(ctx, p, exp, what, og):
    mn = measured_nodes(p)
    out = gen.outcomes(ctx, mn)
    ctx.sched(*[out[m] for m in mn])
    if any(out.values()):
        ctx.probe("branch-one")
    try:
        got, _ = ref.pattern_kraus(p, ref.scripted(out))
    except ref.RefError as e:
        raise Violation("not-runnable", f"{what}: {e}: {pattern_repr(p)}") from None
    ctx.check(close_up_to_phase(got, exp), "branch-differs",
              lambda: f"{what}: pattern branch {out} and extracted circuit differ (fidelity {fidelity(got, exp):.6f}): {pattern_repr(p)}; {og_repr(og)}")


def draw_og(ctx, equal):
    if ctx.flag(1, 3):
        og = gen.open_graph(ctx, max_nodes=7, equal_io=equal, min_meas=1)
    else:
        og = gen.flow_open_graph(ctx, max_nodes=8, all_inputs=equal)
    return og


def probes(ctx, og):
    for m in og.measurements.values():
        k = flowref.label(m)
        ctx.probe("pauli-measurement" if len(k) == 1 else k)
    if og.graph.edges and og.measurements:
        ctx.nontrivial()


def find(ctx, og):
    kind = ctx.pick(["pauli", "gflow", "inferred", "causal"])
    if kind == "pauli":
        return kind, og, og.to_pauliflow_or_none()
    if kind == "inferred":
        o = og.infer_pauli_measurements()
        return kind, o, o.to_pauliflow_or_none()
    b = og.to_bloch()
    return kind, b, (b.to_gflow_or_none() if kind == "gflow" else b.to_causalflow_or_none())


def extract(ctx):
    """Open graph -> circuit, by every route, against the pattern on a scripted branch."""
    og = draw_og(ctx, True)
    if len(og.input_nodes) != len(og.output_nodes):
        raise Discard
    key = og_repr(og)
    ctx.describe(key)
    n = len(og.output_nodes)
    how = ctx.draw(3)
    cp = shuffled_pass(ctx) if ctx.flag(1, 3) else None
    if how == 0:
        what = "OpenGraph.to_circuit"
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                c = og.to_circuit(pexp_cp=cp)
        except OpenGraphError:
            ctx.check(og.to_pauliflow_or_none() is None, "refused", lambda: f"{what} refused an open graph with Pauli flow: {key}")
            ctx.log("no flow")
            return
        used = og
        er = None
        ctx.check(used.to_pauliflow_or_none() is not None, "accepted-without-flow", lambda: f"{what} extracted from an open graph without flow: {key}")
    else:
        kind, used, flow = find(ctx, og)
        if flow is None:
            ctx.log("no flow")
            return
        what = f"{kind} extract_circuit"
        try:
            er = flow.extract_circuit()
        except ValueError as e:
            if kind == "causal":
                ctx.probe("unfocused-refused")
                ctx.log("unfocused")
                return
            raise Violation("refused", f"{what}: {e}: {og_repr(used)}") from None
        if kind == "causal":
            ctx.probe("focused-causal")
        c = er.to_circuit(pexp_cp=cp)
    exp = flowref.postselected(used)
    if er is not None:
        check_er(ctx, used, er, exp, what)
    ctx.check(c.width == n and len(c.active_qubits) == n, "interface", lambda: f"{what}: width {c.width} for {n} outputs")
    got = circuit_matrix(ctx, c, what)
    ctx.check(close_up_to_phase(got, exp), "wrong-circuit",
              lambda: f"{what}: extracted circuit differs (fidelity {fidelity(got, exp):.6f}): {circuit_repr(c)}; {og_repr(used)}")
    try:
        p = used.to_pattern() if er is None else flow.to_xzcorrections().to_pattern()
    except OpenGraphError as e:
        raise Violation("no-pattern", f"{what}: circuit extracted but {e}: {key}") from None
    branch_check(ctx, p, got, what, used)
    ctx.check(og_repr(og) == key, "source-mutated", lambda: f"{what} changed the open graph")
    ctx.probe("extracted")
    probes(ctx, used)
    ctx.log(what, circuit_repr(c))


def isometry(ctx):
    """More outputs than inputs: the extraction result describes the isometry; synthesis refuses it."""
    og = draw_og(ctx, False)
    ctx.describe(og_repr(og))
    kind, used, flow = find(ctx, og)
    if flow is None:
        ctx.log("no flow")
        return
    what = f"{kind} extract_circuit"
    if used.output_cliffords:
        raise Discard
    try:
        er = flow.extract_circuit()
    except ValueError as e:
        if kind == "causal":
            ctx.probe("unfocused-refused")
            return
        raise Violation("refused", f"{what}: {e}: {og_repr(used)}") from None
    exp = flowref.postselected(used)
    check_er(ctx, used, er, exp, what)
    if len(og.input_nodes) != len(og.output_nodes):
        ctx.probe("isometry")
        try:
            c = er.to_circuit()
        except NotImplementedError:
            ctx.probe("isometry-refused")
        else:
            # a later version may support isometries with ancillas in a known state: not judged, unless it claims the same width
            ctx.log("isometry circuit", c.width)
    probes(ctx, used)
    ctx.log(what, str(er.pexp_dag.partial_order_layers))


def unfocused(ctx):
    """A flow with a correction set multiplied by others: still a flow, possibly unfocused.  Refused or extracted correctly."""
    og = draw_og(ctx, True)
    kind, used, flow = find(ctx, og)
    if flow is None or len(og.input_nodes) != len(og.output_nodes):
        ctx.log("no flow")
        return
    ctx.describe(og_repr(used))
    func = {k: set(v) for k, v in flow.correction_function.items()}
    lev = {n: i for i, lay in enumerate(flow.partial_order_layers) for n in lay}
    n = 0
    for i in ctx.shuffle(sorted(func)):
        later = [j for j in func if j != i and lev[j] < lev[i]]
        if later and ctx.flag(2, 3):
            s = func[i] ^ func[ctx.pick(sorted(later))]
            trial = {**func, i: s}
            if flowref.flow_problem(used, "causal" if kind == "causal" else "gflow" if kind == "gflow" else "pauli", trial, flow.partial_order_layers) is None:
                func = trial
                n += 1
    if not n:
        ctx.log("nothing multiplied")
        return
    ctx.fault("correction-sets-multiplied", n)
    bad = type(flow)(used, {k: frozenset(v) for k, v in func.items()}, flow.partial_order_layers)
    what = f"{kind} flow with multiplied correction sets {func}"
    try:
        c = bad.extract_circuit().to_circuit()
    except ValueError:
        ctx.probe("unfocused-refused")
        ctx.log("refused")
        ctx.nontrivial()
        return
    exp = flowref.postselected(used)
    got = circuit_matrix(ctx, c, what)
    ctx.check(close_up_to_phase(got, exp), "unfocused-extracted",
              lambda: f"{what}: extracted circuit differs (fidelity {fidelity(got, exp):.6f}): {circuit_repr(c)}; {og_repr(used)}")
    ctx.nontrivial()
    ctx.log("extracted")


def roundtrip(ctx):
    """circuit -> pattern -> open graph -> circuit, any number of times."""
    c = gen.circuit(ctx, max_width=3, max_depth=6, ccx=False)
    ctx.describe(circuit_repr(c))
    n = c.width
    u0 = circuit_matrix(ctx, c, "source")
    cur = c
    for k in range(1 + ctx.draw(2)):
        p = cur.transpile().pattern
        steps = []
        if ctx.flag(1, 3):
            p = p.infer_pauli_measurements()
            steps.append("infer")
        if ctx.flag(1, 3):
            p.standardize()
            if ctx.flag(1, 2):
                p.shift_signals()
            steps.append("rewritten")
        if ctx.flag(1, 3) and len(p.input_nodes) == n:
            p = p.infer_pauli_measurements().to_bloch()
            steps.append("bloch")
        if p.n_node > 24:
            raise Discard
        try:
            og = p.to_opengraph()
        except NotImplementedError:
            ctx.log("not standard")
            return
        if og.output_cliffords:
            raise Discard
        if ctx.flag(1, 2):
            og = og.infer_pauli_measurements()
            steps.append("og-infer")
        nxt = og.to_circuit()
        what = f"round trip {k + 1} {steps}"
        ctx.check(nxt.width == n, "interface", lambda: f"{what}: width {nxt.width} for {circuit_repr(c)}")
        got = circuit_matrix(ctx, nxt, what)
        ctx.check(close_up_to_phase(got, u0), "roundtrip",
                  lambda: f"{what}: differs (fidelity {fidelity(got, u0):.6f}): {circuit_repr(c)} -> {circuit_repr(nxt)}; {og_repr(og)}")
        ctx.log(what, circuit_repr(nxt))
        cur = nxt
        if len(cur.instruction) > 12:
            break
    ctx.probe("roundtrip")
    if len(c.instruction) >= 2:
        ctx.nontrivial()


# -- Clifford maps from a reference Pauli propagation

_CONJ = {}


def conj_table():
    """image of X, Y, Z (pairs for two-qubit gates) under each gate, computed from matrices."""
    if _CONJ:
        return _CONJ
    one = {"H": np.array([[1, 1], [1, -1]]) / np.sqrt(2), "S": np.diag([1, 1j]), "X": P2["X"], "Y": P2["Y"], "Z": P2["Z"]}
    for g, u in one.items():
        for a in "IXYZ":
            v = u @ P2[a] @ u.conj().T
            _CONJ[g, a] = next((s, b) for b in "IXYZ" for s in (1, -1) if np.allclose(v, s * P2[b]))
    cx = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], dtype=complex)
    for a in "IXYZ":
        for b in "IXYZ":
            v = cx @ np.kron(P2[a], P2[b]) @ cx.conj().T
            _CONJ["CNOT", a + b] = next((s, c + d) for c in "IXYZ" for d in "IXYZ" for s in (1, -1) if np.allclose(v, s * np.kron(P2[c], P2[d])))
            _CONJ["SWAP", a + b] = (1, b + a)
    return _CONJ


def propagate(gates, n, letters, sign=1):
    t = conj_table()
    letters = list(letters)
    for g in gates:
        if len(g) == 2:
            s, letters[g[1]] = t[g[0], letters[g[1]]]
        else:
            s, (letters[g[1]], letters[g[2]]) = t[g[0], letters[g[1]] + letters[g[2]]]
        sign *= s
    return sign, "".join(letters)


def gate_list(c):
    out = []
    for i in c.instruction:
        k = i.kind.name
        if k in ("H", "S", "X", "Y", "Z"):
            out.append((k, i.target))
        elif k == "CNOT":
            out.append((k, i.control, i.target))
        elif k == "SWAP":
            out.append((k, *i.targets))
        else:
            raise KeyError(k)
    return out


def gens(n):
    for letter in "XZ":
        for q in range(n):
            yield "I" * q + letter + "I" * (n - 1 - q)


def clifford_map(ctx):
    n = ctx.int(1, 5)
    gates = []
    for _ in range(ctx.int(0, 6 * n)):
        k = ctx.pick(["H", "S", "CNOT", "X", "Z", "Y", "SWAP"])
        if k in ("CNOT", "SWAP"):
            if n < 2:
                continue
            gates.append((k, *ctx.shuffle(range(n))[:2]))
        else:
            gates.append((k, ctx.draw(n)))
    img = [propagate(gates, n, g) for g in gens(n)]
    strs = [PauliString.from_str(("+" if s == 1 else "-") + x) for s, x in img]
    ctx.describe(str([str(s) for s in strs]))
    nodes = ctx.shuffle(range(20))
    cm = CliffordMap(tuple(strs[:n]), tuple(strs[n:]), nodes[:n], nodes[5:5 + n])
    key = repr(cm)
    # the synthesis appends to a circuit that already holds gates
    pre = []
    c = Circuit(n)
    for _ in range(ctx.draw(3)):
        q = ctx.draw(n)
        c.h(q)
        pre.append(("H", q))
    cm_berg_pass(cm, c)
    gl = gate_list(c)
    ctx.check(gl[:len(pre)] == pre, "prefix-changed", lambda: f"cm_berg_pass changed the gates already in the circuit: {circuit_repr(c)}")
    for g, (s, x) in zip(gens(n), img):
        gs, gx = propagate(gl[len(pre):], n, g)
        ctx.check((gs, gx) == (s, x), "clifford-synthesis",
                  lambda: f"cm_berg_pass maps {g} to {gs:+d}{gx}, expected {s:+d}{x}: {key} -> {circuit_repr(c)}")
    ctx.check(repr(cm) == key, "source-mutated", "cm_berg_pass changed its Clifford map")
    tab = cm.to_tableau()
    ctx.check(tab.shape == (2 * n, 2 * n + 1), "tableau", lambda: f"shape {tab.shape}")
    for row, (s, x) in zip(np.asarray(tab), img):
        want = [int(a in "XY") for a in x] + [int(a in "YZ") for a in x] + [int(s == -1)]
        ctx.check(list(map(int, row)) == want, "tableau", lambda: f"row of {s:+d}{x} is {list(map(int, row))}")
    ctx.probe("clifford-map")
    if len(gates) >= 2:
        ctx.nontrivial()
    ctx.log(key)


def rand_string(ctx, n):
    axes = {}
    for q in ctx.shuffle(range(n)):
        a = ctx.draw(4)
        if a:
            axes[q] = [Axis.X, Axis.Y, Axis.Z][a - 1]
    return PauliString(n, axes, Sign.MINUS if ctx.flag(1, 2) else Sign.PLUS)


def pexp_dag(ctx):
    """Pauli-exponential DAGs with commuting layers: synthesis equals the product of exponentials in every compatible order."""
    n = ctx.int(1, 4)
    nodes = ctx.shuffle(range(30))
    outs, rest = nodes[:n], nodes[n:]
    layers = [set(outs)]
    exps = {}
    for _ in range(ctx.int(0, 3)):
        lay = set()
        for _ in range(ctx.int(1, 3)):
            ps = rand_string(ctx, n)
            d = dense(ps)
            if all(np.allclose(d @ dense(exps[x].pauli_string), dense(exps[x].pauli_string) @ d) for x in lay):
                v = rest.pop()
                exps[v] = PauliExponential(gen.angle(ctx) / 2, ps)
                lay.add(v)
        layers.append(lay)
    dag = PauliExponentialDAG(exps, layers, outs)
    ctx.describe(repr(dag))
    u = np.eye(2**n, dtype=complex)
    order = drawn_order(ctx, dag)
    for v in order:
        u = pexp_matrix(exps[v]) @ u
    c = Circuit(n)
    if ctx.flag(1, 3):
        cm = CliffordMap(tuple(PauliString(n, {q: Axis.X}) for q in range(n)), tuple(PauliString(n, {q: Axis.Z}) for q in range(n)), rest[:n], outs)
        er = ExtractionResult(dag, cm)
        c = er.to_circuit()
        bad = ExtractionResult(dag, CliffordMap(cm.x_map, cm.z_map, cm.input_nodes, ctx.shuffle(outs)))
        if list(bad.clifford_map.output_nodes) != list(outs):
            ctx.fault("mismatched-outputs")
            try:
                bad.to_circuit()
            except ValueError:
                pass
            else:
                raise Violation("mismatch-accepted", f"extraction result with different output nodes compiled: {bad}")
    else:
        pexp_ladder_pass(dag, c)
    got = circuit_matrix(ctx, c, "pexp_ladder_pass")
    ctx.check(close_up_to_phase(got, u), "pexp-synthesis", lambda: f"synthesis differs (fidelity {fidelity(got, u):.6f}) from the exponentials in order {order}: {dag} -> {circuit_repr(c)}")
    ctx.probe("pexp-dag")
    if len(order) >= 2:
        ctx.nontrivial()
    ctx.log(circuit_repr(c))


def strings(ctx):
    n = ctx.int(0, 6)
    ps = rand_string(ctx, n)
    ctx.describe(str(ps))
    s = str(ps)
    exp = ("-" if ps.sign is Sign.MINUS else "+") + "".join(ps.axes[q].name if q in ps.axes else "I" for q in range(n))
    ctx.check(s == exp, "string", lambda: f"str gives {s}, expected {exp}")
    back = PauliString.from_str(s)
    ctx.check(back == ps, "string", lambda: f"from_str({s!r}) = {back!r}, expected {ps!r}")
    if ps.sign is Sign.PLUS:
        ctx.check(PauliString.from_str(s[1:]) == ps, "string", lambda: f"from_str({s[1:]!r}) differs")
    t = ps.to_tableau()
    want = [int(a in "XY") for a in exp[1:]] + [int(a in "YZ") for a in exp[1:]] + [int(exp[0] == "-")]
    ctx.check(list(map(int, t)) == want, "tableau", lambda: f"{s}.to_tableau() = {list(map(int, t))}, expected {want}")
    b = PauliString.from_tableau(MatGF2(np.array(want, dtype=np.uint8)))
    ctx.check(b == ps, "tableau", lambda: f"from_tableau({want}) = {b!r}, expected {ps!r}")
    # corrupted strings are refused
    if n:
        i = ctx.draw(n) + 1
        ch = ctx.pick(["x", "W", " ", "+", "-", "0"])
        ctx.fault("corrupted-string")
        broken = s[:i] + ch + s[i + 1:]
        try:
            r = PauliString.from_str(broken)
        except ValueError:
            pass
        else:
            raise Violation("bad-string-accepted", f"from_str({broken!r}) = {r!r}")
    ctx.probe("strings")
    if n >= 2:
        ctx.nontrivial()
    ctx.log(s)


def degenerate(ctx):
    """No inputs and outputs, identity wires only, wires permuted."""
    n = ctx.draw(4)
    nodes = ctx.shuffle(range(10))[:n]
    import networkx as nx

    g = nx.Graph()
    g.add_nodes_from(nodes)
    ins, outs = ctx.shuffle(nodes), ctx.shuffle(nodes)
    for i in range(n):
        for j in range(i):
            if ctx.flag(1, 3):
                g.add_edge(nodes[i], nodes[j])
    meas = {}
    if ctx.flag(1, 3):
        v = 50
        g.add_node(v)
        meas[v] = ctx.pick([Measurement.X, Measurement.XY(0)])
        if nodes and ctx.flag(1, 2):
            # measured in the YZ plane next to a wire
            g.add_edge(v, ctx.pick(nodes))
            meas[v] = Measurement.YZ(gen.angle(ctx))
    og = OpenGraph(graph=g, input_nodes=ins, output_nodes=outs, measurements=meas)
    ctx.describe(og_repr(og))
    try:
        c = og.to_circuit()
    except OpenGraphError:
        ctx.check(og.to_pauliflow_or_none() is None, "refused", lambda: f"open graph with Pauli flow refused: {og_repr(og)}")
        return
    exp = flowref.postselected(og)
    got = circuit_matrix(ctx, c, "to_circuit")
    ctx.check(close_up_to_phase(got, exp), "wrong-circuit", lambda: f"extracted circuit differs (fidelity {fidelity(got, exp):.6f}): {circuit_repr(c)}; {og_repr(og)}")
    if n >= 2:
        ctx.nontrivial()
    ctx.log(circuit_repr(c))


SCENARIOS = [("extract", extract, 8), ("isometry", isometry, 4), ("unfocused", unfocused, 2), ("roundtrip", roundtrip, 3), ("clifford-map", clifford_map, 4),
             ("pexp-dag", pexp_dag, 3), ("strings", strings, 1), ("degenerate", degenerate, 1)]
