"""C03: pattern transformations preserve behaviour outcome by outcome."""

from __future__ import annotations

import copy
import itertools

import numpy as np

from dst import flowref, gen, ref
from dst.core import Discard, TooBig, Violation, close_up_to_phase, fidelity
from dst.gx import BasicStates, Pattern, PauliMeasurement, measured_nodes, pattern_key, pattern_repr

from graphix.flow.exceptions import FlowError, XZCorrectionsError
from graphix.opengraph import OpenGraphError
from graphix.optimization import (
    StandardizedPattern, remove_local_clifford_commands, remove_useless_domains, single_qubit_domains, standardize,
)
from graphix.pattern import shift_outcomes
from graphix.remove_pauli_measurements import PauliPushingCut, remove_pauli_measurements
from graphix.space_minimization import SpaceMinimizationHeuristicResult, SpaceMinimizationHeuristics

LEVEL = "exploration"
QUICK_RUNS = 50000
THOROUGH_RUNS = 1500000
REAL = ["graphix.pattern", "graphix.optimization", "graphix.space_minimization", "graphix.remove_pauli_measurements",
        "graphix.flow.core", "graphix.opengraph", "graphix.clifford", "graphix.measurements", "graphix.command"]
STUB = ["outcome histories (scripted)"]
RULE = ("random runnable patterns (arbitrary interleavings, <=7 nodes) and deterministic patterns (circuits, flows), 1-5 random "
        "transformations in sequence, 2-4 outcome histories; non-trivial = at least one measurement and one applied transformation")
ASSUMPTIONS = ["reference semantics in dst/ref.py", "Clifford-before-entanglement and non-|+> preparations may be refused where documented",
               "removal of Pauli measurements from a non-deterministic pattern keeps the 0-branch of the removed nodes"]
REQUIRED_PROBES = ("standardize", "shift_direct", "shift_mc", "minimize_space", "parallelize", "pauli_push", "remove_pauli",
                   "local_clifford", "useless_domains", "single_domains", "infer_pauli", "reindex", "remove_inputs", "xzcorrections",
                   "opengraph", "det-source", "general-source")


class Tracker:
    """A pattern under transformation plus the relation of its behaviour to the source's."""

    def __init__(self, p):
        self.p = p
        self.back = lambda t: t  # outcome history of self.p -> history of the source
        self.exact = True  # False: outcomes are not traceable, compare with any source branch
        self.removed = False  # Pauli nodes were removed (only their 0-branch is kept)
        self.plus_inputs = False
        self.trace = []


def relabel(back, f_inv):
    return lambda t: back({f_inv[k]: v for k, v in t.items()})


def t_standardize(ctx, tr, p):
    k = ctx.draw(3)
    if k == 0:
        p.standardize()
    elif k == 1:
        p = standardize(p)
    else:
        p = StandardizedPattern.from_pattern(p).to_pattern()
    ctx.check(p.is_standard() and p.is_standard(strict=True), "not-standard", lambda: f"standardisation gives {pattern_repr(p)}")
    return p


def t_space_optimal(ctx, tr, p):
    sp = StandardizedPattern.from_pattern(p)
    before = p.max_space()
    m = sp.max_space()
    q = sp.to_space_optimal_pattern()
    ctx.check(measured_nodes(q) == measured_nodes(p), "order", lambda: f"space-optimal pattern changes the order: {pattern_repr(q)}")
    ctx.check(q.max_space() <= before, "space", lambda: f"space-optimal pattern uses {q.max_space()} > {before}: {pattern_repr(p)}")
    ctx.check(q.max_space() == m, "space", lambda: f"StandardizedPattern.max_space {m} but pattern uses {q.max_space()}: {pattern_repr(p)}")
    return q


def t_minimize(ctx, tr, p):
    before = p.max_space()
    k = ctx.draw(5)
    cp = bool(ctx.draw(2))
    hs = [SpaceMinimizationHeuristics.causal_flow, SpaceMinimizationHeuristics.greedy_degree, SpaceMinimizationHeuristics.order_unchanged]
    if k == 0:
        q = p.minimize_space(copy=cp)
    elif k == 1:
        q = p.minimize_space([], copy=cp)
    elif k == 2:
        q = p.minimize_space(ctx.subset(ctx.shuffle(hs)), copy=cp)
    elif k == 3:
        # caller-supplied heuristic: a random order compatible with the declared dependencies
        def user(sp):
            dep = {m.node: set(m.s_domain) | set(m.t_domain) for m in sp.m_list}
            order = []
            while dep:
                v = ctx.pick(sorted(n for n, d in dep.items() if not d & dep.keys()))
                order.append(v)
                del dep[v]
            return SpaceMinimizationHeuristicResult(tuple(order), bool(ctx.draw(2)))

        ctx.probe("user-heuristic")
        q = p.minimize_space([user], copy=cp)
    else:
        q = StandardizedPattern.from_pattern(p).minimize_space().to_space_optimal_pattern()
    if k in (0, 1, 4):
        ctx.check(q.max_space() <= before, "space", lambda: f"minimize_space raises the space from {before} to {q.max_space()}: {pattern_repr(q)}")
    return q


def t_parallelize(ctx, tr, p):
    p.parallelize_pattern()
    return p


def _check_shifted(ctx, p):
    for c in p:
        if c.kind.name == "M":
            pl = flowref.plane_of(c.measurement)
            dom = c.t_domain if pl == "XY" else c.s_domain
            ctx.check(not dom, "signal-left", lambda: f"signal not shifted in {pattern_repr(p)}")


def t_shift_direct(ctx, tr, p):
    sd = p.shift_signals() if ctx.draw(2) else p.shift_signals(method="direct")
    _check_shifted(ctx, p)
    back = tr.back
    sd = {k: set(v) for k, v in sd.items()}
    tr.back = lambda t: back(shift_outcomes(t, sd))
    return p


def t_shift_mc(ctx, tr, p):
    p = p.copy()
    sd = p.shift_signals(method="mc")
    _check_shifted(ctx, p)
    ctx.check(all(c.kind.name != "S" for c in p), "signal-left", lambda: f"S command left in {pattern_repr(p)}")
    back = tr.back
    sd = {k: set(v) for k, v in sd.items()}
    order = measured_nodes(p)

    def inv(t):
        # the dictionary returned by the measurement-calculus method is in terms of the unshifted outcomes
        s = {}
        for n in order:
            s[n] = t[n]
        for n in order:
            s[n] = shift_outcomes({**s}, {n: sd.get(n, set())})[n]
        return s

    tr.back = lambda t: back(inv(t))
    return p


def t_pauli_push(ctx, tr, p):
    p = p.infer_pauli_measurements(copy=True) if ctx.draw(2) else p
    pn = [c.node for c in p if c.kind.name == "M" and isinstance(c.measurement, PauliMeasurement)]
    leave = set(ctx.subset(measured_nodes(p), 1, 3)) if ctx.flag(1, 2) else None
    sp = StandardizedPattern.from_pattern(p)
    cut = PauliPushingCut.from_standardizedpattern(sp, leave)
    k = ctx.draw(4)
    if k == 0:
        q = p.perform_pauli_pushing(leave_nodes=leave, copy=True)
    elif k == 1:
        q = p.perform_pauli_pushing(leave_nodes=leave, copy=False, standardize=True)
    elif k == 2:
        q = sp.perform_pauli_pushing(leave).to_pattern()
    else:
        q = cut.to_standardizedpattern().to_pattern()
    stay = set(leave or ())
    seen_other = False
    for c in q:
        if c.kind.name != "M":
            continue
        if isinstance(c.measurement, PauliMeasurement) and c.node not in stay:
            ctx.check(not seen_other and not c.s_domain and not c.t_domain, "pauli-not-pushed", lambda: f"Pauli measurement of {c.node} not pushed: {pattern_repr(q)}")
        else:
            seen_other = True
    sd = {n: set(d) for n, d in cut.shifted_domains.items()}
    back = tr.back
    tr.back = lambda t: back(shift_outcomes(t, sd))
    if pn:
        ctx.probe("pauli-pushed")
    return q


def t_remove_pauli(ctx, tr, p):
    p = p.infer_pauli_measurements(copy=True) if ctx.draw(2) else p
    before = [c.node for c in p if c.kind.name == "M"]
    k = ctx.draw(4)
    if k == 0:
        q = p.remove_pauli_measurements(copy=True)
    elif k == 1:
        q = p.remove_pauli_measurements(copy=False, standardize=True)
    elif k == 2:
        q = p.remove_pauli_measurements(copy=True, standardize=True)
    else:
        q = remove_pauli_measurements(PauliPushingCut.from_standardizedpattern(StandardizedPattern.from_pattern(p))).to_pattern()
    prep = {c.node for c in q if c.kind.name == "N" and c.state == BasicStates.PLUS}
    for c in q:
        if c.kind.name == "M" and isinstance(c.measurement, PauliMeasurement) and c.node in prep:
            ctx.check(not tr.det and c.measurement.axis.name == "X", "pauli-not-removed",
                      lambda: f"Pauli measurement of {c.node} left: {pattern_repr(q)}")
    after = [c.node for c in q if c.kind.name == "M"]
    if len(after) < len(before):
        ctx.probe("pauli-removed")
        tr.removed = True
    tr.exact = False
    return q


def t_local_clifford(ctx, tr, p):
    if any(c.kind.name == "C" for c in p):
        ctx.probe("clifford-removed")
        tr.exact = False
    k = ctx.draw(3)
    if k == 0:
        q = p.remove_local_clifford_commands(copy=True)
    elif k == 1:
        q = p.remove_local_clifford_commands()
    else:
        q = remove_local_clifford_commands(p)
    ctx.check(all(c.kind.name != "C" for c in q), "clifford-left", lambda: f"C command left: {pattern_repr(q)}")
    return q


def t_useless(ctx, tr, p):
    return remove_useless_domains(p)


def t_single(ctx, tr, p):
    q = single_qubit_domains(p)
    for c in q:
        if c.kind.name == "M":
            ctx.check(len(c.s_domain) <= 1 and len(c.t_domain) <= 1, "domain-size", lambda: f"domain too large: {pattern_repr(q)}")
        elif c.kind.name in "XZ":
            ctx.check(len(c.domain) <= 1, "domain-size", lambda: f"domain too large: {pattern_repr(q)}")
    return q


def t_infer(ctx, tr, p):
    q = p.infer_pauli_measurements(copy=bool(ctx.draw(2)))
    for c in q:
        if c.kind.name == "M" and hasattr(c.measurement, "plane") and isinstance(c.measurement.angle, (int, float)):
            a = float(c.measurement.angle) * 2
            ctx.check(a != round(a), "pauli-not-inferred", lambda: f"{c.measurement} not inferred: {pattern_repr(q)}")
    return q


def t_bloch(ctx, tr, p):
    q = p.to_bloch() if ctx.draw(2) else p.blochify(copy=bool(ctx.draw(2)))
    ctx.check(all(hasattr(c.measurement, "plane") for c in q if c.kind.name == "M"), "pauli-left", lambda: f"Pauli measurement left: {pattern_repr(q)}")
    return q


def t_reindex(ctx, tr, p):
    nodes = sorted(p.nodes())
    k = ctx.draw(4)
    if k == 0:
        mp = None
        full = p.node_mapping()
    elif k == 1:
        perm = ctx.shuffle(nodes)
        full = dict(zip(nodes, perm))
        mp = full
    elif k == 2:
        tgt = ctx.shuffle(list(range(2 * len(nodes) + 3)))[: len(nodes)]
        full = dict(zip(nodes, tgt))
        mp = full.__getitem__ if ctx.draw(2) else full
    else:
        keep = set(ctx.subset(nodes, 1, 3))
        init = {}
        for n in ctx.subset([n for n in nodes if n not in keep], 1, 3):
            v = 100 + n
            while v in nodes or v in init.values():
                v += 100
            init[n] = v
        avoid = ctx.subset(list(range(12)), 1, 3)
        start = ctx.draw(5)
        mp = p.node_mapping(init, start=start, avoids=avoid, preserves=keep)
        ctx.check(all(mp[n] == v for n, v in init.items()) and not keep & mp.keys() and set(mp) | keep == set(nodes), "node-mapping",
                  lambda: f"node_mapping({init}, start={start}, avoids={avoid}, preserves={keep}) = {mp}")
        fresh = [mp[n] for n in mp if n not in init]
        full = {n: mp.get(n, n) for n in nodes}
        ctx.check(len(set(full.values())) == len(nodes) and not set(fresh) & set(avoid) and all(v >= start for v in fresh), "node-mapping",
                  lambda: f"node_mapping({init}, start={start}, avoids={avoid}, preserves={keep}) = {mp}")
    ins, outs = p.input_nodes, p.output_nodes
    q = p.reindex(mp, copy=bool(ctx.draw(2)))
    ctx.check(q.input_nodes == [full[n] for n in ins] and q.output_nodes == [full[n] for n in outs], "interface", lambda: f"reindex({full}): {pattern_repr(q)}")
    inv = {v: k for k, v in full.items()}
    tr.back = relabel(tr.back, inv)
    return q


def t_remove_inputs(ctx, tr, p):
    p.remove_input_nodes()
    ctx.check(p.input_nodes == [], "interface", "inputs left")
    tr.plus_inputs = True
    return p


def t_xz(ctx, tr, p):
    k = ctx.draw(2)
    xz = p.to_xzcorrections() if k else StandardizedPattern.from_pattern(p).to_xzcorrections()
    xz.check_well_formed()
    order = flowref.random_layer_order(ctx, xz.og, xz.partial_order_layers) if ctx.draw(2) else None
    return xz.to_pattern(order)


def t_opengraph(ctx, tr, p):
    if not tr.det:
        p.to_opengraph()
        raise Discard
    return p.to_opengraph().to_pattern()


def t_flow(ctx, tr, p):
    if not tr.det:
        raise Discard
    k = ctx.draw(3)
    if k == 0:
        f = p.to_pauliflow()
    elif k == 1:
        f = p.to_bloch().to_gflow()
    else:
        f = p.to_bloch().to_causalflow()
    ctx.probe("flow-conversion")
    return f.to_xzcorrections().to_pattern()


def t_copy(ctx, tr, p):
    return p.copy()


def t_reorder(ctx, tr, p):
    if not p.output_nodes:
        raise Discard
    outs = p.output_nodes
    p.reorder_output_nodes(ctx.shuffle(outs))
    p.reorder_output_nodes(outs)
    return p


TRANSFORMS = [
    ("standardize", t_standardize, 5), ("space_optimal", t_space_optimal, 3), ("minimize_space", t_minimize, 4), ("parallelize", t_parallelize, 3),
    ("shift_direct", t_shift_direct, 4), ("shift_mc", t_shift_mc, 3), ("pauli_push", t_pauli_push, 4), ("remove_pauli", t_remove_pauli, 5),
    ("local_clifford", t_local_clifford, 3), ("useless_domains", t_useless, 3), ("single_domains", t_single, 2), ("infer_pauli", t_infer, 2),
    ("blochify", t_bloch, 1), ("reindex", t_reindex, 3), ("remove_inputs", t_remove_inputs, 1), ("xzcorrections", t_xz, 3),
    ("opengraph", t_opengraph, 2), ("flow", t_flow, 2), ("copy", t_copy, 1), ("reorder", t_reorder, 1),
]
FN = {n: f for n, f, _ in TRANSFORMS}


def clifford_before_e(p):
    """Some CZ acts on a node whose accumulated Clifford does not commute with it up to Pauli operators.

    A diagonal Clifford commutes with CZ, an anti-diagonal one up to a Z on the other node; only the rest may be refused.
    """
    acc = {}
    for cmd in p:
        k = cmd.kind.name
        if k == "C":
            acc[cmd.node] = np.asarray(cmd.clifford.matrix) @ acc.get(cmd.node, np.eye(2))
        elif k == "M":
            acc.pop(cmd.node, None)
        elif k == "E":
            anti = []
            for n, other in (cmd.nodes, cmd.nodes[::-1]):
                u = acc.get(n)
                if u is None or abs(u[0, 1]) + abs(u[1, 0]) < 1e-9:
                    continue
                if abs(u[0, 0]) + abs(u[1, 1]) > 1e-9:
                    return True
                anti.append(other)
            for n in anti:
                acc[n] = np.diag([1, -1]) @ acc.get(n, np.eye(2))
    return False


def refusal_ok(name, exc, p, det, bloched):
    """Documented refusals."""
    if isinstance(exc, NotImplementedError):
        return clifford_before_e(p)
    nonplus = any(c.kind.name == "N" and c.state != BasicStates.PLUS for c in p)
    if isinstance(exc, ValueError) and name in ("xzcorrections", "opengraph", "flow"):
        return nonplus
    if isinstance(exc, OpenGraphError) and name == "opengraph":
        return not det or bloched
    if isinstance(exc, FlowError) and name == "flow":
        return True
    return False


def source(ctx):
    """(pattern, det flag)."""
    k = ctx.draw(4)
    if k <= 1:
        p = gen.general_pattern(ctx, pauli_bias=ctx.flag(1, 2), states=ctx.flag(1, 3), cliffords=ctx.flag(2, 3), e_after_c=ctx.flag(1, 3))
        ctx.probe("general-source")
        return p, False
    if k == 2:
        c = gen.circuit(ctx, max_width=3, max_depth=6, ccx=False, generic=ctx.flag(1, 2))
        ctx.probe("det-source")
        return c.transpile().pattern, True
    og = gen.flow_open_graph(ctx, max_nodes=8, out_cliffords=True, generic=ctx.flag(1, 2))
    try:
        p = og.to_pattern()
    except OpenGraphError:
        raise Discard from None
    ctx.probe("det-source")
    return p, True


def kraus(p, hist):
    try:
        got, _ = ref.pattern_kraus(p, ref.scripted(hist))
    except ref.RefError as e:
        raise Violation("not-runnable", f"{e}: {pattern_repr(p)}") from None
    return got


def with_plus(k, nin):
    if nin == 0:
        return k
    v = np.ones(2**nin) / np.sqrt(2**nin)
    return (k.reshape(-1, 2**nin) @ v).reshape(k.shape[: k.ndim - nin])


def rewriting(ctx):
    src, det = source(ctx)
    srcrep = pattern_repr(src)
    tr = Tracker(src.copy() if ctx.draw(2) else copy.deepcopy(src))
    tr.det = det
    src = copy.deepcopy(src)
    nops = ctx.int(1, 5)
    applied = []
    ctx.describe(srcrep)
    for _ in range(nops):
        name = ctx.weighted([(n, w) for n, _, w in TRANSFORMS])
        p = tr.p
        saved = (tr.back, tr.exact, tr.removed, tr.plus_inputs)
        before = copy.deepcopy(p)
        try:
            q = FN[name](ctx, tr, p)
        except Discard:
            tr.p = before
            tr.back, tr.exact, tr.removed, tr.plus_inputs = saved
            continue
        except (NotImplementedError, ValueError, FlowError, OpenGraphError, XZCorrectionsError, TypeError) as e:
            if not refusal_ok(name, e, before, det, 'blochify' in applied):
                raise
            ctx.probe("refused-" + name)
            ctx.fault("refused-transformation")
            tr.p = before
            tr.back, tr.exact, tr.removed, tr.plus_inputs = saved
            continue
        ctx.probe(name)
        applied.append(name)
        ctx.describe(f"{'; '.join(applied)} on {srcrep}")
        tr.p = q
        try:
            q.check_runnability()
        except Exception as e:
            raise Violation("not-runnable", f"{name}: {e!r}: {pattern_repr(q)} from {pattern_repr(before)}") from None
        ctx.check(len(q.output_nodes) == len(src.output_nodes), "interface", lambda: f"{name} changes the outputs: {pattern_repr(q)} from {pattern_repr(before)}")
        nin = 0 if tr.plus_inputs else len(src.input_nodes)
        ctx.check(len(q.input_nodes) == nin, "interface", lambda: f"{name} changes the inputs: {pattern_repr(q)} from {pattern_repr(before)}")
    ctx.log(srcrep, applied)
    ctx.sched(*applied)
    if not applied:
        return
    mn = measured_nodes(src)
    if mn:
        ctx.nontrivial()
    compare(ctx, src, tr, det, f"{'; '.join(applied)} on {srcrep}")


def compare(ctx, src, tr, det, what):
    q = tr.p
    mn, mq = measured_nodes(src), measured_nodes(q)
    nin = len(src.input_nodes)

    def old(h):
        k = kraus(src, h)
        return with_plus(k, nin) if tr.plus_inputs else k

    base = None
    allold = None
    for _ in range(ctx.int(2, 4)):
        t = gen.outcomes(ctx, mq)
        new = kraus(q, t)
        nn = np.linalg.norm(new)
        if det:
            if base is None:
                base = old({n: 0 for n in mn}) * 2 ** (len(mn) / 2)
            e, ne = base, np.linalg.norm(base)
            ctx.check(abs(nn * 2 ** (len(mq) / 2) - ne) < 1e-6 * max(1, ne), "distribution",
                      lambda: f"branch {t} has weight {nn**2:.6g}, expected {ne**2/2**len(mq):.6g}: {what} -> {pattern_repr(q)}")
            ctx.check(close_up_to_phase(new, e), "wrong-map", lambda: f"branch {t}: fidelity {fidelity(new, e):.6f}: {what} -> {pattern_repr(q)}")
        if tr.exact:
            s = tr.back(t)
            ctx.check(set(s) == set(mn), "outcomes-lost", lambda: f"outcomes {s} do not cover {mn}: {what}")
            e = old(s)
            ne = np.linalg.norm(e)
            ctx.check(abs(nn - ne) < 1e-6, "distribution", lambda: f"branch {t} has weight {nn**2:.6g}, source branch {s} has {ne**2:.6g}: {what} -> {pattern_repr(q)}")
            if ne > 1e-5:
                ctx.check(close_up_to_phase(new, e), "wrong-branch", lambda: f"branch {t} differs from source branch {s} (fidelity {fidelity(new, e):.6f}): {what} -> {pattern_repr(q)}")
        elif not det and nn > 1e-5:
            if len(mn) > 6:
                continue
            if allold is None:
                allold = []
                for bits in itertools.product((0, 1), repeat=len(mn)):
                    k = old(dict(zip(mn, bits)))
                    nk = np.linalg.norm(k)
                    if nk > 1e-7:
                        allold.append(k)
            ctx.probe("matched-any-branch")
            ctx.check(any(close_up_to_phase(new, k) for k in allold), "wrong-branch", lambda: f"branch {t} matches no source branch: {what} -> {pattern_repr(q)}")


def signals_both_ways(ctx):
    """shift_outcomes translates outcomes between the shifted and the unshifted pattern, in both directions."""
    src = gen.general_pattern(ctx, cliffords=False, states=False, max_nodes=6)
    method = ctx.pick(["direct", "mc"])
    p = copy.deepcopy(src)
    sd = p.shift_signals(method=method)
    mn = measured_nodes(src)
    if not any(sd.values()):
        raise Discard
    ctx.nontrivial()
    ctx.describe(f"shift_signals({method}) on {pattern_repr(src)}")
    ctx.log(method, pattern_repr(src))
    t = gen.outcomes(ctx, mn)
    chained = any(sd.get(i) for d in sd.values() for i in d)
    new = kraus(p, t)
    nn = np.linalg.norm(new)
    # the direction each method's signals are expressed for comes first; the other one fails for chained signals (known)
    for direction in (("to-unshifted", "to-shifted") if method == "direct" else ("to-shifted", "to-unshifted")):
        if direction == "to-unshifted":
            s = shift_outcomes(t, sd)
        else:
            # the history s of the source whose translation is t
            s = _solve(mn, sd, t)
            if s is None:
                continue
        e = kraus(src, s)
        ne = np.linalg.norm(e)
        sig = f"{method}:{direction}:{'chained' if chained else 'flat'}"
        ctx.check(abs(nn - ne) < 1e-6 and (ne < 1e-5 or close_up_to_phase(new, e)), "signal-relabelling",
                  lambda: f"{sig}: shifted branch {t}, source branch {s} differ: signals {sd}; {pattern_repr(src)}", signature=sig)


def _solve(mn, sd, t):
    """s with shift_outcomes(s, sd) == t (signals refer to earlier measurements)."""
    s = {}
    for n in mn:
        s[n] = t[n] ^ (sum(s[i] for i in sd.get(n, ())) % 2)
    return s if shift_outcomes(s, sd) == t else None


SCENARIOS = [("rewriting", rewriting, 14), ("signals_both_ways", signals_both_ways, 2)]
