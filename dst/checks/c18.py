"""C18: flow finding is exact: a flow is found exactly when one exists."""

from __future__ import annotations

import networkx as nx

from dst import flowref, gen
from dst.core import Discard
from dst.gx import Axis, Measurement, OpenGraph, Plane, og_repr

from graphix.flow.exceptions import FlowError
from graphix.opengraph import OpenGraphError

LEVEL = "exploration"
QUICK_RUNS = 60000
THOROUGH_RUNS = 1500000
REAL = ["graphix.opengraph", "graphix.flow._find_cflow", "graphix.flow._find_gpflow", "graphix.flow._partial_order", "graphix._linalg (uncompiled source)"]
STUB = ["the asynchronous measurement schedule (played backwards by dst/checks/c18.py)"]
RULE = ("random open graphs of 2-13 nodes over all measurement labels, with up to 11 more outputs than inputs, plus graphs grown from their outputs "
        "by flow-preserving steps; the reference plays the maximally delayed measurement schedule backwards and decides at each step, by elimination "
        "over GF(2), which nodes can be corrected by what is still unmeasured; non-trivial = at least one measured node and one edge")
ASSUMPTIONS = ["greedy maximal delay is complete for causal, generalised and Pauli flow (Mhalla-Perdrix 2008, Backens et al. 2021, Simmons 2021)",
               "graphs of at most 13 nodes"]
REQUIRED_PROBES = ("causal-yes", "causal-no", "gflow-yes", "gflow-no", "pauli-yes", "pauli-no", "more-outputs", "equal", "pauli-only")


def solvable(cols, rhs):
    """Some sum of the columns (bit masks) equals rhs."""
    basis = {}
    for c in cols:
        while c:
            h = c.bit_length()
            if h in basis:
                c ^= basis[h]
            else:
                basis[h] = c
                break
    while rhs:
        h = rhs.bit_length()
        if h not in basis:
            return False
        rhs ^= basis[h]
    return True


def correctable(u, todo, solved, nodes, ins, adj, lab):
    """u can be measured before every node of `solved` and simultaneously with or after no node of `todo`."""
    cand = [v for v in nodes if v not in ins and v != u and (v in solved or lab[v] in ("X", "Y"))]
    others = [v for v in todo if v != u]

    def rows(k):
        m = 1 if u in adj[k] else 0
        for i, v in enumerate(others):
            if lab[v] == "Z":
                continue
            b = k in adj[v]
            if lab[v] == "Y":
                b = b != (k == v)
            if b:
                m |= 2 << i
        return m

    cols = [rows(k) for k in cand]
    # (u in the correction set, parity of the correction set around u)
    opts = {"XY": [(0, 1)], "XZ": [(1, 1)], "YZ": [(1, 0)], "X": [(0, 1), (1, 1)], "Z": [(1, 0), (1, 1)], "Y": [(0, 1), (1, 0)]}[lab[u]]
    for a, b in opts:
        if a and u in ins:
            continue
        if solvable(cols, b ^ (rows(u) if a else 0)):
            return True
    return False


def depth(og, lab):
    """Number of measurement rounds of the maximally delayed schedule, None when the schedule gets stuck."""
    adj = flowref.adjacency(og)
    ins, solved = set(og.input_nodes), set(og.output_nodes)
    nodes = sorted(og.graph.nodes)
    todo = [n for n in nodes if n not in solved]
    rounds = 0
    while todo:
        new = [u for u in todo if correctable(u, todo, solved, nodes, ins, adj, lab)]
        if not new:
            return None
        rounds += 1
        solved |= set(new)
        todo = [n for n in todo if n not in solved]
    return rounds


def causal_depth(og):
    """The same for causal flow: a solved node with exactly one unsolved neighbour corrects that neighbour."""
    adj = flowref.adjacency(og)
    solved = set(og.output_nodes)
    free = solved - set(og.input_nodes)
    todo = set(og.graph.nodes) - solved
    rounds = 0
    while todo:
        new, used = set(), set()
        for v in sorted(free):
            near = [w for w in adj[v] if w in todo]
            if len(near) == 1 and near[0] not in new:
                new.add(near[0])
                used.add(v)
        if not new:
            return None
        rounds += 1
        todo -= new
        free = (free - used) | (new - set(og.input_nodes))
    return rounds


def wide_graph(ctx):
    n = ctx.int(2, 13)
    g = nx.Graph()
    nodes = list(range(n))
    if ctx.flag(1, 3):
        nodes = ctx.shuffle(list(range(2 * n)))[:n]
    g.add_nodes_from(ctx.shuffle(nodes) if ctx.flag(1, 2) else nodes)
    dens = ctx.int(1, 6)
    for i in range(n):
        for j in range(i):
            if ctx.flag(dens, 10):
                g.add_edge(nodes[i], nodes[j])
    nin = ctx.int(0, min(3, n))
    nout = ctx.int(max(0, nin - 1), n - 1 if nin < n else n)
    if ctx.flag(1, 3):
        nout = min(nin, n)
    ins = ctx.shuffle(nodes)[:nin]
    outs = ctx.shuffle(nodes)[:nout]
    mode = ctx.weighted([("xy", 3), ("planar", 3), ("pauli", 2), ("mixed", 3), ("yz", 1), ("xz", 1)])
    meas = {}
    for v in nodes:
        if v in outs:
            continue
        k = mode
        if k == "mixed":
            k = ctx.pick(["planar", "pauli"])
        elif k in ("yz", "xz"):
            k = k if ctx.flag(2, 3) else "xy"
        if k == "xy":
            m = Measurement.XY(gen.angle(ctx))
        elif k == "planar":
            m = gen.measurement(ctx, planar_only=True)
        elif k == "yz":
            m = Measurement.YZ(gen.angle(ctx))
        elif k == "xz":
            m = Measurement.XZ(gen.angle(ctx))
        else:
            m = gen.pauli(ctx)
        meas[v] = m
    return OpenGraph(g, ins, outs, meas)


def grown(ctx):
    """A graph that has Pauli flow by construction, then possibly damaged."""
    og = gen.flow_open_graph(ctx, max_nodes=12)
    damaged = False
    if ctx.flag(1, 3):
        g = og.graph.copy()
        nodes = sorted(g.nodes)
        if len(nodes) >= 2:
            a, b = ctx.shuffle(nodes)[:2]
            if g.has_edge(a, b):
                g.remove_edge(a, b)
            else:
                g.add_edge(a, b)
            ctx.fault("graph-damaged")
            damaged = True
            og = OpenGraph(g, og.input_nodes, og.output_nodes, og.measurements)
    return og, damaged


def verdict(ctx, og, kind, exp, find, find_or_none, what):
    f = find_or_none()
    ctx.log(kind, "none" if f is None else str(sorted((k, sorted(v)) for k, v in f.correction_function.items())), str(exp))
    ctx.probe(f"{kind}-{'yes' if exp is not None else 'no'}")
    if exp is None:
        ctx.check(f is None, "nonexistent-flow-found", lambda: f"{kind} flow found although none exists: {dict(f.correction_function)}, {f.partial_order_layers}: {what}")
    else:
        ctx.check(f is not None, "existing-flow-missed", lambda: f"{kind} flow exists but is not found: {what}")
        bad = flowref.flow_problem(og, kind, f.correction_function, f.partial_order_layers)
        ctx.check(bad is None, "invalid-flow", lambda: f"{kind} flow found violates {bad}: {dict(f.correction_function)}, {f.partial_order_layers}: {what}")
        rounds = len(f.partial_order_layers) - (1 if og.output_nodes else 0)
        ctx.check(rounds == exp, "not-maximally-delayed", lambda: f"{kind} flow has {rounds} measurement rounds, {exp} suffice: {dict(f.correction_function)}, {f.partial_order_layers}: {what}")
    # the raising variant agrees
    try:
        g = find()
    except (OpenGraphError, FlowError):
        g = None
    ctx.check((g is None) == (f is None), "variants-disagree", lambda: f"the raising and the optional {kind} flow finders disagree: {what}")
    if g is not None:
        ctx.check(dict(g.correction_function) == dict(f.correction_function) and tuple(g.partial_order_layers) == tuple(f.partial_order_layers), "variants-disagree",
                  lambda: f"the raising and the optional {kind} flow finders return different flows: {what}")


def search(ctx):
    if ctx.flag(1, 3):
        og, damaged = grown(ctx)
        constructed = not damaged
    else:
        og, constructed = wide_graph(ctx), False
    what = og_repr(og)
    ctx.describe(what)
    if og.graph.number_of_edges() and og.measurements:
        ctx.nontrivial()
    if len(og.output_nodes) > len(og.input_nodes):
        ctx.probe("more-outputs")
    elif len(og.output_nodes) == len(og.input_nodes):
        ctx.probe("equal")
    ctx.step(len(og.measurements))
    ctx.sched(what)
    lab = {v: flowref.label(m) for v, m in og.measurements.items()}
    d = depth(og, lab)
    if constructed:
        ctx.check(d is not None, "harness-construction", lambda: f"the constructed graph has no flow: {what}")
    verdict(ctx, og, "pauli", d, og.to_pauliflow, og.to_pauliflow_or_none, what)
    b = og.to_bloch()
    labb = {v: flowref.plane_of(m) for v, m in b.measurements.items()}
    dg = depth(b, labb)
    if d is not None and dg is None:
        ctx.probe("pauli-only")
    verdict(ctx, b, "gflow", dg, b.to_gflow, b.to_gflow_or_none, what)
    dc = causal_depth(b) if all(x == "XY" for x in labb.values()) else None
    verdict(ctx, b, "causal", dc, b.to_causalflow, b.to_causalflow_or_none, what)


SCENARIOS = [("search", search, 1)]
