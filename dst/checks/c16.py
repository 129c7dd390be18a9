"""C16: the graph-state simulator tracks the true state through any history."""

from __future__ import annotations

import numpy as np

from dst import ref
from dst.core import close_up_to_phase, fidelity
from dst.gx import CLIFFORDS, Clifford

from graphix.graphsim import GraphState

LEVEL = "exploration"
QUICK_RUNS = 50000
THOROUGH_RUNS = 1500000
REAL = ["graphix.graphsim.GraphState", "graphix.clifford", "graphix.sim.statevec (GraphState.to_statevector)"]
STUB = ["measurement outcomes (chosen by the simulator)"]
RULE = ("random graphs of 1-7 nodes with decorations; 1-30 operations each: h, s, z, arbitrary local Cliffords through apply_vops, new nodes, "
        "edges between solid nodes, X/Y/Z measurements with any choice, E1, E2, node filling, vop export/import, copies, refused calls; the "
        "state is compared with a reference state vector after every operation; non-trivial = at least one edge and three operations")
ASSUMPTIONS = ["dst/ref.py state-vector semantics", "graphs of at most 7 nodes"]
REQUIRED_PROBES = ("measure-x", "measure-y", "measure-z", "forced-outcome", "e1", "e2", "fill", "vops", "reimport", "refused", "isolated")

H = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
S = np.diag([1, 1j])
Z = np.diag([1, -1])
BASIS = {"x": [np.array([1, 1]) / np.sqrt(2), np.array([1, -1]) / np.sqrt(2)],
         "y": [np.array([1, 1j]) / np.sqrt(2), np.array([1, -1j]) / np.sqrt(2)],
         "z": [np.array([1, 0]), np.array([0, 1])]}


class Model:
    """Plain state vector over labelled nodes."""

    def __init__(self, nodes, edges):
        self.nodes = list(nodes)
        self.psi = np.ones((2,) * len(self.nodes), dtype=complex)
        for a, b in edges:
            self.cz(a, b)

    def copy(self):
        m = Model.__new__(Model)
        m.nodes, m.psi = list(self.nodes), self.psi.copy()
        return m

    def cz(self, a, b):
        self.psi = ref.apply_cz(self.psi, self.nodes.index(a), self.nodes.index(b))

    def gate(self, u, n):
        self.psi = ref.apply1(self.psi, u, self.nodes.index(n))

    def add(self, n):
        self.nodes.append(n)
        self.psi = np.stack([self.psi, self.psi], axis=-1)

    def project(self, basis, n, r):
        v = BASIS[basis][r]
        return np.tensordot(v.conj(), self.psi, axes=(0, self.nodes.index(n)))

    def p(self, basis, n, r):
        return float(np.linalg.norm(self.project(basis, n, r)) ** 2 / np.linalg.norm(self.psi) ** 2)

    def measure(self, basis, n, r):
        self.psi = self.project(basis, n, r)
        self.psi = self.psi / np.linalg.norm(self.psi)
        self.nodes.remove(n)

    def vec(self, order):
        return np.transpose(self.psi, [self.nodes.index(n) for n in order]).reshape(-1) if self.nodes else self.psi.reshape(-1)


def represented(gs):
    """State denoted by graph and vertex decorations: CZ on edges, then sign (Z), loop (S), hollow (H)."""
    m = Model(list(gs.nodes), list(gs.edges))
    for n in gs.nodes:
        if gs.nodes[n]["sign"]:
            m.gate(Z, n)
        if gs.nodes[n]["loop"]:
            m.gate(S, n)
        if gs.nodes[n]["hollow"]:
            m.gate(H, n)
    return m.vec(list(gs.nodes))


def snapshot(gs):
    return ({n: dict(gs.nodes[n]) for n in gs.nodes}, sorted(tuple(sorted(e)) for e in gs.edges), list(gs.nodes))


def compare(ctx, gs, m, hist, klass, full):
    ctx.check(set(gs.nodes) == set(m.nodes), "nodes", lambda: f"nodes {sorted(gs.nodes)} instead of {sorted(m.nodes)} after {hist}")
    order = list(gs.nodes)
    exp = m.vec(order)
    got = represented(gs)
    ctx.check(close_up_to_phase(got, exp), klass, lambda: f"represented state wrong after {hist}: fidelity {fidelity(got, exp):.6f}")
    if full and order:
        sv = np.asarray(gs.to_statevector().flatten()).reshape(-1)
        ctx.check(close_up_to_phase(sv, exp), "to-statevector", lambda: f"to_statevector() wrong after {hist}: fidelity {fidelity(sv, exp):.6f}")


def refused(ctx, gs, hist):
    """An operation whose precondition fails is refused and changes nothing."""
    nodes = list(gs.nodes)
    if not nodes:
        return
    before = snapshot(gs)
    n = ctx.pick(nodes)
    k = ctx.draw(4)
    if k == 0:
        what, f = f"measure with choice 2 on {n}", lambda: ctx_pick(gs, n)(n, choice=2)
        b = ctx.pick("xyz")

        def ctx_pick(g, _n):
            return getattr(g, "measure_" + b)
    elif k == 1:
        if gs.nodes[n]["loop"]:
            return
        what, f = f"equivalent_graph_e1({n}) without loop", lambda: gs.equivalent_graph_e1(n)
    elif k == 2:
        far = [v for v in nodes if v != n and not gs.has_edge(n, v)]
        if not far:
            return
        v = ctx.pick(far)
        what, f = f"equivalent_graph_e2({n}, {v}) without edge", lambda: gs.equivalent_graph_e2(n, v)
    else:
        near = [v for v in nodes if gs.has_edge(n, v) and (gs.nodes[n]["loop"] or gs.nodes[v]["loop"])]
        if not near:
            return
        v = ctx.pick(near)
        what, f = f"equivalent_graph_e2({n}, {v}) with loop", lambda: gs.equivalent_graph_e2(n, v)
    ctx.fault("refused-call")
    try:
        f()
    except ValueError:
        ctx.probe("refused")
    else:
        ctx.check(False, "not-refused", f"{what} is accepted after {hist}")
    ctx.check(snapshot(gs) == before, "refused-changes", lambda: f"refused {what} changed the graph state after {hist}")


def history(ctx):
    n = ctx.int(1, 7)
    labels = list(range(n))
    if ctx.flag(1, 3):
        labels = ctx.shuffle(list(range(20)))[:n]
    dens = ctx.int(0, 4)
    edges = [(labels[i], labels[j]) for i in range(n) for j in range(i) if ctx.flag(dens, 5)]
    edges = ctx.shuffle(edges)
    vops = None
    if ctx.flag(1, 4):
        vops = {v: ctx.pick(CLIFFORDS) for v in ctx.subset(labels)}
        ctx.probe("vops")
    gs = GraphState(nodes=list(labels), edges=list(edges), vops=dict(vops) if vops else None)
    m = Model(labels, edges)
    hist = [f"GraphState({labels}, {edges}, vops={vops})"]
    for v, c in (vops or {}).items():
        m.gate(ref.clifford_matrix(c), v)
    compare(ctx, gs, m, hist, "construction", True)
    nxt = 100
    kept = []
    nops = ctx.int(1, 30)
    done = 0
    for _ in range(nops):
        nodes = list(gs.nodes)
        if not nodes:
            break
        opts = [("gate", 10), ("vop", 2), ("measure", 4), ("fill", 3)]
        loops = [v for v in nodes if gs.nodes[v]["loop"]]
        if loops:
            opts.append(("e1", 5))
        e2 = [(a, b) for a in nodes for b in nodes if a != b and gs.has_edge(a, b) and not gs.nodes[a]["loop"] and not gs.nodes[b]["loop"]]
        if e2:
            opts.append(("e2", 5))
        solid = [v for v in nodes if not gs.nodes[v]["hollow"]]
        if len(solid) >= 2:
            opts.append(("edge", 2))
        if len(nodes) < 7:
            opts.append(("node", 1))
        opts += [("reimport", 1), ("copy", 1), ("refused", 2)]
        k = ctx.weighted(opts)
        klass = k
        if k == "gate":
            g, v = ctx.pick("hsz"), ctx.pick(nodes)
            getattr(gs, g)(v)
            m.gate({"h": H, "s": S, "z": Z}[g], v)
            hist.append(f"{g}({v})")
            klass = f"gate-{g}"
        elif k == "vop":
            d = {v: ctx.pick(CLIFFORDS) for v in ctx.subset(nodes, 1, 3)}
            gs.apply_vops(d)
            for v, c in d.items():
                m.gate(ref.clifford_matrix(c), v)
            hist.append(f"apply_vops({d})")
            ctx.probe("vops")
        elif k == "measure":
            b, v, c = ctx.pick("xyz"), ctx.pick(nodes), ctx.draw(2)
            p = [m.p(b, v, 0), m.p(b, v, 1)]
            if c:
                ctx.fault("adverse-outcome")
            if not list(gs.neighbors(v)):
                ctx.probe("isolated")
            r = getattr(gs, "measure_" + b)(v, choice=c)
            hist.append(f"measure_{b}({v}, choice={c}) -> {r}")
            ctx.probe("measure-" + b)
            ctx.check(r in (0, 1) and p[int(r)] > 1e-6, "impossible-outcome", lambda: f"{hist[-1]} reports an outcome of probability zero after {hist[:-1]}")
            if p[c] > 1e-6:
                ctx.check(r == c, "choice-ignored", lambda: f"{hist[-1]} although the chosen outcome is possible, after {hist[:-1]}")
            else:
                ctx.probe("forced-outcome")
            m.measure(b, v, int(r))
            klass = f"measure-{b}"
        elif k == "e1":
            v = ctx.pick(loops)
            gs.equivalent_graph_e1(v)
            hist.append(f"equivalent_graph_e1({v})")
            ctx.probe("e1")
        elif k == "e2":
            a, b = ctx.pick(e2)
            gs.equivalent_graph_e2(a, b)
            hist.append(f"equivalent_graph_e2({a}, {b})")
            ctx.probe("e2")
        elif k == "fill":
            v = ctx.pick(nodes)
            iso = not list(gs.neighbors(v))
            was = bool(gs.nodes[v]["hollow"])
            was_loop = bool(gs.nodes[v]["loop"])
            r = gs.equivalent_fill_node(v)
            hist.append(f"equivalent_fill_node({v}) -> {r}")
            ctx.probe("fill")
            if iso and was and not was_loop:
                ctx.check(r == 1, "fill-result", lambda: f"{hist[-1]}: hollow isolated node must give 1, after {hist[:-1]}")
            else:
                ctx.check(not gs.nodes[v]["hollow"], "not-filled", lambda: f"{hist[-1]}: node {v} is still hollow, after {hist[:-1]}")
                ctx.check(r != 1, "fill-result", lambda: f"{hist[-1]}: node could be filled, after {hist[:-1]}")
        elif k == "edge":
            a, b = ctx.shuffle(solid)[:2]
            if gs.has_edge(a, b):
                gs.remove_edge(a, b)
                hist.append(f"remove_edge({a}, {b})")
            else:
                gs.add_edge(a, b)
                hist.append(f"add_edge({a}, {b})")
            m.cz(a, b)
        elif k == "node":
            if ctx.draw(2):
                gs.add_nodes_from(ctx.pick([[nxt], iter([nxt]), {nxt}]))
            else:
                gs.add_node(nxt)
            m.add(nxt)
            hist.append(f"add_node({nxt})")
            nxt += 1
        elif k == "reimport":
            vs = gs.extract_vops()
            gs = GraphState(nodes=list(gs.nodes), edges=list(gs.edges), vops=vs)
            hist.append(f"re-imported with extract_vops() = {vs}")
            ctx.probe("reimport")
        elif k == "copy":
            kept.append((gs, m.copy(), len(hist)))
            gs = gs.copy()
            hist.append("copy()")
        else:
            refused(ctx, gs, hist)
            continue
        done += 1
        ctx.step()
        ctx.log(hist[-1])
        ctx.describe("; ".join(hist))
        compare(ctx, gs, m, hist, klass, ctx.flag(1, 4))
    compare(ctx, gs, m, hist, "final", True)
    iso = {n for n in gs.nodes if not list(gs.neighbors(n))}
    ctx.check(set(gs.isolated_nodes()) == iso, "isolated-nodes", lambda: f"isolated_nodes() = {gs.isolated_nodes()} instead of {sorted(iso)} after {hist}")
    for g, mm, at in kept:
        compare(ctx, g, mm, hist[:at], "copy-aliasing", False)
    if edges and done >= 3:
        ctx.nontrivial()
    ctx.log(str(snapshot(gs)))
    ctx.sched(str(hist))


SCENARIOS = [("history", history, 1)]
