"""Independent reference for flows: definitions checked from plain data."""

from __future__ import annotations

import numpy as np

from dst import ref


def adjacency(og):
    adj = {n: set() for n in og.graph.nodes}
    for a, b in og.graph.edges:
        adj[a].add(b)
        adj[b].add(a)
    return adj


def odd(adj, s):
    out = set()
    for n in s:
        out ^= adj[n]
    return out


def label(m):
    """'XY','XZ','YZ' for a Bloch/plane label, 'X','Y','Z' for a Pauli label."""
    if hasattr(m, "plane"):
        return m.plane.name
    if hasattr(m, "axis"):
        return m.axis.name
    return m.name


def plane_of(m):
    """Plane label when Pauli measurements are read as planar ones."""
    return label(m.to_bloch()) if hasattr(m, "axis") else label(m)


def layers_problem(og, layers):
    """None when `layers` is a partition of the nodes into non-empty layers with the outputs first."""
    outs = set(og.output_nodes)
    meas = set(og.graph.nodes) - outs
    layers = [set(x) for x in layers]
    if not layers:
        return None if not og.graph.nodes else "no layer"
    rest = layers
    if outs:
        if layers[0] != outs:
            return "first layer differs from outputs"
        rest = layers[1:]
    seen = set()
    for lay in rest:
        if not lay:
            return "empty layer"
        if not lay <= meas:
            return "layer holds a non-measured node"
        if lay & seen:
            return "duplicated node"
        seen |= lay
    if seen != meas:
        return "missing node"
    return None


def flow_problem(og, kind, func, layers):
    """None when (func, layers) is a flow of the given kind ('causal'|'gflow'|'pauli') by the definition."""
    outs, ins = set(og.output_nodes), set(og.input_nodes)
    nodes = set(og.graph.nodes)
    if set(func) != nodes - outs:
        return "domain"
    for s in func.values():
        if not set(s) <= nodes - ins:
            return "image"
    p = layers_problem(og, layers)
    if p:
        return p
    adj = adjacency(og)
    lev = {n: i for i, lay in enumerate(layers) for n in lay}
    for i, s in func.items():
        s = set(s)
        o = odd(adj, s)
        m = og.measurements[i]

        def before(j):
            return lev[j] < lev[i]

        if kind == "causal":
            if len(s) != 1:
                return "C0"
            if plane_of(m) != "XY":
                return "plane"
            (f,) = s
            if f not in adj[i]:
                return "C1"
            if not before(f):
                return "C2"
            if any(not before(j) for j in adj[f] if j != i):
                return "C3"
            continue
        if kind == "gflow":
            if any(not before(j) for j in s - {i}):
                return "G1"
            if any(not before(j) for j in o - {i}):
                return "G2"
            lab = plane_of(m)
        else:
            for j in s - {i}:
                if not before(j) and label(og.measurements[j]) not in ("X", "Y"):
                    return "P1"
            for j in o - {i}:
                if not before(j) and label(og.measurements[j]) not in ("Y", "Z"):
                    return "P2"
            for j in nodes - outs - {i}:
                if not before(j) and label(og.measurements[j]) == "Y" and ((j in s) != (j in o)):
                    return "P3"
            lab = label(m)
        ok = {"XY": i not in s and i in o, "XZ": i in s and i in o, "YZ": i in s and i not in o,
              "X": i in o, "Z": i in s, "Y": (i in s) != (i in o)}[lab]
        if not ok:
            return f"local-{lab}"
    return None


def postselected(og):
    """Map implemented by the open graph with every measurement outcome equal to 0, as a tensor.

    Normalised so that a deterministic pattern with m measurements has every branch equal to it (weight 2**-m).
    """
    nin = len(og.input_nodes)
    run = ref.RefRun(list(og.input_nodes), ref.identity_input(nin), nin)
    todo = []
    for n in og.graph.nodes:
        if n not in run.nodes:
            todo.append(("N", n))
    edges = [tuple(e) for e in og.graph.edges]
    # small graphs: entangle lazily to keep the state small
    prepared = set(run.nodes)
    done = set()
    for v in sorted(og.measurements, key=lambda v: len(list(og.graph.neighbors(v)))):
        inc = [e for e in edges if v in e and e not in done]
        for n in {v} | {x for e in inc for x in e}:
            if n not in prepared:
                run.prep(n, ref.BASIC["PLUS"])
                prepared.add(n)
        for e in inc:
            run.entangle(*e)
            done.add(e)
        run.measure(v, ref.meas_vector(og.measurements[v]), 0)
        if run.psi.ndim > ref.MAX_SPACE:
            raise ref.TooBig
    for _, n in todo:
        if n not in prepared:
            run.prep(n, ref.BASIC["PLUS"])
            prepared.add(n)
    for e in edges:
        if e not in done:
            run.entangle(*e)
    for o, c in (og.output_cliffords or {}).items():
        run.gate(o, ref.clifford_matrix(c))
    return run.tensor(list(og.output_nodes))


def layer_orders_ok(og, layers, order):
    """True when `order` lists every measured node once, sorted by decreasing layer."""
    meas = set(og.graph.nodes) - set(og.output_nodes)
    if len(order) != len(meas) or set(order) != meas:
        return False
    lev = {n: i for i, lay in enumerate(layers) for n in lay}
    levs = [lev[n] for n in order]
    return all(a >= b for a, b in zip(levs, levs[1:]))


def random_layer_order(ctx, og, layers):
    outs = set(og.output_nodes)
    order = []
    for lay in reversed([set(x) - outs for x in layers]):
        order += ctx.shuffle(sorted(lay))
    return order
