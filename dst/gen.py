"""Generators of workloads.  Every choice comes from the context's choice stream; 0 = simplest."""

from __future__ import annotations

import math

import networkx as nx
import numpy as np

from dst import ref
from dst.core import Discard
from dst.gx import (
    CLIFFORDS, Axis, BasicStates, Circuit, Clifford, Measurement, OpenGraph, Pattern, PauliMeasurement, PlanarState,
    Plane, Sign, Statevector, command, instruction,
)

AXES = [Axis.Z, Axis.X, Axis.Y]
PLANES = [Plane.XY, Plane.XZ, Plane.YZ]
BASICS = [BasicStates.PLUS, BasicStates.ZERO, BasicStates.ONE, BasicStates.MINUS, BasicStates.PLUS_I, BasicStates.MINUS_I]


def angle(ctx, generic=True):
    k = ctx.draw(6 if generic else 3)
    if k == 0:
        return 0
    if k == 1:
        return ctx.pick([0.5, 1.0, 1.5, -0.5, 1, 2.0, -1.0])
    if k == 2:
        return ctx.int(-7, 8) * 0.25
    return ctx.int(-3999, 3999) / 1000.0 + 0.00037


def circuit(ctx, width=None, depth=None, measures=False, ccx=True, swaps=True, kinds=None, max_width=3, max_depth=10,
            generic=True, min_live=0, rzz=True, identity=True):
    n = width or ctx.int(1, max_width)
    c = Circuit(n)
    live = list(range(n))
    d = depth if depth is not None else ctx.int(0, max_depth)
    one = ["h", "s", "x", "y", "z", "rx", "ry", "rz", "j"] + (["i"] if identity else [])
    nccx = 0
    for _ in range(d):
        if not live:
            break
        opts = [(k, 3) for k in one]
        if len(live) >= 2:
            opts += [("cnot", 8), ("cz", 6)]
            if rzz:
                opts += [("rzz", 4)]
            if swaps:
                opts += [("swap", 5)]
        if len(live) >= 3 and ccx and nccx < 1:
            opts += [("ccx", 2)]
        if measures and len(live) > min_live:
            opts += [("m", 5)]
        if kinds:
            opts = [(k, w) for k, w in opts if k in kinds] or [("h", 1)]
        k = ctx.weighted(opts)
        if k in ("h", "s", "x", "y", "z", "i"):
            getattr(c, k)(ctx.pick(live))
        elif k in ("rx", "ry", "rz", "j"):
            q = ctx.pick(live)
            getattr(c, k)(q, angle(ctx, generic))
        elif k in ("cnot", "cz", "swap"):
            a, b = ctx.shuffle(live)[:2]
            getattr(c, k)(a, b)
        elif k == "rzz":
            a, b = ctx.shuffle(live)[:2]
            c.rzz(a, b, angle(ctx, generic))
        elif k == "ccx":
            a, b, t = ctx.shuffle(live)[:3]
            c.ccx(a, b, t)
            nccx += 1
        elif k == "m":
            q = ctx.pick(live)
            c.m(q, ctx.pick(AXES))
            live.remove(q)
    return c


def random_unit_vector(ctx, dim):
    r = np.random.default_rng(ctx.npseed())
    v = r.normal(size=dim) + 1j * r.normal(size=dim)
    return v / np.linalg.norm(v)


def planar_state(ctx):
    k = ctx.draw(3)
    if k <= 1:
        return ctx.pick(BASICS)
    return PlanarState(ctx.pick(PLANES), angle(ctx))


def input_state(ctx, n):
    """(value to pass as input_state or None, reference tensor vector of n qubits)."""
    if n == 0:
        return None, np.ones(1, dtype=complex)
    k = ctx.draw(6)
    if k == 0:
        return None, _prod([ref.BASIC["PLUS"]] * n)
    if k == 1:
        s = planar_state(ctx)
        return s, _prod([ref.state_vec(s)] * n)
    if k == 2:
        ss = [planar_state(ctx) for _ in range(n)]
        return ss, _prod([ref.state_vec(s) for s in ss])
    v = random_unit_vector(ctx, 2**n)
    if k == 3:
        return Statevector(v), v
    if k == 4:
        return v, v
    return list(map(complex, v)), v


def _prod(vs):
    out = np.ones(1, dtype=complex)
    for v in vs:
        out = np.kron(out, v)
    return out


def pauli(ctx):
    m = ctx.pick([Measurement.X, Measurement.Y, Measurement.Z])
    return -m if ctx.flag(1, 2) else m


def measurement(ctx, planar_only=False, generic=True):
    if not planar_only and ctx.flag(1, 3):
        return pauli(ctx)
    p = ctx.pick(PLANES)
    a = angle(ctx, generic)
    return {Plane.XY: Measurement.XY, Plane.XZ: Measurement.XZ, Plane.YZ: Measurement.YZ}[p](a)


def general_pattern(ctx, max_nodes=6, max_live=5, cliffords=True, states=True, relabel=True, max_ops=22, min_out=0,
                    min_in=0, e_after_c=False, pauli_bias=False, corrections_any=True):
    """A random runnable pattern: arbitrary interleaving of N, E, M, X, Z, C with arbitrary valid domains."""
    nin = ctx.int(min_in, 2)
    labels = list(range(max_nodes + 4))
    if relabel and ctx.flag(1, 2):
        labels = ctx.shuffle(list(range(3 * max_nodes)))
    it = iter(labels)
    inputs = [next(it) for _ in range(nin)]
    live = list(inputs)
    measured = []
    noE = set()
    cmds = []
    total = nin
    nops = ctx.int(2, max_ops)
    for _ in range(nops):
        opts = []
        if total < max_nodes and len(live) < max_live:
            opts.append(("N", 6))
        can_e = [q for q in live if q not in noE]
        if len(can_e) >= 2:
            opts.append(("E", 8))
        if len(live) > min_out:
            opts.append(("M", 5))
        if live:
            opts += [("X", 2), ("Z", 2)]
            if cliffords:
                opts.append(("C", 2))
        if not opts:
            break
        k = ctx.weighted(opts)
        if k == "N":
            q = next(it)
            st = planar_state(ctx) if states and ctx.flag(1, 4) else BasicStates.PLUS
            cmds.append(command.N(q, st))
            live.append(q)
            total += 1
        elif k == "E":
            a, b = ctx.shuffle(can_e)[:2]
            cmds.append(command.E((a, b)))
        elif k == "M":
            q = ctx.pick(live)
            m = pauli(ctx) if pauli_bias and ctx.flag(1, 2) else measurement(ctx)
            cmds.append(command.M(q, m, set(ctx.subset(measured)), set(ctx.subset(measured))))
            live.remove(q)
            measured.append(q)
        elif k == "X":
            cmds.append(command.X(ctx.pick(live), set(ctx.subset(measured))))
        elif k == "Z":
            cmds.append(command.Z(ctx.pick(live), set(ctx.subset(measured))))
        elif k == "C":
            q = ctx.pick(live)
            cmds.append(command.C(q, ctx.pick(CLIFFORDS)))
            if not e_after_c:
                noE.add(q)
    p = Pattern(input_nodes=inputs, cmds=cmds)
    outs = list(p.output_nodes)
    if outs and ctx.flag(1, 2):
        p.reorder_output_nodes(ctx.shuffle(outs))
    return p


def outcomes(ctx, nodes):
    """An outcome history for the nodes (swarm: all zero, all one, one-hot, random)."""
    nodes = list(nodes)
    if not nodes:
        return {}
    k = ctx.draw(6)
    if k == 0:
        out = {n: 0 for n in nodes}
    elif k == 1:
        out = {n: 1 for n in nodes}
    elif k == 2:
        h = ctx.pick(nodes)
        out = {n: int(n == h) for n in nodes}
    else:
        out = {n: ctx.draw(2) for n in nodes}
    ones = sum(out.values())
    if ones:
        ctx.fault("adverse-outcome", ones)
    return out


def graph(ctx, n, max_edges=None):
    g = nx.Graph()
    g.add_nodes_from(range(n))
    pairs = [(i, j) for i in range(n) for j in range(i)]
    dens = ctx.int(1, 4)
    for i, j in pairs:
        if ctx.flag(dens, 5):
            g.add_edge(i, j)
    return g


def open_graph(ctx, max_nodes=7, planar_only=False, generic=True, out_cliffords=False, kind=None, equal_io=False,
               min_meas=0):
    """A random open graph (which may have no flow).  Labels are shuffled sometimes."""
    n = ctx.int(2, max_nodes)
    g = graph(ctx, n)
    nodes = list(range(n))
    nin = ctx.int(0, min(2, n))
    perm = ctx.shuffle(nodes)
    if equal_io:
        nout = nin
    else:
        nout = ctx.int(max(nin, 1), min(3, n))
    if nout > n or nin > n:
        raise Discard
    inputs = perm[:nin]
    perm2 = ctx.shuffle(nodes)
    outputs = perm2[:nout]
    meas = {}
    mode = kind or ctx.pick(["xy", "planar", "pauli", "mixed"])
    for v in nodes:
        if v in outputs:
            continue
        if mode == "xy":
            meas[v] = Measurement.XY(angle(ctx, generic))
        elif mode == "planar":
            meas[v] = measurement(ctx, planar_only=True, generic=generic)
        elif mode == "pauli" and not planar_only:
            meas[v] = pauli(ctx) if ctx.flag(2, 3) else Measurement.XY(angle(ctx, generic))
        else:
            meas[v] = measurement(ctx, planar_only=planar_only, generic=generic)
    if len(meas) < min_meas:
        raise Discard
    kw = {}
    if out_cliffords and outputs and ctx.flag(1, 2):
        kw["output_cliffords"] = {o: ctx.pick(CLIFFORDS) for o in ctx.subset(outputs)}
    return OpenGraph(graph=g, input_nodes=inputs, output_nodes=outputs, measurements=meas, **kw)


def flow_open_graph(ctx, max_nodes=7, planar_only=False, generic=True, out_cliffords=False, kind=None, all_inputs=False):
    """An open graph constructed to have flow: grown backwards from the outputs by flow-preserving steps."""
    nout = ctx.int(1, 2)
    layers = list(range(nout))
    g = nx.Graph()
    g.add_nodes_from(layers)
    frontier = list(layers)  # nodes that currently play the role of inputs
    nxt = nout
    meas = {}
    nsteps = ctx.int(0, max_nodes - nout)
    free = list(layers)
    for _ in range(nsteps):
        k = ctx.weighted([("wire", 5), ("ancilla-yz", 2), ("ancilla-xz", 0 if planar_only is None else 0), ("edge", 3), ("pauli", 0 if planar_only else 2)])
        if k == "edge" and len(frontier) >= 2:
            a, b = ctx.shuffle(frontier)[:2]
            if g.has_edge(a, b):
                g.remove_edge(a, b)
            else:
                g.add_edge(a, b)
        elif k in ("wire", "pauli") and frontier:
            # new node v measured XY with corrector f(v)=w; v takes over as input wire
            w = ctx.pick(frontier)
            v = nxt
            nxt += 1
            g.add_edge(v, w)
            frontier.remove(w)
            frontier.append(v)
            meas[v] = Measurement.XY(angle(ctx, generic)) if k == "wire" else ctx.pick([Measurement.X, Measurement.Y, -Measurement.X, -Measurement.Y])
        elif k == "ancilla-yz":
            v = nxt
            nxt += 1
            nb = ctx.subset(frontier)
            g.add_node(v)
            for u in nb:
                g.add_edge(v, u)
            meas[v] = Measurement.YZ(angle(ctx, generic)) if not (not planar_only and ctx.flag(1, 4)) else ctx.pick([Measurement.Z, -Measurement.Z])
    ins = list(frontier) if all_inputs else [f for f in frontier if ctx.flag(2, 3)]
    outs = ctx.shuffle(list(range(nout)))
    perm = list(range(nxt))
    if ctx.flag(1, 2):
        perm = ctx.shuffle(list(range(2 * nxt)))[:nxt]
    mp = dict(zip(range(nxt), perm))
    g = nx.relabel_nodes(g, mp)
    kw = {}
    if out_cliffords and ctx.flag(1, 2):
        kw["output_cliffords"] = {mp[o]: ctx.pick(CLIFFORDS) for o in ctx.subset(outs)}
    return OpenGraph(graph=g, input_nodes=ctx.shuffle([mp[i] for i in ins]), output_nodes=[mp[o] for o in outs],
                     measurements={mp[v]: m for v, m in meas.items()}, **kw)
