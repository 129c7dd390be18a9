"""C13: composing patterns, circuits and open graphs composes their maps."""

from __future__ import annotations

import warnings

import networkx as nx
import numpy as np

from dst import flowref, gen, ref
from dst.checks.c03 import kraus, with_plus
from dst.core import Discard, Violation, close_up_to_phase, fidelity
from dst.gx import (
    CLIFFORDS, Circuit, Clifford, Measurement, OpenGraph, Pattern, circuit_key, circuit_repr, command, measured_nodes, og_repr, pattern_key,
    pattern_repr, simulate, vec,
)

from graphix.opengraph import OpenGraphError
from graphix.pattern import PatternError

LEVEL = "exploration"
QUICK_RUNS = 40000
THOROUGH_RUNS = 1200000
REAL = ["graphix.pattern (compose, node_mapping, reindex)", "graphix.opengraph (compose)", "graphix.transpiler (extend, transpile)",
        "graphix.sim.statevec", "graphix.simulator"]
STUB = ["outcome histories (scripted)"]
RULE = ("chains of 2-3 random patterns (<=4 nodes each, arbitrary interleavings) with random partial identifications and relabellings, pairs of "
        "random open graphs glued in series, reversed, in parallel or overlapping, and circuits extended piecewise; malformed mappings injected; "
        "2-3 outcome histories each; non-trivial = at least one merged node")
ASSUMPTIONS = ["reference semantics in dst/ref.py",
               "open graphs: an output Clifford moves past the edges of the second graph and an edge present on both sides is kept once (documented "
               "gluing), so the map is compared only where the Clifford is diagonal or the node isolated and no edge is shared"]
REQUIRED_PROBES = ("series", "partial", "parallel", "relabelled", "preserve-mapping", "chain", "og-series", "og-reverse", "og-glue", "og-clifford-measured",
                   "og-map", "og-flow", "circuit-compose", "two-step-run", "self-compose", "collide-labels", "empty")


class Tensor:
    """A linear map with named legs (outputs then inputs)."""

    def __init__(self, t, outs, ins):
        self.t = np.asarray(t).reshape((2,) * (len(outs) + len(ins)))
        self.outs, self.ins = list(outs), list(ins)

    def then(self, other, link):
        """`other` after self; link: input leg of other -> output leg of self.  Legs are disjoint otherwise."""
        links = [(self.outs.index(o), len(other.outs) + other.ins.index(i)) for i, o in link.items()]
        t = np.tensordot(self.t, other.t, axes=([a for a, _ in links], [b for _, b in links]))
        left = [("o", x) for x in self.outs if x not in link.values()] + [("i", x) for x in self.ins]
        right = [("o", x) for x in other.outs] + [("i", x) for x in other.ins if x not in link]
        legs = left + right
        outs = [x for k, x in legs if k == "o"]
        ins = [x for k, x in legs if k == "i"]
        perm = [legs.index(("o", x)) for x in outs] + [legs.index(("i", x)) for x in ins]
        return Tensor(t.transpose(perm), outs, ins)

    def ordered(self, outs, ins):
        perm = [self.outs.index(x) for x in outs] + [len(self.outs) + self.ins.index(x) for x in ins]
        return self.t.transpose(perm)


def same(ctx, got, exp, what):
    exp = exp.reshape(got.shape)
    ng, ne = np.linalg.norm(got), np.linalg.norm(exp)
    ctx.check(abs(ng - ne) < 1e-6 * max(1, ne), "distribution", lambda: f"weight {ng**2:.6g}, expected {ne**2:.6g}: {what()}")
    if ne > 1e-6:
        ctx.check(close_up_to_phase(got, exp), "wrong-map", lambda: f"fidelity {fidelity(got, exp):.6f}: {what()}")


# ---------------------------------------------------------------- patterns

def small_pattern(ctx):
    k = ctx.draw(5)
    if ctx.flag(1, 40):
        ctx.probe("empty")
        return Pattern()
    if k <= 2:
        return gen.general_pattern(ctx, max_nodes=4, max_live=3, max_ops=9, e_after_c=ctx.flag(1, 4), states=ctx.flag(1, 3))
    if k == 3:
        c = gen.circuit(ctx, max_width=2, max_depth=3, ccx=False, measures=ctx.flag(1, 4))
        return c.transpile().pattern
    og = gen.flow_open_graph(ctx, max_nodes=5, out_cliffords=ctx.flag(1, 3))
    try:
        return og.to_pattern()
    except OpenGraphError:
        raise Discard from None


def signals(ctx, p):
    """Insert S commands now and then."""
    if not ctx.flag(1, 6):
        return p
    cmds, seen = [], []
    for c in p:
        cmds.append(c)
        if c.kind.name == "M":
            if ctx.flag(1, 3):
                cmds.append(command.S(c.node, set(ctx.subset(seen))))
            seen.append(c.node)
    q = Pattern(input_nodes=p.input_nodes, cmds=cmds)
    q.reorder_output_nodes(p.output_nodes)
    return q



def mapping_for(ctx, p1, p2):
    """(mapping, merged pairs, malformed kind or None)."""
    n1, n2 = sorted(p1.nodes()), sorted(p2.nodes())
    outs, ins = list(p1.output_nodes), list(p2.input_nodes)
    mp = {}
    k = ctx.draw(4)
    if k == 0 and len(outs) >= len(ins):
        mp = dict(zip(ins, outs))
    elif k <= 2:
        m = min(len(outs), len(ins))
        r = ctx.int(0, m)
        mp = dict(zip(ctx.shuffle(ins)[:r], ctx.shuffle(outs)[:r]))
    merged = dict(mp)
    if ctx.flag(1, 2):
        free = [x for x in range(0, 30) if x not in n1]
        for n in ctx.subset([n for n in n2 if n not in mp], 1, 2):
            v = ctx.pick(free)
            free.remove(v)
            mp[n] = v
            ctx.probe("relabelled")
            if v in n2:
                ctx.probe("collide-labels")
    if ctx.draw(2):
        mp = dict(ctx.shuffle(list(mp.items())))
    return mp, merged


def spoil(ctx, p1, p2, mp):
    """A malformed mapping, or None."""
    k = ctx.draw(4)
    n1, n2 = sorted(p1.nodes()), sorted(p2.nodes())
    bad = dict(mp)
    if k == 0:
        bad[max([*n2, 0]) + 1 + ctx.draw(3)] = 50 + ctx.draw(5)
        return bad, "unknown-key"
    if k == 1:
        un = [n for n in n2 if n not in bad]
        if not un or not bad:
            return None
        bad[un[0]] = ctx.pick(list(bad.values()))
        return bad, "duplicate-value"
    if k == 2:
        inner = [n for n in n1 if n not in p1.output_nodes]
        un = [n for n in n2 if n not in bad]
        if not inner or not un:
            return None
        bad[ctx.pick(un)] = ctx.pick(inner)
        return bad, "measured-value"
    un = [n for n in n2 if n not in bad and n not in p2.input_nodes]
    o = [n for n in p1.output_nodes if n not in bad.values()]
    if not un or not o:
        return None
    bad[ctx.pick(un)] = ctx.pick(o)
    return bad, "output-onto-inner"


def patterns(ctx):
    p = small_pattern(ctx)
    n = ctx.int(1, 2)
    parts = [(p, {x: x for x in p.nodes()})]
    maps = []
    cur = p
    steps = []
    rep = [pattern_repr(p)]
    for _ in range(n):
        if ctx.flag(1, 8):
            q = cur
            ctx.probe("self-compose")
        else:
            q = small_pattern(ctx)
        if len(cur.nodes()) + len(q.nodes()) > 13 or ref.space_needed(list(cur), len(cur.input_nodes)) + ref.space_needed(list(q), len(q.input_nodes)) > 9:
            break
        mp, merged = mapping_for(ctx, cur, q)
        k1, k2 = pattern_key(cur), pattern_key(q)
        if ctx.flag(1, 5):
            sp = spoil(ctx, cur, q, mp)
            if sp:
                bad, kind = sp
                ctx.fault(f"mapping-{kind}")
                try:
                    r = cur.compose(q, bad)
                except PatternError:
                    pass
                else:
                    raise Violation("accepted-malformed", f"{kind} mapping {bad} accepted composing {pattern_repr(cur)} with {pattern_repr(q)} into {pattern_repr(r[0])}")
                ctx.check((pattern_key(cur), pattern_key(q)) == (k1, k2), "operand-changed", lambda: f"refused composition changed {pattern_repr(cur)} or {pattern_repr(q)}")
        pm = ctx.flag(1, 3)
        arg = dict(mp)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r, full = cur.compose(q, arg, pm) if ctx.draw(2) else cur.compose(other=q, mapping=arg, preserve_mapping=pm)
        what = f"compose({pattern_repr(q)}, {mp}, preserve_mapping={pm})"
        ctx.check((pattern_key(cur), pattern_key(q)) == (k1, k2) and arg == mp, "operand-changed", lambda: f"{what} changed an operand: {pattern_repr(cur)}")
        n1, n2 = set(cur.nodes()), set(q.nodes())
        ctx.check(set(full) == n2 and all(full[a] == b for a, b in mp.items()) and len(set(full.values())) == len(full)
                  and {full[a] for a in n2 if a not in merged}.isdisjoint(n1), "node-mapping", lambda: f"{what} on {pattern_repr(cur)} returned {full}")
        fresh = sorted(a for a in n2 if a not in mp)
        ctx.check([full[a] for a in fresh] == sorted(full[a] for a in fresh), "node-mapping", lambda: f"{what} relabels {fresh} to {[full[a] for a in fresh]}")
        m1 = set(merged.values())
        ins = cur.input_nodes + [full[a] for a in q.input_nodes if a not in merged]
        if pm and len(m1) == len(q.input_nodes) == len(q.output_nodes):
            io = {full[a]: full[b] for a, b in zip(q.input_nodes, q.output_nodes)}
            outs = [io[o] if o in m1 else o for o in cur.output_nodes]
            ctx.probe("preserve-mapping")
        else:
            outs = [o for o in cur.output_nodes if o not in m1] + [full[b] for b in q.output_nodes]
        ctx.check(r.input_nodes == ins and r.output_nodes == outs, "interface", lambda: f"inputs {r.input_nodes} expected {ins}, outputs {r.output_nodes} expected {outs}: {what} on {pattern_repr(cur)}")
        ctx.check(len(r) == len(cur) + len(q) and r.n_node == len(n1) + len(n2) - len(m1), "interface", lambda: f"{len(r)} commands, {r.n_node} nodes: {what} on {pattern_repr(cur)}")
        try:
            r.check_runnability()
        except Exception as e:
            raise Violation("not-runnable", f"{e!r}: {what} on {pattern_repr(cur)} -> {pattern_repr(r)}") from None
        ctx.probe("parallel" if not merged else "series" if len(merged) == len(q.input_nodes) == len(cur.output_nodes) else "partial")
        if merged:
            ctx.nontrivial()
        ctx.sched(len(merged), len(mp), pm, len(n1), len(n2))
        steps.append((cur, q, merged, full, r, what))
        rep.append(what)
        maps.append(full)
        parts.append((q, full))
        cur = r
    if len(steps) > 1:
        ctx.probe("chain")
    if not steps:
        raise Discard
    desc = " . ".join(rep)
    ctx.describe(desc)
    for a, q, merged, full, r, what in steps:
        h = gen.outcomes(ctx, measured_nodes(r))
        ka = kraus(a, {n: h[n] for n in measured_nodes(a)})
        kq = kraus(q, {n: h[full[n]] for n in measured_nodes(q)})
        ta = Tensor(ka, [(1, o) for o in a.output_nodes], [(1, i) for i in a.input_nodes])
        tq = Tensor(kq, [(2, o) for o in q.output_nodes], [(2, i) for i in q.input_nodes])
        t = ta.then(tq, {(2, x): (1, y) for x, y in merged.items()})
        inv = {v: (2, k) for k, v in full.items()}
        back_out = {o: (inv[o] if o in inv else (1, o)) for o in r.output_nodes}
        back_in = {i: ((1, i) if i in a.input_nodes else inv[i]) for i in r.input_nodes}
        exp = t.ordered([back_out[o] for o in r.output_nodes], [back_in[i] for i in r.input_nodes])
        got = kraus(r, h)
        same(ctx, got, exp, lambda: f"outcomes {h}: {what} on {pattern_repr(a)} -> {pattern_repr(r)}")
        if ctx.flag(1, 10) and np.linalg.norm(exp) > 1e-4 and ref.space_needed(list(r), len(r.input_nodes)) <= 9:
            nin = len(r.input_nodes)
            e = with_plus(exp, nin)
            if np.linalg.norm(e) > 1e-4:
                st, res, _ = simulate(r, h)
                if res == h:
                    ctx.check(close_up_to_phase(vec(st), e.reshape(-1)), "wrong-state", lambda: f"outcomes {h}: simulation of {pattern_repr(r)} from {what} on {pattern_repr(a)}")
                if [merged.get(i) for i in q.input_nodes] == a.output_nodes and len(merged) == len(a.output_nodes) and a.output_nodes:
                    s1, r1, _ = simulate(a, {n: h[n] for n in measured_nodes(a)})
                    s2, r2, _ = simulate(q, {n: h[full[n]] for n in measured_nodes(q)}, input_state=s1)
                    both = {**r1, **{full[n]: v for n, v in r2.items()}}
                    if both == res and res == h and r.output_nodes == [full[o] for o in q.output_nodes]:
                        ctx.probe("two-step-run")
                        ctx.check(close_up_to_phase(vec(s2), vec(st)), "two-step", lambda: f"outcomes {h}: running the parts one after the other differs from {what} on {pattern_repr(a)}")
    ctx.log(desc)


# ---------------------------------------------------------------- open graphs

DIAGONAL = [c for c in CLIFFORDS if abs(ref.clifford_matrix(c)[0, 1]) < 1e-9]


def og_structure(og1, og2, mp, full):
    """The documented result, from plain data."""
    merged = set(full.values()) & set(og1.graph.nodes)
    edges = {frozenset(e) for e in og1.graph.edges} | {frozenset((full[a], full[b])) for a, b in og2.graph.edges}
    nodes = set(og1.graph.nodes) | set(full.values())

    def ports(a, b):
        b = [full[x] for x in b]
        return [x for x in a if x not in merged or x in b] + [x for x in b if x not in merged]

    ins, outs = ports(og1.input_nodes, og2.input_nodes), ports(og1.output_nodes, og2.output_nodes)
    ms = {}
    for u, m in og1.measurements.items():
        ms[u] = ("1", m)
    c2 = {full[v]: c for v, c in og2.output_cliffords.items()}
    c1 = og1.output_cliffords
    for u, m in og1.measurements.items():
        if u in c2:
            ms[u] = ("1c", m, c2[u])
    for v, m in og2.measurements.items():
        u = full[v]
        if u in og1.measurements:
            continue
        ms[u] = ("2c", m, c1[u]) if u in c1 else ("2", m)
    cl = {}
    for o in outs:
        a, b = c1.get(o, Clifford.I), c2.get(o, Clifford.I)
        if o in c1 or o in c2:
            cl[o] = (b, a)
    return nodes, edges, ins, outs, ms, cl


def meas_vec(m, clifford=None):
    """Projector on outcome 0 of the measurement performed after the Clifford."""
    x, y, z = ref.meas_vector(m)
    v = np.array([[1 + z, x - 1j * y], [x + 1j * y, 1 - z]]) / 2
    if clifford is not None:
        u = ref.clifford_matrix(clifford)
        v = u.conj().T @ v @ u
    return v


def opengraphs(ctx):
    def one():
        if ctx.flag(1, 40):
            ctx.probe("empty")
            return OpenGraph(nx.Graph(), [], [], {})
        if ctx.flag(1, 2):
            return gen.flow_open_graph(ctx, max_nodes=5, out_cliffords=ctx.flag(1, 3))
        return gen.open_graph(ctx, max_nodes=4, out_cliffords=ctx.flag(1, 3))

    og1, og2 = one(), one()
    if ctx.flag(1, 10):
        og2 = og1
    n1, n2 = sorted(og1.graph.nodes), sorted(og2.graph.nodes)
    mode = ctx.draw(4)
    mp = {}
    if mode <= 1:
        a, b = list(og1.output_nodes), list(og2.input_nodes)
        r = ctx.int(0, min(len(a), len(b)))
        mp = dict(zip(ctx.shuffle(b)[:r], ctx.shuffle(a)[:r]))
    elif mode == 2:
        a, b = list(og1.input_nodes), list(og2.output_nodes)
        r = ctx.int(0, min(len(a), len(b)))
        mp = dict(zip(ctx.shuffle(b)[:r], ctx.shuffle(a)[:r]))
    else:
        r = ctx.int(0, min(len(n1), len(n2), 3))
        mp = dict(zip(ctx.shuffle(n2)[:r], ctx.shuffle(n1)[:r]))
    merged = dict(mp)
    if ctx.flag(1, 2):
        free = [x for x in range(30) if x not in n1]
        for v in ctx.subset([v for v in n2 if v not in mp], 1, 2):
            u = ctx.pick(free)
            free.remove(u)
            mp[v] = u
            ctx.probe("relabelled")
    if ctx.flag(1, 5):
        bad = dict(mp)
        if ctx.draw(2) or not bad or len(bad) == len(n2):
            bad[max([*n2, 0]) + 1 + ctx.draw(4)] = 60
            kind = "unknown-key"
        else:
            bad[ctx.pick([v for v in n2 if v not in bad])] = ctx.pick(list(bad.values()))
            kind = "duplicate-value"
        ctx.fault(f"mapping-{kind}")
        try:
            og1.compose(og2, bad)
        except ValueError:
            pass
        else:
            raise Violation("accepted-malformed", f"{kind} mapping {bad} accepted for {og_repr(og1)} and {og_repr(og2)}")
    what = f"{og_repr(og1)}.compose({og_repr(og2)}, {mp})"
    ctx.describe(what)
    conflict = clash = False
    for v, u in merged.items():
        if v in og2.measurements and u in og1.measurements:
            x, y = meas_vec(og2.measurements[v]), meas_vec(og1.measurements[u])
            if og2.measurements[v] != og1.measurements[u]:
                conflict = True
            if not np.allclose(x, y, atol=1e-6):
                clash = True
    b1, b2 = og_repr(og1), og_repr(og2)
    try:
        og, full = og1.compose(og2, mp)
    except OpenGraphError as e:
        ctx.fault("mapping-conflicting-measurements")
        ctx.check(conflict, "refused", lambda: f"{e!r}: {what}")
        return
    ctx.check(not clash, "accepted-malformed", lambda: f"merges different measurements: {what}")
    ctx.check((og_repr(og1), og_repr(og2)) == (b1, b2), "operand-changed", lambda: what)
    ctx.check(set(full) == set(n2) and all(full[a] == b for a, b in mp.items()) and len(set(full.values())) == len(full)
              and {full[v] for v in n2 if v not in merged}.isdisjoint(n1), "node-mapping", lambda: f"{full}: {what}")
    nodes, edges, ins, outs, ms, cl = og_structure(og1, og2, mp, full)
    ctx.check(set(og.graph.nodes) == nodes and {frozenset(e) for e in og.graph.edges} == edges, "wrong-graph", lambda: f"{og_repr(og)}: {what}")
    ctx.check(list(og.input_nodes) == ins and list(og.output_nodes) == outs, "interface", lambda: f"{og_repr(og)}: expected inputs {ins}, outputs {outs}: {what}")
    ctx.check(set(og.measurements) == set(ms), "wrong-measurement", lambda: f"{og_repr(og)}: {what}")
    for u, s in ms.items():
        x = meas_vec(s[1], s[2] if len(s) == 3 else None)
        y = meas_vec(og.measurements[u])
        ctx.check(np.allclose(x, y, atol=1e-6), "wrong-measurement", lambda: f"node {u}: {og_repr(og)}: {what}")
        if s[0] == "2c":
            ctx.probe("og-clifford-measured")
    ctx.check(set(og.output_cliffords) <= set(outs), "wrong-clifford", lambda: f"{og_repr(og)}: {what}")
    for o in outs:
        b, a = cl.get(o, (Clifford.I, Clifford.I))
        e = ref.clifford_matrix(b) @ ref.clifford_matrix(a)
        g = ref.clifford_matrix(og.output_cliffords.get(o, Clifford.I))
        ctx.check(close_up_to_phase(g, e), "wrong-clifford", lambda: f"output {o}: {og_repr(og)}: {what}")
    if merged:
        ctx.nontrivial()
    ctx.sched(mode, len(merged), len(mp), len(n1), len(n2))
    ctx.probe(("og-series", "og-series", "og-reverse", "og-glue")[mode])
    # the map, where gluing is sequential composition
    shared = {frozenset(e) for e in og1.graph.edges} & {frozenset((full[a], full[b])) for a, b in og2.graph.edges}
    series = all(u in og1.output_nodes and v in og2.input_nodes for v, u in merged.items())
    rev = all(u in og1.input_nodes and v in og2.output_nodes for v, u in merged.items())
    if shared or not (series or rev) or len(nodes) > 9:
        return
    for v, u in merged.items():
        c1, c2 = og1.output_cliffords.get(u, Clifford.I), og2.output_cliffords.get(v, Clifford.I)
        first, deg = (c1, og2.graph.degree(v)) if series else (c2, og1.graph.degree(u))
        if deg and first not in DIAGONAL:
            return
        if not series and c1 != Clifford.I:
            return
    t1 = Tensor(flowref.postselected(og1), [(1, o) for o in og1.output_nodes], [(1, i) for i in og1.input_nodes])
    t2 = Tensor(flowref.postselected(og2), [(2, o) for o in og2.output_nodes], [(2, i) for i in og2.input_nodes])
    inv = {w: v for v, w in full.items()}
    if series:
        t = t1.then(t2, {(2, v): (1, u) for v, u in merged.items()})
        lo = {o: ((2, inv[o]) if o in inv and inv[o] in og2.output_nodes else (1, o)) for o in outs}
        li = {i: ((1, i) if i in og1.input_nodes else (2, inv[i])) for i in ins}
    else:
        t = t2.then(t1, {(1, u): (2, v) for v, u in merged.items()})
        lo = {o: ((1, o) if o in og1.output_nodes else (2, inv[o])) for o in outs}
        li = {i: ((2, inv[i]) if i in inv and inv[i] in og2.input_nodes else (1, i)) for i in ins}
    if len(t.outs) != len(outs) or len(t.ins) != len(ins):
        raise Violation("interface", f"{og_repr(og)} has not the ports of the composition: {what}")
    exp = t.ordered([lo[o] for o in outs], [li[i] for i in ins])
    ctx.probe("og-map")
    same(ctx, flowref.postselected(og), exp, lambda: f"{og_repr(og)}: {what}")
    if any(c != Clifford.I for c in og1.output_cliffords.values()) or any(c != Clifford.I for c in og2.output_cliffords.values()) or not ctx.flag(1, 3):
        return
    for name, find in (("causal flow", lambda o: o.to_bloch().to_causalflow_or_none()), ("Pauli flow", lambda o: o.to_pauliflow_or_none())):
        if find(og1) is not None and find(og2) is not None:
            f = find(og)
            ctx.probe("og-flow")
            ctx.check(f is not None, "flow-lost", lambda: f"the composition of graphs with {name} has none: {og_repr(og)}: {what}")
            p = f.to_xzcorrections().to_pattern()
            h = gen.outcomes(ctx, measured_nodes(p))
            got = kraus(p, h)
            ctx.check(close_up_to_phase(got, exp), "wrong-map", lambda: f"branch {h}: {pattern_repr(p)}: {what}")


# ---------------------------------------------------------------- circuits

def circuits(ctx):
    n = ctx.int(1, 3)
    c1 = gen.circuit(ctx, width=n, max_depth=5)
    c2 = gen.circuit(ctx, width=n, max_depth=5, measures=ctx.flag(1, 3), ccx=False)
    whole = Circuit(n, c1.instruction) if ctx.draw(2) else Circuit(n)
    if not whole.instruction:
        whole.extend(c1.instruction)
    k1, k2 = circuit_key(c1), circuit_key(c2)
    whole.extend(iter(c2.instruction) if ctx.draw(2) else c2.instruction)
    rep = f"{circuit_repr(c1)} then {circuit_repr(c2)}"
    ctx.describe(rep)
    ctx.check((circuit_key(c1), circuit_key(c2)) == (k1, k2), "operand-changed", lambda: rep)
    ctx.check([repr(i) for i in whole.instruction] == [repr(i) for i in [*c1.instruction, *c2.instruction]], "wrong-circuit", lambda: f"{circuit_repr(whole)}: {rep}")
    ms = [i for i in c2.instruction if i.kind.name == "M"]
    cm = [ctx.draw(2) for _ in ms]
    u1, _ = ref.circuit_run(c1.instruction, n, ref.identity_input(n), [])
    e2, _ = ref.circuit_run(c2.instruction, n, ref.identity_input(n), cm)
    exp = e2.reshape(-1, 2**n) @ u1.reshape(2**n, 2**n)
    f1, f2 = ctx.flag(1, 2), ctx.flag(1, 2)
    t1, t2 = c1.transpile(transpile_swaps=f1), c2.transpile(transpile_swaps=f2)
    p1, p2 = t1.pattern, t2.pattern
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p, full = p1.compose(p2, dict(zip(p2.input_nodes, p1.output_nodes)))
    cls = [full[x] for x in t2.classical_outputs]
    whole_t = whole.transpile(transpile_swaps=ctx.flag(1, 2))
    for q, c, name in ((p, cls, "composition of the patterns"), (whole_t.pattern, list(whole_t.classical_outputs), "pattern of the whole circuit")):
        mn = measured_nodes(q)
        internal = [m for m in mn if m not in c]
        h = gen.outcomes(ctx, internal)
        h.update(zip(c, cm))
        got = kraus(q, h) * 2 ** (len(internal) / 2)
        same(ctx, got, exp, lambda: f"{name}, outcomes {h}: {pattern_repr(q)}: {rep}")
    ctx.probe("circuit-compose")
    ctx.nontrivial()
    ctx.sched(n, len(c1.instruction), len(c2.instruction), f1, f2)


# ---------------------------------------------------------------- relabelling

def relabelling(ctx):
    """reindex/node_mapping on their own: the relabelled pattern is the same pattern."""
    p = signals(ctx, small_pattern(ctx))
    nodes = sorted(p.nodes())
    before = pattern_key(p)
    k = ctx.draw(3)
    if k == 0:
        tgt = ctx.shuffle(list(range(2 * len(nodes) + 4)))[: len(nodes)]
        full = dict(zip(nodes, tgt))
        arg = full if ctx.draw(2) else full.__getitem__
    elif k == 1:
        full = p.node_mapping()
        arg = None if ctx.draw(2) else full
    else:
        keep = set(ctx.subset(nodes, 1, 3))
        start = ctx.draw(7)
        avoid = ctx.subset(list(range(10)), 1, 3)
        mp = p.node_mapping(start=start, avoids=avoid, preserves=keep)
        full = {**{x: x for x in keep}, **mp}
        arg = mp
        ctx.check(not keep & set(mp) and set(full) == set(nodes) and len(set(full.values())) == len(full) and not set(mp.values()) & set(avoid)
                  and all(v >= start for v in mp.values()), "node-mapping", lambda: f"node_mapping(start={start}, avoids={avoid}, preserves={keep}) = {mp} for {pattern_repr(p)}")
    rep = f"{pattern_repr(p)} under {full}"
    ctx.describe(rep)
    if ctx.flag(1, 6) and len(nodes) >= 2:
        bad = {nodes[0]: 3, nodes[1]: 3}
        ctx.fault("mapping-duplicate-value")
        try:
            p.node_mapping(bad)
        except ValueError:
            pass
        else:
            raise Violation("accepted-malformed", f"node_mapping({bad}) accepted")
    q = p.reindex(arg, copy=True)
    ctx.check(pattern_key(p) == before, "operand-changed", lambda: f"{pattern_repr(p)} from {rep}")
    if ctx.draw(2):
        r = p.reindex(arg)
        ctx.check(r is p and pattern_key(p) == pattern_key(q), "in-place", lambda: f"{pattern_repr(p)} and {pattern_repr(q)}: {rep}")
    ins, outs = before[0], before[1]
    ctx.check(tuple(q.input_nodes) == tuple(full[i] for i in ins) and tuple(q.output_nodes) == tuple(full[o] for o in outs) and set(q.nodes()) == set(full.values())
              and q.n_node == before[3], "interface", lambda: f"{pattern_repr(q)} from {rep}")
    inv = {v: k for k, v in full.items()}
    back = q.reindex(inv, copy=True)
    ctx.check(pattern_key(back) == before, "round-trip", lambda: f"{pattern_repr(back)} from {rep}")
    if len(nodes) > 1:
        ctx.nontrivial()
    ctx.sched(k, len(nodes))
    for c, d in zip(p if pattern_key(p) == before else back, q):
        e = {"kind": c.kind.name, "node": full[c.node] if hasattr(c, "node") else None}
        g = {"kind": d.kind.name, "node": getattr(d, "node", None)}
        for x in ("s_domain", "t_domain", "domain", "nodes"):
            if hasattr(c, x):
                e[x], g[x] = sorted(full[y] for y in getattr(c, x)), sorted(getattr(d, x))
        for x in ("measurement", "state", "clifford"):
            e[x], g[x] = (None if callable(getattr(y, x, None)) else repr(getattr(y, x, None)) for y in (c, d))
        ctx.check(e == g, "wrong-command", lambda: f"{g} expected {e}: {rep}")
    if not any(c.kind.name == "S" for c in q):
        h = gen.outcomes(ctx, measured_nodes(q))
        same(ctx, kraus(q, h), kraus(back, {inv[n]: b for n, b in h.items()}), lambda: f"{pattern_repr(q)} from {rep}")


SCENARIOS = [("patterns", patterns, 6), ("opengraphs", opengraphs, 5), ("circuits", circuits, 2), ("relabelling", relabelling, 2)]
