"""C05: declared dependencies are enough for asynchronous distributed execution."""

from __future__ import annotations

import numpy as np

from dst import flowref, gen, ref
from dst.core import Discard, Violation, close_up_to_phase, fidelity
from dst.gx import BasicStates, Clifford, Pattern, command, measured_nodes, og_repr, pattern_repr, simulate, vec
from dst.net import Net

from graphix.flow.core import XZCorrections
from graphix.flow.exceptions import FlowError, XZCorrectionsError
from graphix.optimization import StandardizedPattern

LEVEL = "exploration"
QUICK_RUNS = 120000
THOROUGH_RUNS = 4000000
REAL = ["graphix.pattern", "graphix.optimization (layer extraction, standardisation)", "graphix.flow.core", "graphix.opengraph",
        "graphix._linalg (uncompiled source)", "graphix.transpiler", "graphix.simulator and graphix.sim.statevec (part of the runs)"]
STUB = ["classical network, parties and their storage (dst/net.py)", "branch selection (scripted outcome histories)"]
RULE = ("patterns (random, transpiled, from flows, rewritten) and correction sets executed by message-passing parties under a seeded "
        "scheduler with delays, reordering, duplication, loss with retransmission, partitions and crash-restart; non-trivial = at least two "
        "measured nodes and one message")
ASSUMPTIONS = ["reference semantics in dst/ref.py", "recorded outcomes are durable, received messages are not",
               "patterns of at most 7 nodes or width-3 circuits"]
REQUIRED_PROBES = ("layers", "corrections", "dataflow", "pattern-xz", "flow-xz", "random-xz", "real-simulator", "circuit-source", "crash-redelivery")


# ---------------------------------------------------------------- sources

def draw_pattern(ctx):
    k = ctx.draw(6)
    if k <= 1:
        return gen.general_pattern(ctx, max_nodes=7, e_after_c=False, cliffords=bool(ctx.draw(2)), states=bool(ctx.draw(2))), "general"
    if k == 2:
        c = gen.circuit(ctx, max_width=3, max_depth=5, ccx=False, measures=bool(ctx.draw(2)))
        ctx.probe("circuit-source")
        return c.transpile().pattern, "circuit"
    og = gen.flow_open_graph(ctx, max_nodes=8)
    f = og.to_pauliflow_or_none()
    if f is None:
        raise Discard
    return f.to_xzcorrections().to_pattern(), "flow"


def rewrite(ctx, p):
    """Rewritten patterns have more intricate domains."""
    for _ in range(ctx.int(0, 2)):
        k = ctx.draw(6)
        if k == 0:
            p.standardize()
        elif k == 1:
            p.standardize()
            p.shift_signals()
        elif k == 2:
            p = p.minimize_space()
        elif k == 3:
            p.parallelize_pattern()
        elif k == 4:
            p = p.infer_pauli_measurements()
            p.perform_pauli_pushing() if hasattr(p, "perform_pauli_pushing") else None
        else:
            p.standardize()
    return p


def refuse(f):
    try:
        return f()
    except NotImplementedError:
        raise Discard from None


# ---------------------------------------------------------------- execution

class Party:
    def __init__(self, node):
        self.node = node
        self.inbox = {}  # volatile: sender -> outcome
        self.outcome = None  # durable
        self.done = False


def execute(ctx, needs, audience, act, what):
    """Message-passing execution.

    needs[v]: senders whose outcomes v waits for; audience[v]: parties v reports its outcome to;
    act(v, known): perform v's action, with the outcomes v received, and return v's outcome (None: v is an output).
    Returns the sequence of acting parties.
    """
    parties = {v: Party(v) for v in needs}
    net = Net(ctx, sorted(parties), ctx.int(0, 12))
    order = []

    def broadcast(v):
        for u in sorted(audience.get(v, ())):
            net.send(v, u, parties[v].outcome)

    def crash(v):
        if parties[v].inbox and not parties[v].done:
            ctx.probe("crash-redelivery")
        parties[v].inbox.clear()

    def restart(v):
        # recovery: re-announce the durable outcome, ask the senders to repeat theirs
        if parties[v].outcome is not None:
            broadcast(v)
        if not parties[v].done:
            for u in sorted(needs[v]):
                if parties[u].outcome is not None:
                    net.send(u, v, parties[u].outcome)

    healthy = False
    limit = 400 + 40 * len(parties) ** 2
    while not all(q.done for q in parties.values()):
        limit -= 1
        if limit < 0:
            waiting = {v: sorted(set(needs[v]) - set(q.inbox)) for v, q in parties.items() if not q.done}
            raise Violation("no-progress", f"{what}: execution does not complete; waiting {waiting}")
        if not healthy and ctx.flag(1, 3):
            if not net.faulty_step(crash, restart):
                healthy = True
                net.heal()
                for v in sorted(net.down):
                    net.down.discard(v)
                    restart(v)
            continue
        ready = [v for v, q in parties.items() if not q.done and v not in net.down and set(needs[v]) <= set(q.inbox)]
        dl = net.deliverable()
        if not ready and not dl:
            if not healthy and (net.down or net.blocked or net.lost or net.budget > 0):
                # nothing can happen before the faults end
                healthy = True
                net.heal()
                for v in sorted(net.down):
                    net.down.discard(v)
                    restart(v)
                continue
            waiting = {v: sorted(set(needs[v]) - set(q.inbox)) for v, q in parties.items() if not q.done}
            raise Violation("deadlock", f"{what}: no party can act and no message is in flight; waiting {waiting}")
        i = ctx.draw(len(ready) + len(dl))
        if i < len(ready):
            v = sorted(ready)[i]
            q = parties[v]
            q.outcome = act(v, q.inbox)
            q.done = True
            order.append(v)
            ctx.sched("act", v)
            if q.outcome is not None:
                broadcast(v)
        else:
            j = dl[i - len(ready)]
            if i - len(ready) > 0:
                ctx.fault("message-delayed")
            s, d, r = net.flight.pop(j)
            ctx.sched("deliver", s, d)
            if d in parties:
                prev = parties[d].inbox.get(s)
                if prev is not None and prev != r:
                    raise Violation("two-outcomes", f"{what}: {s} reported both outcomes")
                parties[d].inbox[s] = r
    return order


def same_branch(ctx, got, want, klass, msg):
    g, w = np.linalg.norm(got), np.linalg.norm(want)
    ctx.check(max(g, w) < 1e-7 or (abs(g - w) < 1e-6 * max(w, 1e-3) and close_up_to_phase(got, want)), klass,
              lambda: f"{msg()} (norms {g:.6g}, {w:.6g}; fidelity {fidelity(got, want) if g > 1e-9 and w > 1e-9 else 0:.6f})")


def reference(p, out):
    try:
        t, _ = ref.pattern_kraus(p, ref.scripted(out))
    except ref.RefError as e:
        raise Violation("not-runnable", f"{e}: {pattern_repr(p)}") from None
    return t


def check_layers(ctx, nodes, outs, layers, needs, what):
    """Partition, outputs first, every dependency strictly crosses layers towards the outputs."""
    class _G:
        pass

    g = _G()
    g.output_nodes = list(outs)
    g.graph = _G()
    g.graph.nodes = list(nodes)
    pb = flowref.layers_problem(g, layers)
    ctx.check(pb is None, "layers", lambda: f"{what}: {pb}: {layers}")
    lev = {n: i for i, lay in enumerate(layers) for n in lay}
    for v, ds in needs.items():
        for d in ds:
            ctx.check(lev[d] > lev[v], "layer-order", lambda: f"{what}: {v} (layer {lev[v]}) depends on {d} (layer {lev[d]}): {layers}")
    return lev


# ---------------------------------------------------------------- scenarios

def cmd_needs(cmds):
    needs = {}
    for c in cmds:
        k = c.kind.name
        if k == "M":
            needs.setdefault(c.node, set()).update(c.s_domain, c.t_domain)
        elif k in "XZ":
            needs.setdefault(c.node, set()).update(c.domain)
    return needs


def layered(ctx):
    """Parties follow the layers of the pattern, or only its domains once standardised."""
    p, src = draw_pattern(ctx)
    p = refuse(lambda: rewrite(ctx, p))
    ctx.describe(pattern_repr(p))
    meas = measured_nodes(p)
    try:
        layers = p.partial_order_layers()
        sp = StandardizedPattern.from_pattern(p)
    except NotImplementedError:
        raise Discard from None
    layers2 = sp.partial_order_layers()
    ctx.check([set(x) for x in layers] == [set(x) for x in layers2], "layers", "Pattern and StandardizedPattern give different layers")
    doms = {m.node: (set(m.s_domain), set(m.t_domain)) for m in sp.m_list}
    ctx.check(set(doms) == set(meas), "layers", "standardisation changes the measured nodes")
    allnodes = set(p.input_nodes) | {c.node for c in p if c.kind.name == "N"}
    mneeds = {v: s | t for v, (s, t) in doms.items()}
    what = f"layers of {pattern_repr(p)}"
    lev = check_layers(ctx, allnodes, p.output_nodes, layers, mneeds, what)
    # internal order behind the depth-first standardisation, when the code has it under this name
    order_of = getattr(p, "_measurement_order_depth", None)
    order = order_of() if order_of else [v for layer in layers[::-1] for v in sorted(layer) if v in mneeds]
    ctx.check(sorted(order) == sorted(meas) and all(lev[a] >= lev[b] for a, b in zip(order, order[1:])), "depth-order",
              lambda: f"{what}: measurement order {order}, layers {layers}")
    out = gen.outcomes(ctx, meas)
    x, z = {o: set() for o in p.output_nodes}, {o: set() for o in p.output_nodes}
    for o, d in sp.x_dict.items():
        x[o] ^= set(d)
    for o, d in sp.z_dict.items():
        z[o] ^= set(d)
    needs = {}
    if ctx.flag(1, 2):
        # barrier: wait for every outcome of the later-numbered (earlier measured) layers
        for v in allnodes:
            needs[v] = {u for u in meas if lev[u] > lev[v]}
        what += " (barrier)"
    else:
        for v in allnodes:
            needs[v] = set(mneeds[v]) if v in mneeds else x[v] | z[v]
    audience = {}
    for v, ds in needs.items():
        for d in ds:
            audience.setdefault(d, set()).add(v)
    bym = {m.node: m.measurement for m in sp.m_list}
    trace = []

    def act(v, known):
        def par(dom):
            return sum(known[d] for d in dom) & 1

        if v in bym:
            s, t = doms[v]
            trace.append(("M", v, par(s), par(t)))
            return out[v]
        trace.append(("O", v, par(x[v]), par(z[v])))
        return None

    execute(ctx, needs, audience, act, what)
    got = play(sp.n_list, sp.e_set, bym, sp.c_dict, p, trace, out)
    want = reference(p, out)
    ctx.log(src, [lev[v] for v in sorted(lev)], sorted(out.items()))
    same_branch(ctx, got, want, "different-result", lambda: f"{what}: execution {trace} on outcomes {out} differs from the sequential run")
    ctx.probe("layers")
    if len(meas) >= 2 and audience:
        ctx.nontrivial()


def play(n_list, e_set, bym, c_dict, p, trace, out):
    """Reference execution of the acts of the parties."""
    n = len(p.input_nodes)
    run = ref.RefRun(list(p.input_nodes), ref.identity_input(n), n)
    if n + len(n_list) + n > ref.MAX_SPACE:
        cmds = compile_trace(n_list, e_set, bym, c_dict, trace)
        t, _ = ref.pattern_kraus(p, ref.scripted(out), commands=cmds)
        return t
    for c in n_list:
        run.prep(c.node, ref.state_vec(c.state))
    for e in e_set:
        run.entangle(*tuple(e))
    for k, v, a, b in trace:
        if k == "M":
            x, y, zz = ref.meas_vector(bym[v])
            if a:
                y, zz = -y, -zz
            if b:
                x, y = -x, -y
            run.measure(v, (x, y, zz), out[v])
        else:
            if b:
                run.gate(v, ref.PZ)
            if a:
                run.gate(v, ref.PX)
            if v in c_dict:
                run.gate(v, ref.clifford_matrix(c_dict[v]))
    return run.tensor(list(p.output_nodes))


class _K:
    def __init__(self, name, **kw):
        self.kind = type("k", (), {"name": name})
        self.__dict__.update(kw)


def compile_trace(n_list, e_set, bym, c_dict, trace):
    """Plain commands (for the lazy reference execution) equivalent to the trace; corrections are already decided."""
    cmds = list(n_list) + [_K("E", nodes=tuple(e)) for e in e_set]
    for k, v, a, b in trace:
        if k == "M":
            if b:
                cmds.append(_Gate(v, ref.PZ))
            if a:
                cmds.append(_Gate(v, ref.PX))
            cmds.append(_K("M", node=v, measurement=bym[v], s_domain=set(), t_domain=set()))
        else:
            if b:
                cmds.append(_Gate(v, ref.PZ))
            if a:
                cmds.append(_Gate(v, ref.PX))
            if v in c_dict:
                cmds.append(_K("C", node=v, clifford=c_dict[v]))
    return cmds


def _Gate(v, u):
    return _K("C", node=v, clifford=Clifford.X if u is ref.PX else Clifford.Z)


def corrections(ctx):
    """Parties exchange correction toggles according to an XZCorrections object."""
    k = ctx.draw(4)
    det = None
    if k == 0:
        p, src = draw_pattern(ctx)
        p = refuse(lambda: rewrite(ctx, p))
        try:
            xz = p.to_xzcorrections()
        except NotImplementedError:
            raise Discard from None
        except ValueError:
            ctx.check(any(c.kind.name == "N" and c.state != BasicStates.PLUS for c in p), "refused",
                      lambda: f"corrections of {pattern_repr(p)} refused")
            raise Discard from None
        base = p
        ctx.probe("pattern-xz")
    elif k == 1:
        og = gen.open_graph(ctx, max_nodes=6, out_cliffords=True)
        rank = {v: i for i, v in enumerate(ctx.shuffle(sorted(og.measurements)))}
        xs, zs = {}, {}
        for d in (xs, zs):
            for v in rank:
                if ctx.flag(1, 2):
                    d[v] = set(ctx.subset([u for u in sorted(og.graph.nodes) if rank.get(u, 99) > rank[v]], 1, 2))
        xz = XZCorrections.from_measured_nodes_mapping(og, xs, zs)
        base = xz.to_pattern()
        ctx.probe("random-xz")
    else:
        og = gen.flow_open_graph(ctx, max_nodes=8, out_cliffords=True) if ctx.flag(2, 3) else gen.open_graph(ctx, max_nodes=7, out_cliffords=True)
        kind = ctx.pick(["pauli", "gflow", "causal"])
        if kind != "pauli":
            og = og.to_bloch()
        f = {"pauli": og.to_pauliflow_or_none, "gflow": og.to_gflow_or_none, "causal": og.to_causalflow_or_none}[kind]()
        if f is None:
            raise Discard
        xz = f.to_xzcorrections()
        if ctx.flag(1, 3):
            xz = XZCorrections.from_measured_nodes_mapping(og, xz.x_corrections, xz.z_corrections)
        base = xz.to_pattern()
        det = True
        ctx.probe("flow-xz")
    og = xz.og
    what = f"corrections x={dict(xz.x_corrections)} z={dict(xz.z_corrections)} of {og_repr(og)}"
    ctx.describe(what)
    xc, zc = xz.x_corrections, xz.z_corrections
    meas = sorted(og.measurements)
    needs = {v: set() for v in og.graph.nodes}
    xof, zof = {v: set() for v in og.graph.nodes}, {v: set() for v in og.graph.nodes}
    audience = {}
    for d, of in ((xc, xof), (zc, zof)):
        for v, us in d.items():
            for u in us:
                of[u].add(v)
                needs[u].add(v)
                audience.setdefault(v, set()).add(u)
    lev = check_layers(ctx, og.graph.nodes, og.output_nodes, xz.partial_order_layers, {v: d for v, d in needs.items()}, what)
    dag = xz.to_dag()
    ctx.check(set(dag.edges) == {(v, u) for v, us in audience.items() for u in us}, "dag",
              lambda: f"{what}: to_dag gives {sorted(dag.edges)}")
    order = xz.generate_total_measurement_order()
    ctx.check(flowref.layer_orders_ok(og, xz.partial_order_layers, list(order)), "total-order", lambda: f"{what}: total order {order}")
    ctx.check(bool(xz.is_compatible(order)), "total-order", "generated order is declared incompatible")
    if len(meas) >= 2 and ctx.flag(1, 2):
        # an order in which two parties, or one of them, act elsewhere
        other = list(order)
        i, j = ctx.shuffle(range(len(other)))[:2]
        if ctx.draw(2):
            other[i], other[j] = other[j], other[i]
        else:
            other.insert(j, other.pop(i))
        good = flowref.layer_orders_ok(og, xz.partial_order_layers, other)
        ctx.probe("altered-order-ok" if good else "altered-order-bad")
        ctx.check(bool(xz.is_compatible(other)) == good, "total-order", lambda: f"{what}: order {other} declared {'in' if good else ''}compatible with layers {xz.partial_order_layers}")
    barrier = ctx.flag(1, 3)
    if barrier:
        wait = {v: {u for u in meas if lev[u] > lev[v]} for v in og.graph.nodes}
        aud = {}
        for v, ds in wait.items():
            for d in ds:
                aud.setdefault(d, set()).add(v)
    else:
        wait, aud = needs, audience
    out = gen.outcomes(ctx, meas)
    trace = []

    def act(v, known):
        a = sum(known[d] for d in xof[v]) & 1
        b = sum(known[d] for d in zof[v]) & 1
        if v in og.measurements:
            trace.append(("M", v, a, b))
            return out[v]
        trace.append(("O", v, a, b))
        return None

    done = execute(ctx, wait, aud, act, what)
    n_list = [command.N(v) for v in og.graph.nodes if v not in set(og.input_nodes)]
    got = play(n_list, [tuple(e) for e in og.graph.edges], dict(og.measurements), dict(og.output_cliffords or {}), base, trace, out)
    want = reference(base, out)
    ctx.log(k, sorted(lev.items()), sorted(out.items()))
    same_branch(ctx, got, want, "different-result", lambda: f"{what}: execution {trace} on outcomes {out} differs from the sequential run of {pattern_repr(base)}")
    if det:
        exp = flowref.postselected(og)
        same_branch(ctx, got, exp, "not-deterministic", lambda: f"{what}: execution {trace} on outcomes {out} differs from the 0-branch")
    ctx.probe("corrections")
    morder = [v for v in done if v in og.measurements]
    if len(meas) >= 2 and audience:
        ctx.nontrivial()
    if len(og.graph.nodes) <= 9 and ctx.flag(1, 4):
        # the interleaving that happened, run by the real simulator
        x = {}
        for v, us in xc.items():
            for u in us:
                x.setdefault(u, set()).add(v)
        zd = {}
        for v, us in zc.items():
            for u in us:
                zd.setdefault(u, set()).add(v)
        cmds = list(n_list) + [command.E(tuple(e)) for e in og.graph.edges]
        cmds += [command.M(v, og.measurements[v], set(x.get(v, ())), set(zd.get(v, ()))) for v in morder]
        for o in og.output_nodes:
            cmds += [command.X(o, set(x.get(o, ()))), command.Z(o, set(zd.get(o, ())))]
            if o in (og.output_cliffords or {}):
                cmds.append(command.C(o, og.output_cliffords[o]))
        q = Pattern(input_nodes=og.input_nodes, cmds=cmds, output_nodes=og.output_nodes)
        real_run(ctx, q, want, out, what)


def real_run(ctx, q, want, out, what):
    inp, v = gen.input_state(ctx, len(q.input_nodes))
    e = want.reshape(-1, 2 ** len(q.input_nodes)) @ v.reshape(-1)
    if np.linalg.norm(e) ** 2 < 1e-6:
        return  # impossible history on this input
    st, res, sel = simulate(q, out, input_state=inp)
    if sel.taken != {k: out[k] for k in sel.taken}:
        return
    ctx.probe("real-simulator")
    ctx.check(res == out, "results", lambda: f"{what}: recorded outcomes {res}, scripted {out}")
    ctx.check(close_up_to_phase(vec(st), e), "different-result", lambda: f"{what}: the simulator gives another state for {pattern_repr(q)} on {out}")


def dataflow(ctx):
    """Commands fire as soon as their operands and outcomes are available, in any such order."""
    p, src = draw_pattern(ctx)
    p = refuse(lambda: rewrite(ctx, p))
    what = pattern_repr(p)
    ctx.describe(what)
    cmds = list(p)
    deps = ref.deps_of(cmds)
    done, order = set(), []
    while len(order) < len(cmds):
        ready = [i for i in range(len(cmds)) if i not in done and deps[i] <= done]
        i = ctx.pick(ready)
        ctx.sched(i)
        if i != ready[0]:
            ctx.fault("command-delayed")
        done.add(i)
        order.append(i)
    meas = measured_nodes(p)
    out = gen.outcomes(ctx, meas)
    q = Pattern(input_nodes=p.input_nodes, cmds=[cmds[i] for i in order], output_nodes=p.output_nodes)
    q.check_runnability()
    ctx.probe("dataflow")
    if len(meas) >= 2:
        ctx.nontrivial()
    want = reference(p, out)
    got = reference(q, out)
    ctx.log(src, order, sorted(out.items()))
    same_branch(ctx, got, want, "different-result", lambda: f"{pattern_repr(q)} differs from {what} on {out}")
    # declared information of the two orders agrees
    try:
        l1, l2 = p.partial_order_layers(), q.partial_order_layers()
        x1, x2 = StandardizedPattern.from_pattern(p), StandardizedPattern.from_pattern(q)
    except NotImplementedError:
        return
    d1 = {m.node: (frozenset(m.s_domain), frozenset(m.t_domain)) for m in x1.m_list}
    d2 = {m.node: (frozenset(m.s_domain), frozenset(m.t_domain)) for m in x2.m_list}
    allnodes = set(p.input_nodes) | {c.node for c in p if c.kind.name == "N"}
    check_layers(ctx, allnodes, q.output_nodes, l2, {v: s | t for v, (s, t) in d2.items()}, f"layers of {pattern_repr(q)}")
    if d1 == d2:
        ctx.check([set(x) for x in l1] == [set(x) for x in l2], "layers", lambda: f"layers depend on the order of independent commands: {l1} for {what}, {l2} for {pattern_repr(q)}")
    if ref.space_needed(list(q), len(q.input_nodes)) <= 9 and ctx.flag(1, 3):
        real_run(ctx, q, want, out, what)


SCENARIOS = [("layered", layered, 3), ("corrections", corrections, 4), ("dataflow", dataflow, 2)]
