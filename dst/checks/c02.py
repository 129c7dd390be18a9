"""C02: patterns derived from flows are deterministic on every outcome branch and measurement order."""

from __future__ import annotations

import numpy as np

from dst import flowref, gen, ref
from dst.core import Discard, Violation, close_up_to_phase, fidelity
from dst.gx import OpenGraph, measured_nodes, og_repr, pattern_repr, simulate, vec

from graphix.flow.core import CausalFlow, GFlow, PauliFlow, XZCorrections
from graphix.flow.exceptions import FlowError, XZCorrectionsError
from graphix.opengraph import OpenGraphError

LEVEL = "exploration"
QUICK_RUNS = 80000
THOROUGH_RUNS = 2500000
REAL = ["graphix.opengraph", "graphix.flow.core", "graphix.flow._find_cflow", "graphix.flow._find_gpflow", "graphix._linalg (uncompiled source)",
        "graphix.pattern", "graphix.simulator", "graphix.sim.statevec"]
STUB = ["branch selection (scripted outcome histories)", "measurement order (drawn by the simulator)"]
RULE = ("random and constructed open graphs (<=8 nodes, all measurement labels, output Cliffords), random flow kind, random "
        "compatible total order, 1-3 scripted outcome histories each; flow definitions re-checked independently; corrupted flows and "
        "orders must be refused; non-trivial = at least one measured node and one edge")
ASSUMPTIONS = ["post-selected all-0 map computed by dst/flowref.py is the meaning of an open graph", "open graphs of at most 8 nodes"]
REQUIRED_PROBES = ("causal", "gflow", "pauli", "pauli-measurement", "corrupt-refused", "order-refused", "anachronical")


def draw_og(ctx, **kw):
    if ctx.flag(1, 3):
        return gen.open_graph(ctx, out_cliffords=True, **kw)
    return gen.flow_open_graph(ctx, max_nodes=8, out_cliffords=True, **kw)


def find(ctx, og, which=None):
    """(kind, open graph used, flow or None)."""
    kind = which or ctx.pick(["pauli", "gflow", "causal"])
    if kind == "pauli":
        return kind, og, og.to_pauliflow_or_none()
    b = og.to_bloch()
    return kind, b, (b.to_gflow_or_none() if kind == "gflow" else b.to_causalflow_or_none())


def check_flow(ctx, og, kind, flow, what):
    p = flowref.flow_problem(og, kind, flow.correction_function, flow.partial_order_layers)
    ctx.check(p is None, "invalid-flow", lambda: f"{what} violates {p}: correction function {dict(flow.correction_function)}, layers {flow.partial_order_layers}; {og_repr(og)}")
    flow.check_well_formed()
    ctx.probe(kind)
    if any(len(flowref.label(m)) == 1 for m in og.measurements.values()):
        ctx.probe("pauli-measurement")


def check_branches(ctx, og, p, what, n=None):
    exp = flowref.postselected(og)
    ctx.check(list(p.input_nodes) == list(og.input_nodes) and list(p.output_nodes) == list(og.output_nodes), "interface",
              lambda: f"{what}: pattern interface differs: {pattern_repr(p)} from {og_repr(og)}")
    mnodes = measured_nodes(p)
    ctx.check(sorted(mnodes) == sorted(og.measurements), "interface", lambda: f"{what}: measured nodes differ: {pattern_repr(p)} from {og_repr(og)}")
    en = np.linalg.norm(exp)
    for _ in range(n or ctx.int(1, 3)):
        out = gen.outcomes(ctx, mnodes)
        ctx.sched(*[out[m] for m in mnodes])
        if any(out.values()):
            ctx.probe("outcome-one")
        try:
            got, _ = ref.pattern_kraus(p, ref.scripted(out))
        except ref.RefError as e:
            raise Violation("not-runnable", f"{what}: {e}: {pattern_repr(p)}") from None
        gn = np.linalg.norm(got)
        ctx.check(abs(gn - en) < 1e-6 * max(en, 1e-3), "not-uniform",
                  lambda: f"{what}: branch {out} has weight {gn**2:.6g}, expected {en**2:.6g}: {pattern_repr(p)}; {og_repr(og)}")
        ctx.check(close_up_to_phase(got, exp), "not-deterministic",
                  lambda: f"{what}: branch {out} differs (fidelity {fidelity(got, exp):.6f}): {pattern_repr(p)}; {og_repr(og)}")
    return mnodes


def branches(ctx):
    og = draw_og(ctx)
    ctx.describe(og_repr(og))
    og_key = og_repr(og)
    how = ctx.draw(3)
    if how == 0:
        try:
            p = og.to_pattern()
        except OpenGraphError:
            ctx.log("no flow")
            return
        used, what, order = og, "OpenGraph.to_pattern", None
        p.check_runnability()
        mn = check_branches(ctx, og, p, what)
    else:
        kind, used, flow = find(ctx, og)
        if flow is None:
            ctx.log("no flow")
            return
        what = f"{type(flow).__name__}"
        check_flow(ctx, used, kind, flow, what)
        xz = flow.to_xzcorrections()
        xz.check_well_formed()
        pb = flowref.layers_problem(used, xz.partial_order_layers)
        ctx.check(pb is None, "layers", lambda: f"{what}.to_xzcorrections: {pb}: {xz.partial_order_layers}; {og_repr(used)}")
        if how == 2:
            # dependency structure inferred from the corrections alone
            xz = XZCorrections.from_measured_nodes_mapping(used, xz.x_corrections, xz.z_corrections)
            what += "+from_measured_nodes_mapping"
            pb = flowref.layers_problem(used, xz.partial_order_layers)
            ctx.check(pb is None, "layers", lambda: f"{what}: {pb}: {xz.partial_order_layers}; {og_repr(used)}")
            xz.check_well_formed()
        if ctx.flag(2, 3):
            order = flowref.random_layer_order(ctx, used, xz.partial_order_layers)
            what += f" order={order}"
        else:
            order = None
        ctx.check(order is None or xz.is_compatible(order), "order-rejected", lambda: f"{what}: compatible order rejected: {og_repr(used)}")
        p = xz.to_pattern(order)
        p.check_runnability()
        if order is not None:
            ctx.check(measured_nodes(p) == order, "order-ignored", lambda: f"{what}: pattern measures {measured_nodes(p)}")
            ctx.sched(*order)
        mn = check_branches(ctx, used, p, what)
        if kind == "pauli":
            future = {}
            lev = {n: i for i, lay in enumerate(flow.partial_order_layers) for n in lay}
            if any(lev[j] >= lev[i] and j != i for i, s in flow.correction_function.items() for j in s):
                ctx.probe("anachronical")
        # flows rebuilt from the corrections
        if ctx.flag(1, 2):
            rebuild(ctx, used, kind, xz, what)
    ctx.log(what, og_repr(og))
    ctx.check(og_repr(og) == og_key, "source-mutated", "open graph changed")
    if mn and og.graph.edges:
        ctx.nontrivial()
    # one run on the real simulator
    if ref.space_needed(list(p), len(p.input_nodes)) <= 9 and ctx.flag(1, 2):
        inp, v = gen.input_state(ctx, len(p.input_nodes))
        out = gen.outcomes(ctx, mn)
        st, res, sel = simulate(p, out, input_state=inp)
        ctx.check(all(abs(sel.p0[m] - 0.5) < 1e-6 for m in mn), "not-uniform", lambda: f"{what}: simulator offers probabilities {sel.p0}; {pattern_repr(p)}")
        exp = flowref.postselected(used)
        nin = len(p.input_nodes)
        e = exp.reshape(-1, 2**nin) @ v.reshape(-1)
        ctx.check(close_up_to_phase(vec(st), e), "not-deterministic", lambda: f"{what}: simulated state differs on {out}: {pattern_repr(p)}")


def rebuild(ctx, og, kind, xz, what):
    """XZ-corrections of a flow give back a flow of that kind with the same corrections."""
    f = {"causal": xz.to_causalflow, "gflow": xz.to_gflow, "pauli": xz.to_pauliflow}[kind]()
    check_flow(ctx, og, kind, f, f"{what} rebuilt from corrections")
    x2 = f.to_xzcorrections()
    ctx.check(_nz(x2.x_corrections) == _nz(xz.x_corrections) and _nz(x2.z_corrections) == _nz(xz.z_corrections), "rebuilt-corrections",
              lambda: f"{what}: rebuilt flow has other corrections: {og_repr(og)}")


def _nz(d):
    return {k: frozenset(v) for k, v in d.items() if v}


def corrupt_flow(ctx):
    """A corrupted flow is refused exactly when it violates the definition; an accepted one compiles correctly."""
    og = draw_og(ctx)
    kind, used, flow = find(ctx, og)
    if flow is None or not flow.correction_function:
        raise Discard
    func = {k: set(v) for k, v in flow.correction_function.items()}
    layers = [set(x) for x in flow.partial_order_layers]
    nodes = sorted(used.graph.nodes)
    nmut = ctx.int(1, 2)
    muts = []
    for _ in range(nmut):
        k = ctx.draw(8)
        muts.append(k)
        if k <= 1:
            i = ctx.pick(sorted(func))
            func[i] = func[i] ^ {ctx.pick(nodes)}
        elif k == 2:
            i, j = ctx.pick(sorted(func)), ctx.pick(sorted(func))
            func[i], func[j] = func[j], func[i]
        elif k == 3:
            v = ctx.pick(nodes)
            for lay in layers:
                lay.discard(v)
            layers[ctx.draw(len(layers))].add(v) if layers else None
            layers = [x for x in layers if x]
        elif k == 4:
            layers = ctx.shuffle(layers)
        elif k == 5:
            a = ctx.draw(max(1, len(layers) - 1))
            layers[a:a + 2] = [set().union(*layers[a:a + 2])]
        elif k == 6:
            j = ctx.draw(4)
            if j == 0:
                layers.insert(ctx.draw(len(layers) + 1), set())
            elif j == 1:
                layers[ctx.draw(len(layers))].add(ctx.pick(nodes))
            elif j == 2 and layers[0]:
                lay = ctx.pick([x for x in layers if x])
                lay.discard(sorted(lay)[0])
            elif j == 3:
                del layers[ctx.draw(len(layers))]
        elif k == 7:
            j = ctx.draw(2)
            if j == 0 and len(func) > 0:
                del func[ctx.pick(sorted(func))]
            elif used.output_nodes:
                func[ctx.pick(list(used.output_nodes))] = {ctx.pick(nodes)}
        if not func or not layers:
            break
    cls = {"pauli": PauliFlow, "gflow": GFlow, "causal": CausalFlow}[kind]
    bad = cls(used, func, layers)
    problem = flowref.flow_problem(used, kind, func, layers)
    ctx.describe(f"{kind} {func} {layers} {og_repr(used)}")
    ctx.log(kind, muts, str(problem), og_repr(used))
    ctx.nontrivial()
    ctx.fault("corrupt-flow", nmut)
    try:
        bad.check_well_formed()
        ok = True
    except FlowError:
        ok = False
    ctx.check(ok == (problem is None), "well-formedness",
              lambda: f"check_well_formed {'accepts' if ok else 'rejects'} a {kind} flow that {'violates ' + problem if problem else 'satisfies the definition'}: "
                      f"{func} {layers} {og_repr(used)}")
    ctx.check(bad.is_well_formed() == ok, "well-formedness", "is_well_formed disagrees with check_well_formed")
    if not ok:
        ctx.probe("corrupt-refused")
        return
    ctx.probe("corrupt-still-valid")
    xz = bad.to_xzcorrections()
    p = xz.to_pattern(flowref.random_layer_order(ctx, used, xz.partial_order_layers))
    p.check_runnability()
    check_branches(ctx, used, p, f"altered {kind} flow")


def orders(ctx):
    """Requested measurement orders are honoured when compatible and refused when not."""
    og = draw_og(ctx)
    kind, used, flow = find(ctx, og)
    if flow is None:
        raise Discard
    xz = flow.to_xzcorrections()
    base = flowref.random_layer_order(ctx, used, xz.partial_order_layers)
    order = list(base)
    nodes = sorted(used.graph.nodes)
    k = ctx.draw(6)
    if k == 0 and len(order) >= 2:
        i, j = ctx.draw(len(order)), ctx.draw(len(order))
        order[i], order[j] = order[j], order[i]
    elif k == 1 and order:
        v = order.pop(ctx.draw(len(order)))
        order.insert(ctx.draw(len(order) + 1), v)
    elif k == 2 and order:
        del order[ctx.draw(len(order))]
    elif k == 3 and nodes:
        order.insert(ctx.draw(len(order) + 1), ctx.pick(nodes))
    elif k == 4:
        order = ctx.shuffle(order)
    elif k == 5 and order:
        order[ctx.draw(len(order))] = ctx.pick(nodes + [max(nodes) + 1])
    ctx.fault("altered-order")
    good = flowref.layer_orders_ok(used, xz.partial_order_layers, order)
    ctx.describe(f"{kind} order {order} layers {xz.partial_order_layers} {og_repr(used)}")
    ctx.log(kind, order, good)
    ctx.nontrivial()
    ok = xz.is_compatible(order)
    ctx.check(ok == good, "order-compatibility", lambda: f"is_compatible({order}) is {ok}, layers {xz.partial_order_layers}")
    try:
        p = xz.to_pattern(order)
    except XZCorrectionsError:
        ctx.check(not good, "order-rejected", lambda: f"compatible order {order} refused, layers {xz.partial_order_layers}")
        ctx.probe("order-refused")
        return
    ctx.check(good, "order-accepted", lambda: f"incompatible order {order} compiled, layers {xz.partial_order_layers}")
    ctx.check(measured_nodes(p) == order, "order-ignored", lambda: f"pattern measures {measured_nodes(p)}, requested {order}")
    check_branches(ctx, used, p, f"{kind} order {order}", n=1)


def corrections(ctx):
    """User-supplied corrections: refused exactly when ill-formed, else layered consistently with their dependencies."""
    og = gen.open_graph(ctx, max_nodes=6)
    if not og.measurements:
        raise Discard
    meas, nodes = sorted(og.measurements), sorted(og.graph.nodes)
    cand = nodes + ([max(nodes) + 1] if ctx.flag(1, 6) else [])
    keys = meas if not ctx.flag(1, 6) else cand
    style = ctx.draw(2)
    rank = {v: i for i, v in enumerate(ctx.shuffle(meas))}
    xs, zs = {}, {}
    for d in (xs, zs):
        for v in keys:
            if ctx.flag(1, 2):
                if style == 0:
                    tgt = [u for u in cand if rank.get(u, 99) > rank.get(v, -1)]
                else:
                    tgt = cand
                s = set(ctx.subset(tgt, 1, 3))
                if s or ctx.flag(1, 4):
                    d[v] = s
    adj = {}
    for d in (xs, zs):
        for v, s in d.items():
            adj.setdefault(v, set()).update(s)
    bad = None
    if not set(xs) | set(zs) <= set(meas):
        bad = "keys"
    elif not {u for s in adj.values() for u in s} <= set(nodes):
        bad = "values"
    elif _cyclic(adj):
        bad = "cycle"
    ctx.describe(f"x={xs} z={zs} {og_repr(og)}")
    ctx.log(xs, zs, str(bad))
    if xs or zs:
        ctx.nontrivial()
    try:
        xz = XZCorrections.from_measured_nodes_mapping(og, xs, zs)
    except XZCorrectionsError:
        ctx.check(bad is not None, "corrections-rejected", lambda: f"well-formed corrections refused x={xs} z={zs}; {og_repr(og)}")
        ctx.probe("corrections-refused")
        return
    ctx.check(bad is None, "corrections-accepted", lambda: f"ill-formed corrections ({bad}) accepted x={xs} z={zs}; {og_repr(og)}")
    pb = flowref.layers_problem(og, xz.partial_order_layers)
    lev = {n: i for i, lay in enumerate(xz.partial_order_layers) for n in lay}
    if pb is None:
        for v, s in adj.items():
            if any(lev[u] >= lev[v] for u in s):
                pb = f"correction from {v} to {s} does not go forward"
    ctx.check(pb is None, "layers", lambda: f"{pb}: layers {xz.partial_order_layers} x={xs} z={zs}; {og_repr(og)}")
    xz.check_well_formed()
    p = xz.to_pattern(flowref.random_layer_order(ctx, og, xz.partial_order_layers))
    try:
        live = ref.check_order(list(p), p.input_nodes)
    except ref.RefError as e:
        raise Violation("not-runnable", f"{e}: {pattern_repr(p)}") from None
    # the pattern applies exactly the requested corrections
    got_x, got_z = {}, {}
    for c in p:
        if c.kind.name in "XZ":
            for d in c.domain:
                (got_x if c.kind.name == "X" else got_z).setdefault(d, set()).__ixor__({c.node})
        elif c.kind.name == "M":
            for dom, g in ((c.s_domain, got_x), (c.t_domain, got_z)):
                for d in dom:
                    g.setdefault(d, set()).__ixor__({c.node})
    ctx.check(_nz(got_x) == _nz(xs) and _nz(got_z) == _nz(zs), "corrections-lost", lambda: f"pattern corrections x={got_x} z={got_z} requested x={xs} z={zs}")


def _cyclic(adj):
    state = {}

    def visit(v):
        state[v] = 1
        for u in adj.get(v, ()):
            if state.get(u) == 1 or (u not in state and visit(u)):
                return True
        state[v] = 2
        return False

    return any(v not in state and visit(v) for v in list(adj))


SCENARIOS = [("branches", branches, 6), ("corrupt_flow", corrupt_flow, 3), ("orders", orders, 2), ("corrections", corrections, 1)]
