"""C15: ill-formed patterns are refused; resource metrics match the observed execution."""

from __future__ import annotations

import re
import warnings

import numpy as np

from dst import gen, ref
from dst.core import Discard, Violation, close_up_to_phase, fidelity
from dst.gx import (
    CLIFFORDS, BasicStates, Clifford, DefaultMeasureMethod, DensityMatrixBackend, Pattern, PatternSimulator, ScriptSelector, StatevectorBackend, command,
    measured_nodes, pattern_key, pattern_repr, vec,
)

from graphix.optimization import StandardizedPattern
from graphix.pattern import RunnabilityError
from graphix.sim.tensornet import TensorNetworkBackend
from graphix.simulator import DefaultPrepareMethod

LEVEL = "exploration"
QUICK_RUNS = 60000
THOROUGH_RUNS = 1500000
REAL = ["graphix.pattern", "graphix.optimization", "graphix.space_minimization", "graphix.simulator", "graphix.sim.statevec", "graphix.sim.density_matrix",
        "graphix.sim.tensornet", "graphix.opengraph"]
STUB = ["branch selection (scripted outcome histories)", "recording preparation and measurement devices and backends (dst/checks/c15.py)"]
RULE = ("random runnable patterns (<=7 nodes, all commands) executed on recording backends on scripted branches and compared with every reported metric; the same "
        "patterns with 1-3 faults in the command sequence (dropped, duplicated, moved, exchanged, retargeted commands, domains extended by future, unknown or own "
        "outcomes, truncation, altered inputs), judged by an independent runnability automaton; measurement layers executed round by round in drawn order; space "
        "minimisation compared with the exact optimum; non-trivial = at least three commands")
ASSUMPTIONS = ["patterns of at most 7 nodes", "S commands (internal to signal shifting) and duplicated input nodes are outside the explored inputs"]
REQUIRED_PROBES = ("accepted-corrupted", "refused", "AlreadyActive", "AlreadyMeasured", "NotYetActive", "NotYetMeasured", "DomainSelfLoop", "EdgeSelfLoop",
                   "depth", "space-optimal", "ran-statevector", "ran-densitymatrix", "ran-tensornetwork")


# ------------------------------------------------------------------ reference automaton

def problems(p):
    """List of (index, cmd, node, reason) for every command that misuses a node or an outcome (first offending command only)."""
    live = set(p.input_nodes)
    done = set()
    for i, c in enumerate(p):
        k = c.kind.name
        bad = []
        if k == "N":
            if c.node in live:
                bad.append((c.node, "AlreadyActive"))
            elif c.node in done:
                bad.append((c.node, "AlreadyMeasured"))
            if not bad:
                live.add(c.node)
        elif k in ("E", "M", "X", "Z", "C"):
            for n in (c.nodes if k == "E" else (c.node,)):
                if n in done:
                    bad.append((n, "AlreadyMeasured"))
                elif n not in live:
                    bad.append((n, "NotYetActive"))
            if k == "E" and c.nodes[0] == c.nodes[1]:
                bad.append((c.nodes[0], "EdgeSelfLoop"))
            dom = set(c.s_domain) | set(c.t_domain) if k == "M" else set(c.domain) if k in "XZ" else set()
            for n in dom:
                if k == "M" and n == c.node:
                    bad += [(n, "DomainSelfLoop"), (n, "NotYetMeasured")]
                elif n not in done:
                    bad.append((n, "NotYetMeasured"))
            if k == "M" and not bad:
                live.discard(c.node)
                done.add(c.node)
        if bad:
            return i, c, bad
    return None


# ------------------------------------------------------------------ recording execution

class Log:
    def __init__(self):
        self.events = []  # (kind, nodes, live nodes after)


def recorder(base, log):
    class Rec(base):
        def add_nodes(self, nodes, data=BasicStates.PLUS):
            super().add_nodes(nodes, data)
            log.events.append(("N", tuple(nodes), self.nqubit))

        def entangle_nodes(self, edge):
            super().entangle_nodes(edge)
            log.events.append(("E", tuple(edge), self.nqubit))

        def measure(self, node, measurement, rng=None, *, stacklevel=1):
            r = super().measure(node, measurement, rng, stacklevel=stacklevel + 1)
            log.events.append(("M", (node,), self.nqubit))
            return r

        def correct_byproduct(self, cmd):
            super().correct_byproduct(cmd)
            log.events.append((cmd.kind.name, (cmd.node,), self.nqubit))

        def apply_clifford(self, node, clifford):
            super().apply_clifford(node, clifford)
            log.events.append(("C", (node,), self.nqubit))

    return Rec


class CountingPrepare(DefaultPrepareMethod):
    n = 0

    def prepare(self, backend, cmd, rng=None):
        self.n += 1
        super().prepare(backend, cmd, rng=rng)


class CountingMeasure(DefaultMeasureMethod):
    n = 0

    def measure(self, backend, cmd, noise_model=None, rng=None, *, stacklevel=1):
        self.n += 1
        super().measure(backend, cmd, noise_model=noise_model, rng=rng, stacklevel=stacklevel + 1)


def observed(ctx, p, outcomes, which):
    """Execute on a recording dense backend; (events, space at each N or M including the inputs, results)."""
    log = Log()
    sel = ScriptSelector(outcomes)
    if which == "statevector":
        cap = p.max_space()
        b = recorder(StatevectorBackend, log).with_capacity(cap, branch_selector=sel)
    else:
        b = recorder(DensityMatrixBackend, log)(branch_selector=sel)
    mm = CountingMeasure()
    sim = PatternSimulator(p, b, measure_method=mm, prepare_method=CountingPrepare())
    sim.run(rng=np.random.default_rng(0))
    ctx.probe(f"ran-{which}")
    return log.events, dict(mm.results), sel, sim


# ------------------------------------------------------------------ scenarios

def check_metrics(ctx, p, outcomes, which):
    what = f"on {which}, branch {outcomes}: {pattern_repr(p)}"
    try:
        ev, res, sel, sim = observed(ctx, p, outcomes, which)
    except (Discard, Violation):
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation("accepted-but-failed", f"accepted pattern failed with {type(e).__name__}: {e} {what}") from e
    nin = len(p.input_nodes)
    # inputs are added in one event
    if ev and nin:
        ctx.check(ev[0][0] == "N" and list(ev[0][1]) == list(p.input_nodes), "execution", lambda: f"inputs not prepared first {what}: {ev[:2]}")
    body = ev[1:] if ev and ev[0][0] == "N" and len(ev[0][1]) == nin and nin != 1 or (nin == 1 and ev) else ev
    if nin == 0 and ev and ev[0][1] == ():
        body = ev[1:]
    live0 = nin
    space = [n for k, _, n in body if k in "NM"]
    got = p.space_list()
    ctx.check(list(got) == space, "space-list", lambda: f"space_list() = {got}, execution used {space} {what}")
    peak = max([live0, *space])
    ctx.check(p.max_space() == peak, "max-space", lambda: f"max_space() = {p.max_space()}, execution used {peak} {what}")
    meas = [ns[0] for k, ns, _ in body if k == "M"]
    ctx.check(meas == list(p.measurement_commands()), "measured", lambda: f"measurement_commands {list(p.measurement_commands())}, execution measured {meas} {what}")
    prepared = [ns[0] for k, ns, _ in body if k == "N"]
    ctx.check(set(p.nodes()) == set(p.input_nodes) | set(prepared), "nodes", lambda: f"nodes() = {p.nodes()} {what}")
    ctx.check(p.n_node == nin + len(prepared), "n-node", lambda: f"n_node = {p.n_node}, execution used {nin + len(prepared)} {what}")
    ctx.check(set(res) == set(meas), "measured", lambda: f"outcomes of {sorted(res)} {what}")
    ctx.check(set(sim.backend.node_index) == set(p.output_nodes) and sim.backend.nqubit == len(p.output_nodes), "outputs",
              lambda: f"execution leaves {list(sim.backend.node_index)} {what}")
    # corrections are applied exactly where the parity of known outcomes is odd
    corr = [(k, ns[0]) for k, ns, _ in body if k in "XZ"]
    seen = {}
    want = []
    for c in p:
        if c.kind.name == "M":
            seen[c.node] = res[c.node]
        elif c.kind.name in "XZ" and sum(seen[d] for d in c.domain) % 2:
            want.append((c.kind.name, c.node))
    ctx.check(corr == want, "corrections", lambda: f"execution applied {corr}, expected {want} {what}")
    edges = set()
    for k, ns, _ in body:
        if k == "E":
            edges ^= {frozenset(ns)}
    check_graph(ctx, p, edges, what)


def check_graph(ctx, p, edges, what):
    nb = {n: set() for n in p.nodes()}
    for e in edges:
        a, b = tuple(e)
        nb[a].add(b)
        nb[b].add(a)
    if p.is_standard():
        cc = p.correction_commands()
        exp = [c for c in p if c.kind.name in "XZ"]
        ctx.check(list(cc) == exp, "corrections", lambda: f"correction_commands() = {cc} {what}")
    cl = [c for c in p if c.kind.name == "C"]
    if len({c.node for c in cl}) == len(cl):
        ctx.check(p.clifford_commands() == {c.node: c.clifford for c in cl}, "cliffords", lambda: f"clifford_commands() = {p.clifford_commands()} {what}")
    try:
        std = StandardizedPattern.from_pattern(p)
    except NotImplementedError:
        return
    g = std.graph()
    ge = {frozenset(e) for e in g.edges}
    ctx.check(set(g.nodes) == p.nodes() and ge == edges, "graph", lambda: f"graph edges {sorted(map(sorted, ge))}, executed {sorted(map(sorted, edges))} {what}")
    n = ctx.pick(sorted(nb)) if nb else None
    if n is not None:
        prep = set(ctx.subset(sorted(nb)))
        got = p.connected_nodes(n, prep)
        ctx.check(sorted(got) == sorted(nb[n] - prep), "connected", lambda: f"connected_nodes({n}, {prep}) = {got}, entangled with {nb[n]} {what}")
        got = p.connected_nodes(n)
        ctx.check(sorted(got) == sorted(nb[n]), "connected", lambda: f"connected_nodes({n}) = {got}, entangled with {nb[n]} {what}")
    try:
        og = p.to_opengraph()
    except ValueError:
        ctx.check(any(c.kind.name == "N" and c.state != BasicStates.PLUS for c in p), "graph", lambda: f"open graph refused {what}")
        return
    ctx.check({frozenset(e) for e in og.graph.edges} == edges and set(og.graph.nodes) == set(nb), "graph", lambda: f"open graph differs from execution {what}")
    deg = max((len(x) for x in nb.values()), default=0)
    ctx.check(p.max_degree() == deg, "degree", lambda: f"max_degree() = {p.max_degree()}, executed {deg} {what}")
    iso = {n for n, x in nb.items() if not x}
    ctx.check(set(p.isolated_nodes()) == iso, "isolated", lambda: f"isolated_nodes() = {p.isolated_nodes()}, executed {iso} {what}")


def draw_pattern(ctx, **kw):
    k = ctx.draw(4)
    if k == 0:
        c = gen.circuit(ctx, max_width=2, max_depth=3, ccx=False)
        p = c.transpile().pattern
        if p.n_node > 9:
            raise Discard
        return p
    return gen.general_pattern(ctx, max_nodes=7, e_after_c=k == 3, states=k != 1, **kw)


def standard_form(ctx, p):
    """Both standard forms, read off the kinds of the commands in their order; also of lists close to either form."""
    cmds = list(p)
    if ctx.flag(1, 2):
        cmds.sort(key=lambda c: min("NEMX".find(c.kind.name) % 4, 3))
        tail = [c for c in cmds if c.kind.name in "XZC"]
        tail = ctx.shuffle(tail) if ctx.flag(1, 2) else sorted(tail, key=lambda c: c.kind.name == "C")
        cmds[len(cmds) - len(tail):] = tail
        if len(cmds) > 1 and ctx.flag(1, 3):
            i = ctx.draw(len(cmds) - 1)
            if {cmds[i].kind.name, cmds[i + 1].kind.name} != {"N", "M"}:  # a node is not measured before it exists
                cmds[i], cmds[i + 1] = cmds[i + 1], cmds[i]
    q = Pattern(input_nodes=p.input_nodes, cmds=cmds)
    kinds = "".join(c.kind.name for c in cmds)
    for strict, form in ((False, "N*E*M*[XZC]*"), (True, "N*E*M*[XZ]*C*")):
        want = re.fullmatch(form, kinds) is not None
        ctx.check(q.is_standard(strict=strict) is want, "standard-form", lambda: f"is_standard(strict={strict}) is {not want} for {kinds}")


def metrics(ctx):
    p = draw_pattern(ctx)
    ctx.describe(pattern_repr(p))
    standard_form(ctx, p)
    if p.max_space() > 7:
        raise Discard
    key = pattern_key(p)
    p.check_runnability()
    pr = problems(p)
    if pr is not None:
        raise Violation("harness", f"generator produced an ill-formed pattern {pr}")
    which = ctx.weighted([("statevector", 4), ("densitymatrix", 2)]) if p.max_space() <= 4 else "statevector"
    for _ in range(1 + ctx.draw(2)):
        out = gen.outcomes(ctx, measured_nodes(p))
        ctx.sched(*out.values())
        check_metrics(ctx, p, out, which)
    ctx.check(pattern_key(p) == key, "mutated", lambda: f"queries or execution changed the pattern {pattern_repr(p)}")
    if len(p) >= 3:
        ctx.nontrivial()
    ctx.log(which, len(p))


def corrupt(ctx, p):
    cmds = list(p)
    inputs = list(p.input_nodes)
    nodes = sorted(p.nodes()) or [0]
    n = 1 + ctx.draw(3)
    for _ in range(n):
        kinds = ["drop", "duplicate", "move", "exchange", "retarget", "domain", "insert", "truncate", "input"]
        k = ctx.pick(kinds)
        i = ctx.draw(len(cmds)) if cmds else None
        if k in ("drop", "duplicate", "move", "exchange", "retarget", "domain", "truncate") and i is None:
            continue
        if k == "drop":
            del cmds[i]
        elif k == "duplicate":
            cmds.insert(ctx.draw(len(cmds) + 1), cmds[i])
        elif k == "move":
            c = cmds.pop(i)
            cmds.insert(ctx.draw(len(cmds) + 1), c)
        elif k == "exchange":
            j = ctx.draw(len(cmds))
            cmds[i], cmds[j] = cmds[j], cmds[i]
        elif k == "retarget":
            c = cmds[i]
            t = ctx.pick([*nodes, 97])
            kk = c.kind.name
            if kk == "E":
                cmds[i] = command.E((t, c.nodes[1])) if ctx.flag(1, 2) else command.E((c.nodes[0], t))
            elif kk == "N":
                cmds[i] = command.N(t, c.state)
            elif kk == "M":
                cmds[i] = command.M(t, c.measurement, set(c.s_domain), set(c.t_domain))
            elif kk in "XZ":
                cmds[i] = type(c)(t, set(c.domain))
            elif kk == "C":
                cmds[i] = command.C(t, c.clifford)
        elif k == "domain":
            idx = [j for j, c in enumerate(cmds) if c.kind.name in ("M", "X", "Z")]
            if not idx:
                continue
            i = ctx.pick(idx)
            c = cmds[i]
            t = ctx.pick([c.node, *nodes, 97])
            if c.kind.name == "M":
                if ctx.flag(1, 2):
                    cmds[i] = command.M(c.node, c.measurement, set(c.s_domain) ^ {t}, set(c.t_domain))
                else:
                    cmds[i] = command.M(c.node, c.measurement, set(c.s_domain), set(c.t_domain) ^ {t})
            else:
                cmds[i] = type(c)(c.node, set(c.domain) ^ {t})
        elif k == "insert":
            t = ctx.pick([*nodes, 97])
            new = ctx.pick([command.N(t), command.C(t, ctx.pick(CLIFFORDS)), command.X(t, set()), command.Z(t, {ctx.pick(nodes)}), command.E((t, ctx.pick(nodes))), command.M(t)])
            cmds.insert(ctx.draw(len(cmds) + 1), new)
        elif k == "truncate":
            del cmds[i:]
        elif k == "input":
            t = ctx.pick([*nodes, 97])
            inputs = [x for x in inputs if x != t] if t in inputs else [*inputs, t]
        ctx.fault(f"cmd-{k}")
    return Pattern(input_nodes=inputs, cmds=cmds)


def refused(ctx, what, f):
    try:
        r = f()
    except RunnabilityError as e:
        return e
    except Exception as e:  # noqa: BLE001
        raise Violation("refused-late", f"{what} fails with {type(e).__name__}: {e} instead of a runnability error") from e
    raise Violation("ill-formed-accepted", f"{what} accepted: {r!r}"[:600])


def corrupted(ctx):
    p = corrupt(ctx, draw_pattern(ctx))
    if len(set(p.input_nodes)) != len(p.input_nodes):
        raise Discard
    ctx.describe(pattern_repr(p))
    pr = problems(p)
    rep = pattern_repr(p)
    if len(p) >= 3:
        ctx.nontrivial()
    ctx.log(rep, str(pr))
    if pr is None:
        ctx.probe("accepted-corrupted")
        try:
            p.check_runnability()
        except RunnabilityError as e:
            raise Violation("well-formed-refused", f"runnable pattern refused: {e}: {rep}") from None
        if p.max_space() <= 6 and p.n_node <= 10:
            which = ctx.weighted([("statevector", 4), ("densitymatrix", 2)]) if p.max_space() <= 4 else "statevector"
            out = gen.outcomes(ctx, measured_nodes(p))
            check_metrics(ctx, p, out, which)
        return
    idx, cmd, bad = pr
    e = refused(ctx, f"check_runnability of {rep}", p.check_runnability)
    ctx.check(e.cmd == cmd and (e.node, e.reason.name) in bad, "wrong-reason",
              lambda: f"refused because of {e.cmd} node {e.node} {e.reason.name}; first offending command is {cmd} with {bad}: {rep}")
    ctx.check(str(e.node) in str(e), "wrong-reason", lambda: f"message {e} does not name node {e.node}")
    ctx.probe(e.reason.name)
    ctx.probe("refused")
    # nothing runs
    key = pattern_key(p)
    k = ctx.pick(["statevector", "densitymatrix", "tensornetwork", "backend", "standardize", "std", "layers", "opengraph", "shift", "parallelize", "minimize"])
    if k in ("statevector", "densitymatrix", "tensornetwork"):
        sel = ScriptSelector({})
        pm, mm = CountingPrepare(), CountingMeasure()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            refused(ctx, f"simulate({k}) of {rep}", lambda: p.simulate(k, branch_selector=sel, prepare_method=pm, measure_method=mm, rng=np.random.default_rng(0)))
        ctx.check(not pm.n and not mm.n and not sel.order, "ran-before-refusal", lambda: f"simulate({k}) prepared {pm.n} and measured {mm.n} nodes before refusing {rep}")
    elif k == "backend":
        log = Log()
        b = recorder(StatevectorBackend, log)(branch_selector=ScriptSelector({}))
        sim = PatternSimulator(p, b)
        refused(ctx, f"run of {rep}", lambda: sim.run(rng=np.random.default_rng(0)))
        ctx.check(not log.events and b.nqubit == 0, "ran-before-refusal", lambda: f"run did {log.events} before refusing {rep}")
    else:
        f = {"standardize": p.standardize, "std": lambda: StandardizedPattern.from_pattern(p), "layers": p.partial_order_layers, "opengraph": p.to_opengraph,
             "shift": p.shift_signals, "parallelize": p.parallelize_pattern, "minimize": p.minimize_space}[k]
        if k == "parallelize" and p.is_standard() and not p.measurement_commands():
            return
        refused(ctx, f"{k} of {rep}", f)
    ctx.check(pattern_key(p) == key, "mutated", lambda: f"{k} changed the refused pattern {rep} into {pattern_repr(p)}")


def tensornet(ctx):
    """Accepted patterns run to completion on the tensor-network backend too."""
    p = draw_pattern(ctx, max_ops=14)
    ctx.describe(pattern_repr(p))
    if p.n_node > 7:
        raise Discard
    if ctx.flag(1, 3):
        p = corrupt(ctx, p)
        if problems(p) is not None or p.n_node > 7:
            raise Discard
    p.check_runnability()
    out = gen.outcomes(ctx, measured_nodes(p))
    ctx.sched(*out.values())
    mm = CountingMeasure()
    try:
        p.simulate("tensornetwork", branch_selector=ScriptSelector(out), graph_prep="sequential", measure_method=mm, rng=np.random.default_rng(0))
    except (NotImplementedError, ValueError) as e:
        # the graph queries of this backend refuse Cliffords before entanglement and states other than |+>
        ok = any(c.kind.name == "C" for c in p) if isinstance(e, NotImplementedError) else any(c.kind.name == "N" and c.state != BasicStates.PLUS for c in p)
        ctx.check(ok, "accepted-but-failed", lambda: f"accepted pattern failed with {type(e).__name__}: {e}: {pattern_repr(p)}")
        ctx.log("refused")
        return
    ctx.check(mm.n == len(measured_nodes(p)) and set(mm.results) == set(measured_nodes(p)), "measured", lambda: f"{mm.n} measurements, outcomes {mm.results}: {pattern_repr(p)}")
    ctx.probe("ran-tensornetwork")
    if len(p) >= 3:
        ctx.nontrivial()
    ctx.log("ran", len(p))


def depth(ctx):
    """Measurement layers: a device that measures each layer at once finishes in as many rounds as there are layers."""
    p = draw_pattern(ctx)
    ctx.describe(pattern_repr(p))
    if p.max_space() > 8:
        raise Discard
    try:
        std = StandardizedPattern.from_pattern(p)
    except NotImplementedError:
        raise Discard from None
    layers = [set(x) for x in p.partial_order_layers()]
    outs = set(p.output_nodes)
    rest = layers
    if outs:
        ctx.check(layers and layers[0] == outs, "layers", lambda: f"layers {layers} do not start with the outputs {outs}: {pattern_repr(p)}")
        rest = layers[1:]
    mn = set(measured_nodes(p))
    ctx.check(all(rest) and sum(map(len, rest)) == len(mn) and set().union(*rest) == mn, "layers", lambda: f"layers {layers} do not partition {mn}: {pattern_repr(p)}")
    sp = std.to_pattern()
    dep = {c.node: set(c.s_domain) | set(c.t_domain) for c in sp if c.kind.name == "M"}
    rank = {}
    for c in sp:
        if c.kind.name == "M":
            rank[c.node] = 1 + max((rank[d] for d in dep[c.node]), default=0)
    longest = max(rank.values(), default=0)
    lev = {n: i for i, lay in enumerate(rest) for n in lay}
    for n, ds in dep.items():
        for d in ds:
            ctx.check(lev[d] > lev[n], "layers", lambda: f"{n} depends on {d} but layers are {layers}: {pattern_repr(sp)}")
    ctx.check(len(rest) == longest, "depth", lambda: f"{len(rest)} measurement layers, longest dependency chain {longest}: {layers}: {pattern_repr(sp)}")
    # execute round by round, order inside a round drawn
    order = []
    for lay in reversed(rest):
        order += ctx.shuffle(sorted(lay))
    ctx.sched(*order)
    ms = {c.node: c for c in sp if c.kind.name == "M"}
    head = [c for c in sp if c.kind.name in "NE"]
    tail = [c for c in sp if c.kind.name in "XZC"]
    rounds = Pattern(input_nodes=list(p.input_nodes), cmds=[*head, *(ms[n] for n in order), *tail], output_nodes=list(p.output_nodes))
    out = gen.outcomes(ctx, sorted(mn))
    ctx.check(problems(rounds) is None, "layers", lambda: f"layer order {order} not runnable: {problems(rounds)}: {pattern_repr(sp)}")
    same(ctx, p, rounds, out, "round by round")
    q = p.copy()
    q.parallelize_pattern()
    ctx.check(problems(q) is None, "parallelize", lambda: f"parallelized pattern is ill-formed {problems(q)}: {pattern_repr(q)}")
    qo = measured_nodes(q)
    ctx.check(sorted(qo) == sorted(mn) and all(lev[a] >= lev[b] for a, b in zip(qo, qo[1:])), "parallelize",
              lambda: f"parallelized pattern measures {qo}, layers {layers}: {pattern_repr(p)}")
    same(ctx, p, q, out, "parallelize_pattern")
    metrics_static(ctx, q, "parallelize_pattern")
    ctx.probe("depth")
    if longest >= 2:
        ctx.nontrivial()
    ctx.log(str(layers))


def same(ctx, p, q, out, what):
    try:
        a, _ = ref.pattern_kraus(p, ref.scripted(out))
        b, _ = ref.pattern_kraus(q, ref.scripted(out))
    except ref.RefError as e:
        raise Violation("not-runnable", f"{what}: {e}: {pattern_repr(q)}") from None
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    ctx.check(abs(na - nb) < 1e-6 * max(na, 1e-3), "branch-weight", lambda: f"{what}: branch {out} weight {nb:.6g} expected {na:.6g}: {pattern_repr(p)} -> {pattern_repr(q)}")
    if na > 1e-6:
        ctx.check(close_up_to_phase(a, b), "branch-differs", lambda: f"{what}: branch {out} differs (fidelity {fidelity(a, b):.6f}): {pattern_repr(p)} -> {pattern_repr(q)}")


def metrics_static(ctx, q, what):
    """Metrics of a rewritten pattern against a walk over its commands."""
    live = peak = len(q.input_nodes)
    sl = []
    for c in q:
        live += {"N": 1, "M": -1}.get(c.kind.name, 0)
        if c.kind.name in "NM":
            sl.append(live)
            peak = max(peak, live)
    ctx.check(list(q.space_list()) == sl, "space-list", lambda: f"{what}: space_list {q.space_list()}, commands use {sl}: {pattern_repr(q)}")
    ctx.check(q.max_space() == peak, "max-space", lambda: f"{what}: max_space {q.max_space()}, commands use {peak}: {pattern_repr(q)}")
    n = len(q.input_nodes) + sum(c.kind.name == "N" for c in q)
    ctx.check(q.n_node == n, "n-node", lambda: f"{what}: n_node {q.n_node}, commands use {n}: {pattern_repr(q)}")
    ctx.check(len(q.nodes()) == n, "nodes", lambda: f"{what}: nodes {q.nodes()}: {pattern_repr(q)}")


def optimum(p):
    """Least peak space over all placements of preparations, for the given measurement order."""
    nb = {n: set() for n in p.nodes()}
    for c in p:
        if c.kind.name == "E":
            a, b = c.nodes
            if b in nb[a]:
                nb[a].discard(b)
                nb[b].discard(a)
            else:
                nb[a].add(b)
                nb[b].add(a)
    need = set(p.input_nodes)
    peak = len(need)
    for i, v in enumerate(measured_nodes(p)):
        need |= {v} | nb[v]
        peak = max(peak, len(need) - i)
    return max(peak, len(p.nodes()) - len(measured_nodes(p)))


def space(ctx):
    """Space minimisation: exact optimum for a kept measurement order, never worse than the original otherwise."""
    p = draw_pattern(ctx)
    ctx.describe(pattern_repr(p))
    if p.max_space() > 9:
        raise Discard
    try:
        std = StandardizedPattern.from_pattern(p)
    except NotImplementedError:
        raise Discard from None
    best = optimum(p)
    so = std.to_space_optimal_pattern()
    ctx.check(so.max_space() == best, "space-optimal", lambda: f"to_space_optimal_pattern uses {so.max_space()}, optimum for the order is {best}: {pattern_repr(p)} -> {pattern_repr(so)}")
    ctx.check(std.max_space() == so.max_space(), "max-space", lambda: f"StandardizedPattern.max_space {std.max_space()}, execution uses {so.max_space()}: {pattern_repr(so)}")
    metrics_static(ctx, so, "to_space_optimal_pattern")
    out = gen.outcomes(ctx, measured_nodes(p))
    q = p.copy()
    before = p.max_space()
    k = ctx.draw(3)
    if k == 0:
        q.minimize_space([])
        ctx.check(measured_nodes(q) == measured_nodes(p), "space-optimal", lambda: f"minimize_space([]) changed the order: {pattern_repr(q)}")
        ctx.check(q.max_space() == best, "space-optimal", lambda: f"minimize_space([]) uses {q.max_space()}, optimum is {best}: {pattern_repr(p)} -> {pattern_repr(q)}")
    elif k == 1:
        q.minimize_space()
        ctx.check(q.max_space() <= best, "space-worse", lambda: f"minimize_space uses {q.max_space()}, unchanged order needs {best}: {pattern_repr(p)} -> {pattern_repr(q)}")
    else:
        r = q.minimize_space(copy=True)
        ctx.check(pattern_key(q) == pattern_key(p), "mutated", lambda: f"minimize_space(copy=True) changed {pattern_repr(p)}")
        ctx.check(r.max_space() <= before, "space-worse", lambda: f"minimize_space uses {r.max_space()}, original {before}: {pattern_repr(p)} -> {pattern_repr(r)}")
        q = r
    ctx.check(problems(q) is None, "minimize", lambda: f"minimized pattern is ill-formed {problems(q)}: {pattern_repr(q)}")
    metrics_static(ctx, q, "minimize_space")
    same(ctx, p, q, out, "minimize_space")
    ctx.probe("space-optimal")
    if len(p) >= 3:
        ctx.nontrivial()
    ctx.log(best, before, q.max_space())


def rewrite(ctx):
    """A history of in-place rewrites; metrics stay those of the current commands."""
    p = draw_pattern(ctx, pauli_bias=True)
    if p.max_space() > 8:
        raise Discard
    ctx.describe(pattern_repr(p))
    hist = []
    for _ in range(1 + ctx.draw(4)):
        k = ctx.pick(["standardize", "shift", "parallelize", "minimize", "push", "remove-pauli", "remove-clifford", "remove-inputs", "reindex", "infer", "add-n", "add-m", "clear", "replace"])
        hist.append(k)
        try:
            if k == "standardize":
                p.standardize()
            elif k == "shift":
                p.standardize()
                p.shift_signals()
            elif k == "parallelize":
                p.parallelize_pattern()
            elif k == "minimize":
                p.minimize_space()
            elif k in ("push", "remove-pauli"):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    if k == "push":
                        p.perform_pauli_pushing(standardize=ctx.flag(1, 2))
                    else:
                        p.remove_pauli_measurements(standardize=ctx.flag(1, 2))
            elif k == "remove-clifford":
                p.remove_local_clifford_commands()
            elif k == "remove-inputs":
                p.remove_input_nodes()
            elif k == "reindex":
                p.reindex()
            elif k == "infer":
                p.infer_pauli_measurements()
            elif k == "add-n":
                p.add(command.N(max(p.nodes(), default=0) + 1))
            elif k == "add-m":
                if p.output_nodes:
                    p.add(command.M(ctx.pick(list(p.output_nodes))))
            elif k == "clear":
                if ctx.flag(1, 3):
                    p.clear()
            elif k == "replace":
                p.replace(list(p)[: ctx.draw(len(p) + 1)])
        except (NotImplementedError, ValueError) as e:
            ctx.log("refused", k, str(e)[:60])
        metrics_static(ctx, p, " -> ".join(hist))
        ctx.check(problems(p) is None, "rewrite", lambda: f"{hist}: ill-formed {problems(p)}: {pattern_repr(p)}")
        live = set(p.nodes()) - set(measured_nodes(p))
        ctx.check(set(p.output_nodes) == live and len(p.output_nodes) == len(live), "outputs", lambda: f"{hist}: outputs {p.output_nodes}, live {live}: {pattern_repr(p)}")
        ctx.log(k, len(p))
    ctx.sched(*hist)
    if p.max_space() <= 7:
        check_metrics(ctx, p, gen.outcomes(ctx, measured_nodes(p)), "statevector")
    ctx.nontrivial()


SCENARIOS = [("metrics", metrics, 4), ("corrupted", corrupted, 8), ("tensornet", tensornet, 1), ("depth", depth, 3), ("space", space, 3), ("rewrite", rewrite, 3)]
