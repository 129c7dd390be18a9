"""C08: a failed operation leaves every object intact and usable."""

from __future__ import annotations

import sys
import warnings

import networkx as nx
import numpy as np

from dst import gen, ref
from dst.checks import c07
from dst.checks.c06 import build as build_noise, draw_model
from dst.checks.c07 import differ, execute, serial, small_pattern, w_circuit, w_flow, w_noise, w_rewrite, w_sim
from dst.core import Discard, Violation
from dst.gx import (
    BasicStates, Circuit, Clifford, DefaultMeasureMethod, DensityMatrix, DensityMatrixBackend, FixedBranchSelector, Measurement, OpenGraph, Pattern,
    PatternSimulator, Plane, RandomBranchSelector, Statevector, StatevectorBackend, circuit_repr, command, instruction, measured_nodes, og_repr,
    pattern_repr,
)
from dst.obs import key
from dst.sched import PREFIX

from graphix._linalg import MatGF2
from graphix.branch_selector import BranchSelector
from graphix.channels import KrausChannel, depolarising_channel, two_qubit_depolarising_channel
from graphix.extraction import fusion_nodes, graph_to_fusion_network
from graphix.flow.core import XZCorrections
from graphix.flow.exceptions import FlowError
from graphix.fundamentals import Axis
from graphix.graphsim import GraphState
from graphix.instruction import InstructionVisitor
from graphix.noise_models import ComposeNoiseModel, DepolarisingNoiseModel, NoiseModel
from graphix.noise_models.depolarising import DepolarisingNoise
from graphix.noise_models.noise_model import ApplyNoise
from graphix.ops import Ops
from graphix.optimization import StandardizedPattern
from graphix.qasm3_exporter import circuit_to_qasm3
from graphix.simulator import DefaultPrepareMethod
from graphix.space_minimization import DEFAULT_HEURISTICS
from graphix.transpiler import transpile_swaps

LEVEL = "exploration"
QUICK_RUNS = 12000
THOROUGH_RUNS = 500000
REAL = ["graphix.pattern", "graphix.transpiler", "graphix.opengraph", "graphix.flow", "graphix.optimization", "graphix.space_minimization",
        "graphix.simulator", "graphix.sim.*", "graphix.noise_models", "graphix.graphsim", "graphix.circ_ext"]
STUB = ["caller-supplied components (selector, preparation, measurement, noise, heuristics, callbacks) that fail at a seeded call",
        "cancellation: an exception raised at a seeded source line of graphix"]
RULE = ("(1) non-mutating workloads cancelled at a seeded source line, then repeated; (2) simulations and rewrites whose caller-supplied component fails at "
        "a seeded call, then repeated; (3) a catalogue of refused calls on patterns, circuits, open graphs, corrections, graph states, dense states and "
        "backends. Every object involved is compared by its observable contents before and after. Non-trivial = an exception was raised")
ASSUMPTIONS = ["mutating operations are not cancelled at arbitrary points (only refused or failing in a callback)",
               "observable contents = public attributes and equality (dst/obs.py)", "a simulation cancelled midway may leave the backend it was given in mid-run"]
REQUIRED_PROBES = ("cancelled", "component-failed", "refused-pattern", "refused-circuit", "refused-opengraph", "refused-corrections", "refused-graphstate",
                   "refused-state", "refused-backend", "refused-simulation")


class Cancelled(BaseException):
    pass


class ComponentFailure(Exception):
    pass


EXCS = [Cancelled, KeyboardInterrupt, MemoryError, OSError]


# ---------------------------------------------------------------- (1) cancellation at a source line

class Cancel:
    """Raise `exc` at the k-th executed source line of graphix (k = None: only count)."""

    def __init__(self, k=None, exc=Cancelled):
        self.k, self.exc, self.n, self.fired = k, exc, 0, None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.k is not None and self.n == self.k:
                self.fired = f"{frame.f_code.co_filename[len(PREFIX) + 1:]}:{frame.f_code.co_name}"
                raise self.exc("injected")
        return self.local

    def tracer(self, frame, event, arg):
        if self.fired is None and frame.f_code.co_filename.startswith(PREFIX):
            return self.local
        return None

    def run(self, f):
        sys.settrace(self.tracer)
        try:
            return f()
        finally:
            sys.settrace(None)


def shared_work(ctx):
    k = ctx.draw(7)
    if k == 5:
        o = some_graph(ctx)
        ws = [w_graph]
    elif k == 6:
        f = gen.flow_open_graph(ctx, max_nodes=7).to_pauliflow_or_none()
        if f is None:
            raise Discard
        o, ws = (f if ctx.draw(2) else f.to_xzcorrections()), [w_corrections]
    elif k == 0:
        o, ws = small_pattern(ctx, 4), [w_sim, w_noise]
    elif k == 1:
        o, ws = gen.circuit(ctx, max_width=3, max_depth=5, measures=True), [w_circuit]
    elif k == 2:
        o, ws = gen.flow_open_graph(ctx, max_nodes=6, out_cliffords=True), [w_flow]
    elif k == 3:
        o = gen.general_pattern(ctx, max_nodes=8, max_live=8, states=False, pauli_bias=True) if ctx.draw(2) else small_pattern(ctx, 9)
        ws = [w_rewrite]
    else:
        o, ws = small_pattern(ctx, 4), [w_more]
    desc, run = ctx.pick(ws)(ctx, o)
    return o, desc, run


def some_graph(ctx):
    n = ctx.int(1, 8)
    names = ctx.shuffle(range(n))
    edges = [(a, b) for a in range(n) for b in range(a) if ctx.draw(5) < 2]
    if ctx.draw(3) == 0:
        g = nx.Graph()
        g.add_nodes_from(names)
        g.add_edges_from(ctx.shuffle(edges))
        return g
    return GraphState(nodes=names, edges=ctx.shuffle(edges), vops={v: ctx.pick(list(Clifford)) for v in names if ctx.draw(3) == 0})


def resources(rs):
    return [(r.cltype.name, list(r.graph.nodes), list(r.graph.edges)) for r in rs]


GRAPH_OPS = {
    "fusion": lambda g: resources(graph_to_fusion_network(g)),
    "fusion-small": lambda g: resources(graph_to_fusion_network(g, max_ghz=3, max_lin=3)),
    "fusion-links": lambda g: (lambda rs: [fusion_nodes(a, b) for a in rs for b in rs])(graph_to_fusion_network(g)),
    "statevec": lambda g: g.to_statevector() if isinstance(g, GraphState) else 0,
    "isolated": lambda g: g.isolated_nodes() if isinstance(g, GraphState) else 0,
    "copy": lambda g: key(g.copy()),
    "subgraph": lambda g: sorted(g.subgraph(list(g.nodes)[::2]).edges),
    "opengraph": lambda g: key(OpenGraph(g, [], list(g.nodes)[:1], {v: Measurement.XY(0.2) for v in list(g.nodes)[1:]}).to_causalflow_or_none()),
}

FLOW_OPS = {
    "xz": lambda f: key(f.to_xzcorrections()),
    "well-formed": lambda f: f.check_well_formed(),
    "extract": lambda f: key(f.extract_circuit()),
    "strings": lambda f: str(f.extraction_pauli_strings),
    "focused": lambda f: f.is_focused(),
    "is-well-formed": lambda f: f.is_well_formed(),
    "ascii": lambda f: f.to_ascii(),
    "str": lambda f: str(f),
    "pattern": lambda f: f.to_xzcorrections().to_pattern(),
    "latex": lambda f: f.to_latex(),
    "unicode": lambda f: f.to_unicode(),
}
CORR_OPS = {
    "pattern": lambda f: f.to_pattern(),
    "compatible": lambda f: f.is_compatible(order(f)[::-1]) or f.is_compatible(order(f)),
    "well-formed": lambda f: f.check_well_formed(),
    "order": lambda f: f.generate_total_measurement_order(),
    "dag": lambda f: sorted(f.to_dag().edges),
    "cflow": lambda f: key(f.to_causalflow()),
    "gflow": lambda f: key(f.to_gflow()),
    "pflow": lambda f: key(f.to_pauliflow()),
    "bloch": lambda f: key(f.to_bloch()),
    "downcast": lambda f: key(f.downcast_bloch()),
    "str": lambda f: str(f),
    "latex": lambda f: f.to_latex(),
    "unicode": lambda f: f.to_unicode(),
}


def order(f):
    return [n for layer in f.partial_order_layers[::-1] for n in sorted(layer) if n not in f.og.output_nodes]


def w_graph(ctx, g):
    return w_ops(ctx, GRAPH_OPS, g)


def w_corrections(ctx, f):
    return w_ops(ctx, CORR_OPS if isinstance(f, XZCorrections) else FLOW_OPS, f)


def w_ops(ctx, table, o):
    ops = [ctx.pick(sorted(table)) for _ in range(ctx.int(1, 3))]

    def run(rng):
        res = []
        for op in ops:
            try:
                res.append(table[op](o))
            except (MemoryError, OSError):
                raise
            except Exception as e:  # noqa: BLE001
                res.append(type(e).__name__)
        return res

    return f"{ops} on {key(o)}", run


MORE = {
    "qasm": lambda p: str(list(p)) and p.to_ascii(),
    "latex": lambda p: p.to_latex(),
    "unicode": lambda p: p.to_unicode(),
    "repr": lambda p: repr(p),
    "copy": lambda p: p.copy(),
    "map": lambda p: p.map(lambda m: m.to_bloch()),
    "infer": lambda p: p.infer_pauli_measurements(copy=True),
    "minimize": lambda p: p.minimize_space(copy=True),
    "push": lambda p: p.infer_pauli_measurements(copy=True).perform_pauli_pushing(copy=True),
    "remove": lambda p: p.infer_pauli_measurements(copy=True).remove_pauli_measurements(copy=True),
    "cliff": lambda p: p.remove_local_clifford_commands(copy=True),
    "reindex": lambda p: p.reindex(lambda n: n + 7, copy=True),
    "mapping": lambda p: p.node_mapping(start=3),
    "compose": lambda p: p.compose(p, {})[0],
    "space": lambda p: [p.max_space(), p.space_list()],
    "layers": lambda p: [sorted(x) for x in p.partial_order_layers()],
    "og": lambda p: key(p.to_opengraph()),
    "xz": lambda p: key(p.to_xzcorrections()),
    "pflow": lambda p: key(p.to_pauliflow()),
    "gflow": lambda p: key(p.to_bloch().to_gflow()),
    "cflow": lambda p: key(p.to_bloch().to_causalflow()),
    "std": lambda p: key(StandardizedPattern.from_pattern(p)),
    "run": lambda p: p.check_runnability(),
    "eq": lambda p: p == p.copy(),
}


def w_more(ctx, p):
    ops = [ctx.pick(sorted(MORE)) for _ in range(ctx.int(1, 3))]

    def run(rng):
        res = []
        for o in ops:
            try:
                res.append(MORE[o](p))
            except (NotImplementedError, ValueError, FlowError, TypeError, AssertionError) as e:
                res.append(type(e).__name__)
            except Exception as e:  # noqa: BLE001
                if isinstance(e, (MemoryError, OSError)):
                    raise
                res.append(type(e).__name__)
        return res

    return f"{ops} on {pattern_repr(p)}", run


def cancelled(ctx):
    o, desc, run = shared_work(ctx)
    seed = ctx.npseed()
    ctx.describe(desc)
    before = key(o)
    want = execute(run, seed)  # also warms the caches of graphix
    cnt = Cancel()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cnt.run(lambda: execute(run, seed))
    if cnt.n < 2:
        raise Discard
    for _ in range(ctx.int(1, 3)):
        k = 1 + ctx.draw(1 << 20) * cnt.n // (1 << 20)
        exc = ctx.pick(EXCS)
        c = Cancel(k, exc)
        rng_before = key(o)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = c.run(lambda: execute(run, seed))
        except (Cancelled, KeyboardInterrupt, MemoryError, OSError):
            got = None
        if c.fired is None:
            continue
        ctx.fault("cancel:" + exc.__name__)
        ctx.probe("cancelled")
        ctx.nontrivial()
        ctx.step(c.n)
        ctx.log(desc, c.fired)
        ctx.check(key(o) == rng_before == before, "changed-by-cancelled", lambda: f"object changed by an operation cancelled at {c.fired}: {before} -> {key(o)}: {desc}")
        again = execute(run, seed)
        d = differ(again, want)
        ctx.check(d is None, "later-result", lambda: f"after a run cancelled at {c.fired} the same call gives another result: {d}: {desc}")
        ctx.check(key(o) == before, "changed", lambda: f"object changed by a non-mutating call: {desc}")


# ---------------------------------------------------------------- (2) failing components

class Fuse:
    """Fails at call number k, across all components sharing it."""

    def __init__(self, k=None):
        self.k, self.n = k, 0
        self.where = None

    def tick(self, where):
        self.n += 1
        if self.k is not None and self.n == self.k:
            self.where = where
            raise ComponentFailure(where)


class FSelector(BranchSelector):
    def __init__(self, fuse, eager):
        self.fuse, self.eager = fuse, eager
        self.inner = RandomBranchSelector()

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        if self.eager:
            f_expectation0()
        self.fuse.tick("branch selector")
        return self.inner.measure(qubit, f_expectation0, rng)


class FPrepare(DefaultPrepareMethod):
    def __init__(self, fuse):
        self.fuse = fuse

    def prepare(self, backend, cmd, rng=None):
        self.fuse.tick("prepare method")
        super().prepare(backend, cmd, rng)


class FMeasure(DefaultMeasureMethod):
    def __init__(self, fuse, results=None):
        super().__init__(results) if results is not None else super().__init__()
        self.fuse = fuse

    def describe_measurement(self, cmd):
        self.fuse.tick("measure method")
        return super().describe_measurement(cmd)

    def measurement_outcome(self, node):
        self.fuse.tick("stored outcome")
        return super().measurement_outcome(node)

    def store_measurement_outcome(self, node, result):
        self.fuse.tick("outcome store")
        super().store_measurement_outcome(node, result)


class FNoise(NoiseModel):
    def __init__(self, fuse):
        self.fuse = fuse

    def input_nodes(self, nodes, rng=None, *, stacklevel=1):
        self.fuse.tick("noise input")
        return [ApplyNoise(noise=FChannel(self.fuse, 0.3), nodes=[n]) for n in nodes]

    def command(self, cmd, rng=None, *, stacklevel=1):
        self.fuse.tick("noise command")
        if cmd.kind.name in "NXZ":
            return [cmd, ApplyNoise(noise=FChannel(self.fuse, 0.2), nodes=[cmd.node])]
        return [cmd]

    def confuse_result(self, cmd, result, rng=None, *, stacklevel=1):
        self.fuse.tick("readout confusion")
        return result ^ int(rng.random() < 0.3)


class FChannel(DepolarisingNoise):
    def __init__(self, fuse, p):
        super().__init__(p)
        self._fuse = fuse

    def to_krauschannel(self):
        self._fuse.tick("noise channel")
        return super().to_krauschannel()


def components(ctx):
    if ctx.flag(1, 4):
        return component_rewrite(ctx)
    circ = ctx.flag(1, 5)
    inp_n = 0
    if circ:
        c = gen.circuit(ctx, max_width=3, max_depth=6, measures=True)
        o, inp_n = c, c.width
    else:
        o = small_pattern(ctx, 4)
        inp_n = len(o.input_nodes)
    inp, _ = gen.input_state(ctx, inp_n)
    noisy = not circ and ctx.draw(2)
    eager = ctx.draw(2)
    backend = "densitymatrix" if noisy else ctx.pick(["statevector", "densitymatrix"])
    extra = build_noise(ctx, draw_model(ctx)) if noisy and ctx.draw(2) else None
    seed = ctx.npseed()
    inst = ctx.flag(1, 4) and not circ
    desc = f"simulate {backend} noise={noisy} " + (circuit_repr(o) if circ else pattern_repr(o))
    ctx.describe(desc)
    kw = {} if inp is None else {"input_state": inp}
    guards = [o, inp, extra]

    def once(fuse, guards_out=None):
        rng = np.random.default_rng(seed)
        sel = FSelector(fuse, eager)
        if circ:
            r = o.simulate(backend=backend, branch_selector=sel, rng=rng, **kw)
            return serial([r.state, list(r.classical_measures)])
        nm = None
        if noisy:
            nm = FNoise(fuse)
            if extra is not None:
                nm = ComposeNoiseModel([nm, extra])
        mm = FMeasure(fuse)
        if inst:
            be = (StatevectorBackend if backend == "statevector" else DensityMatrixBackend)(branch_selector=sel)
            st = o.simulate(be, prepare_method=FPrepare(fuse), measure_method=mm, noise_model=nm, rng=rng, **kw)
        else:
            st = o.simulate(backend, branch_selector=sel, prepare_method=FPrepare(fuse), measure_method=mm, noise_model=nm, rng=rng, **kw)
        return serial([st, dict(mm.results)])

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        before = key(guards)
        full = Fuse()
        want = once(full)
        if not full.n:
            raise Discard
        for _ in range(ctx.int(1, 3)):
            k = 1 + ctx.draw(full.n)
            fuse = Fuse(k)
            try:
                once(fuse)
                raise Violation("failure-swallowed", f"the exception of the {fuse.where} does not reach the caller: {desc}")
            except ComponentFailure:
                pass
            ctx.fault("component:" + fuse.where)
            ctx.probe("component-failed")
            ctx.nontrivial()
            ctx.log(desc, fuse.where, k)
            ctx.check(key(guards) == before, "changed-by-failure", lambda: f"changed by a run in which the {fuse.where} failed: {before} -> {key(guards)}: {desc}")
            d = differ(once(Fuse()), want)
            ctx.check(d is None, "later-result", lambda: f"after a run in which the {fuse.where} failed the same call gives another result: {d}: {desc}")


def component_rewrite(ctx):
    """Callbacks of rewriting operations fail: the target stays as it was, and the operation works afterwards."""
    k = ctx.draw(5)
    fuse_at = ctx.draw(1 << 10)
    copy = bool(ctx.draw(2))

    if k == 4:
        c = gen.circuit(ctx, max_width=3, max_depth=8, measures=True)
        which = ctx.draw(2)
        desc = f"{'apply_angle' if which else 'visit'}(copy={copy}) on {circuit_repr(c)}"

        class V(InstructionVisitor):
            def __init__(self, fuse):
                self.fuse = fuse

            def visit_qubit(self, qubit):
                self.fuse.tick("visitor (qubit)")
                return c.width - 1 - qubit

            def visit_angle(self, angle):
                self.fuse.tick("visitor (angle)")
                return angle + 0.25

            def visit_axis(self, axis):
                self.fuse.tick("visitor (axis)")
                return axis

        def f(fuse):
            def g(a):
                fuse.tick("angle function")
                return a + 0.5
            return g

        target = c
        op = (lambda t, fuse, cp: t.apply_angle(f(fuse), copy=cp)) if which else (lambda t, fuse, cp: t.visit(V(fuse), copy=cp))
        fresh = lambda: Circuit(c.width, instr=[dataclass_copy(i) for i in c.instruction])  # noqa: E731
    else:
        p = small_pattern(ctx, 9)
        desc = f"{['apply', 'reindex', 'minimize_space', 'map/replace'][k]}(copy={copy}) on {pattern_repr(p)}"

        def fm(fuse):
            def g(m):
                fuse.tick("measurement function")
                return m.to_bloch()
            return g

        def fr(fuse):
            def g(n):
                fuse.tick("node function")
                return 2 * n + 1
            return g

        def fh(fuse):
            def h(sp):
                fuse.tick("heuristic")
                return None
            return [h, *[lambda sp, d=d: (fuse.tick("heuristic"), d(sp))[1] for d in DEFAULT_HEURISTICS]]

        target = p
        if k == 0:
            op = lambda t, fuse, cp: t.apply(fm(fuse), copy=cp)  # noqa: E731
        elif k == 1:
            op = lambda t, fuse, cp: t.reindex(fr(fuse), copy=cp)  # noqa: E731
        elif k == 2:
            op = lambda t, fuse, cp: t.minimize_space(fh(fuse), copy=cp)  # noqa: E731
        else:
            op = lambda t, fuse, cp: StandardizedPattern.from_pattern(t).map(fm(fuse)).to_pattern()  # noqa: E731
        fresh = p.copy
    ctx.describe(desc)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        full = Fuse()
        try:
            want = key(op(fresh(), full, False))
        except NotImplementedError:
            raise Discard from None
        if not full.n:
            raise Discard
        before = key(target)
        fuse = Fuse(1 + fuse_at % full.n)
        try:
            op(target, fuse, copy)
            if fuse.where is None:
                raise Discard
            raise Violation("failure-swallowed", f"the exception of the {fuse.where} does not reach the caller: {desc}")
        except ComponentFailure:
            pass
        ctx.fault("component:" + fuse.where)
        ctx.probe("component-failed")
        ctx.nontrivial()
        ctx.log(desc, fuse.where, fuse.k)
        ctx.check(key(target) == before, "changed-by-failure", lambda: f"changed by a call whose {fuse.where} failed at call {fuse.k}: {before} -> {key(target)}: {desc}")
        got = key(op(target, Fuse(), copy))
        ctx.check(got == want, "later-result", lambda: f"after a failure of the {fuse.where} the operation gives {got} instead of {want}: {desc}")


def dataclass_copy(i):
    import copy

    return copy.copy(i)


# ---------------------------------------------------------------- (3) refused calls

def corrupt(ctx, p):
    """A pattern that cannot run."""
    cmds = list(p)
    nodes = sorted(p.nodes()) or [0]
    k = ctx.draw(5)
    if k == 0 and cmds:
        cmds.pop(ctx.draw(len(cmds)))
    elif k == 1 and cmds:
        i, j = ctx.draw(len(cmds)), ctx.draw(len(cmds))
        cmds[i], cmds[j] = cmds[j], cmds[i]
    elif k == 2 and cmds:
        cmds.insert(ctx.draw(len(cmds) + 1), cmds[ctx.draw(len(cmds))])
    elif k == 3:
        cmds.insert(ctx.draw(len(cmds) + 1), ctx.pick([command.X, command.Z])(node=ctx.pick(nodes), domain={ctx.pick(nodes)}))
    else:
        cmds.insert(ctx.draw(len(cmds) + 1), command.M(ctx.pick(nodes), Measurement.XY(0.3), s_domain={ctx.pick(nodes)}))
    return Pattern(input_nodes=p.input_nodes, cmds=cmds)


def awkward_pattern(ctx):
    k = ctx.draw(4)
    if k <= 1:
        return corrupt(ctx, small_pattern(ctx, 9))
    if k == 2:  # Clifford commands that do not commute with entanglement
        return gen.general_pattern(ctx, max_nodes=6, max_live=6, e_after_c=True)
    return gen.general_pattern(ctx, max_nodes=6, max_live=6)


INPLACE = {
    "standardize": lambda p: p.standardize(),
    "shift_signals": lambda p: p.shift_signals(),
    "shift_signals(mc)": lambda p: p.shift_signals(method="mc"),
    "minimize_space": lambda p: p.minimize_space(),
    "minimize_space([])": lambda p: p.minimize_space([]),
    "parallelize_pattern": lambda p: p.parallelize_pattern(),
    "perform_pauli_pushing": lambda p: p.perform_pauli_pushing(),
    "perform_pauli_pushing(std)": lambda p: p.perform_pauli_pushing(standardize=True),
    "remove_pauli_measurements": lambda p: p.remove_pauli_measurements(),
    "reindex": lambda p: p.reindex(lambda n: n + 3),
    "reindex(not injective)": lambda p: p.reindex(lambda n: n // 2),
    "remove_local_clifford_commands": lambda p: p.remove_local_clifford_commands(),
    "infer_pauli_measurements": lambda p: p.infer_pauli_measurements(),
    "to_causalflow": lambda p: p.to_causalflow(),
    "to_gflow": lambda p: p.to_gflow(),
    "to_pauliflow": lambda p: p.to_pauliflow(),
    "to_xzcorrections": lambda p: p.to_xzcorrections(),
    "to_opengraph": lambda p: p.to_opengraph(),
    "partial_order_layers": lambda p: p.partial_order_layers(),
    "StandardizedPattern": lambda p: StandardizedPattern.from_pattern(p),
    "check_runnability": lambda p: p.check_runnability(),
    "simulate": lambda p: p.simulate(rng=np.random.default_rng(0)),
    "simulate dm": lambda p: p.simulate("densitymatrix", rng=np.random.default_rng(0)),
    "simulate tn": lambda p: p.simulate("tensornetwork", rng=np.random.default_rng(0)),
    "max_space": lambda p: p.max_space(),
    "correction_commands": lambda p: p.correction_commands(),
    "to_circuit": lambda p: p.to_opengraph().to_circuit(),
}
OP = sorted(INPLACE)


def bad_perm(ctx, nodes):
    k = ctx.draw(4)
    nodes = ctx.shuffle(nodes)
    if k == 0:
        nodes = [*nodes, 1000]
    elif k == 1 and nodes:
        nodes = [*nodes, ctx.pick(nodes)]
    elif k == 2 and nodes:
        nodes.pop()
    elif nodes:
        nodes[ctx.draw(len(nodes))] = 1001
    else:
        nodes = [3]
    return nodes


def refused_pattern(ctx):
    k = ctx.draw(9)
    if k <= 2:
        p = awkward_pattern(ctx)
        if len(p.nodes()) > 9:
            raise Discard
        op = ctx.pick(OP)
        if op == "simulate" and ref.space_needed(list(p), len(p.input_nodes)) > 8 or op == "simulate dm" and ref.space_needed(list(p), len(p.input_nodes)) > 5:
            raise Discard
        return "pattern", f"{op} on {pattern_repr(p)}", [p], lambda: INPLACE[op](p)
    p = small_pattern(ctx, 9)
    if k == 3:
        what = ctx.draw(2)
        nodes = bad_perm(ctx, p.input_nodes if what else p.output_nodes)
        arg = iter if ctx.draw(2) else list
        name = "reorder_input_nodes" if what else "reorder_output_nodes"
        return "pattern", f"{name}({nodes}) on {pattern_repr(p)}", [p, nodes], lambda: getattr(p, name)(arg(nodes))
    if k == 4:
        nodes = sorted(p.nodes())
        m = {n: ctx.int(0, 4) for n in ctx.subset(nodes)}
        if ctx.draw(2) or len(m) < 2:
            m[500] = 3
        av, pr = {1, 2}, [nodes[0]] if nodes else []
        return "pattern", f"node_mapping({m}) on {pattern_repr(p)}", [p, m, av, pr], lambda: p.node_mapping(m, avoids=av, preserves=pr)
    if k == 5:
        q = small_pattern(ctx, 9)
        n2, n1 = sorted(q.nodes()), sorted(p.nodes())
        m = {ctx.pick(n2) if n2 and ctx.draw(4) else 77: (ctx.pick(n1) if n1 and ctx.draw(3) else 60 + ctx.draw(2)) for _ in range(ctx.int(1, 3))}
        pm = bool(ctx.draw(2))
        return "pattern", f"compose({pattern_repr(q)}, {m}, {pm}) on {pattern_repr(p)}", [p, q, m], lambda: p.compose(q, m, pm)
    if k == 6:
        return "pattern", f"shift_signals('bogus') on {pattern_repr(p)}", [p], lambda: p.shift_signals(method="bogus")
    if k == 7:
        order = bad_perm(ctx, measured_nodes(p))
        return "pattern", f"sort_measurement_commands({order}) on {pattern_repr(p)}", [p, order], lambda: p.sort_measurement_commands(order)
    cmds, ins = list(p), p.input_nodes
    outs = bad_perm(ctx, p.output_nodes)
    return "pattern", f"Pattern({ins}, cmds, {outs}) from {pattern_repr(p)}", [cmds, ins, outs, p], lambda: Pattern(ins, cmds, outs)


GATES2 = ["cnot", "cz", "swap", "rzz"]
GATES1 = ["h", "s", "x", "y", "z", "i", "rx", "ry", "rz", "j", "r", "m"]


def refused_circuit(ctx):
    c = gen.circuit(ctx, max_width=3, max_depth=6, measures=True)
    k = ctx.draw(7)
    if k == 0:
        measured = sorted(set(range(c.width)) - set(c.active_qubits))
        bad = ctx.pick([*measured, *measured, c.width, c.width + 3, -1])
        good = sorted(c.active_qubits)
        g = ctx.pick(GATES1 + GATES2 + ["ccx"])
        if g in GATES1:
            args = (bad,)
        elif g in GATES2:
            o = ctx.pick(good) if good else 0
            args = ctx.pick([(bad, o), (o, bad), (o, o)])
        else:
            o = ctx.pick(good) if good else 0
            args = tuple(ctx.shuffle([bad, o, ctx.pick(good) if good else 0]))
        if g in ("rx", "ry", "rz", "j", "rzz"):
            args = (*args, 0.3)
        if g == "r":
            args = (*args, ctx.pick(list(Axis)), 0.3)
        if g == "m":
            args = (*args, ctx.pick(list(Axis)))
        return "circuit", f"{g}{args} on {circuit_repr(c)}", [c], lambda: getattr(c, g)(*args)
    if k == 1:
        ins = [*(instruction.H(q) for q in sorted(c.active_qubits)), *(instruction.M(q, Axis.Z) for q in sorted(c.active_qubits)[:1]), instruction.RX(c.width + 1, 0.2), instruction.X(0)]
        ins = ins[ctx.draw(len(ins) - 1):]
        arg = iter if ctx.draw(2) else list
        return "circuit", f"extend({ins}) on {circuit_repr(c)}", [c, ins], lambda: c.extend(arg(ins))
    if k in (2, 3, 4):
        # ill-formed instruction list: a gate on a measured qubit
        bad = [ctx.pick([instruction.H(0), instruction.CNOT(0, 1), instruction.RX(0, 0.3), instruction.SWAP((0, 1)), instruction.M(0, Axis.X)]) for _ in range(ctx.int(1, 2))]
        if c.width < 2:
            bad = [instruction.H(0)]
        pos = ctx.draw(len(c.instruction) + 1)
        if not any(i.kind.name == "M" and i.target == 0 for i in c.instruction[:pos]):
            c.instruction.insert(pos, instruction.M(0, Axis.Z))
            pos += 1
        c.instruction[pos:pos] = [dataclass_copy(b) for b in bad]
        op = ctx.pick(["swaps", "swaps_copy", "transpile", "flow", "simulate", "qasm", "transpile_noswap", "zaxis"])
        f = {
            "swaps": lambda: transpile_swaps(c), "swaps_copy": lambda: transpile_swaps(c, copy=True), "transpile": lambda: c.transpile(),
            "flow": lambda: c.transpile_to_causalflow(), "simulate": lambda: c.simulate(rng=np.random.default_rng(0)), "qasm": lambda: circuit_to_qasm3(c),
            "transpile_noswap": lambda: c.transpile(transpile_swaps=False), "zaxis": lambda: c.transpile_measurements_to_z_axis(),
        }[op]
        return "circuit", f"{op} on ill-formed {circuit_repr(c)}", [c], f
    if k == 5:
        be = ctx.draw(4)
        if be == 0:
            return "circuit", f"simulate('bogus') {circuit_repr(c)}", [c], lambda: c.simulate(backend="bogus")
        if be == 1:
            b = StatevectorBackend()
            return "circuit", f"simulate(backend, selector) {circuit_repr(c)}", [c, b], lambda: c.simulate(backend=b, branch_selector=RandomBranchSelector())
        data = [BasicStates.ZERO] * (c.width + 1)
        b = ctx.pick([StatevectorBackend(), DensityMatrixBackend()])
        return "circuit", f"simulate(input_state of {c.width + 1}) {circuit_repr(c)}", [c, data, b], lambda: c.simulate(backend=b, input_state=data, rng=np.random.default_rng(0))
    return "circuit", f"circuit_to_qasm3 {circuit_repr(c)}", [c], lambda: circuit_to_qasm3(c)


def refused_opengraph(ctx):
    og = gen.open_graph(ctx, max_nodes=6, out_cliffords=True) if ctx.draw(3) else gen.flow_open_graph(ctx, max_nodes=6, out_cliffords=True)
    k = ctx.draw(4)
    if k == 0:
        op = ctx.pick(["to_pattern", "to_causalflow", "to_gflow", "to_pauliflow", "to_circuit", "downcast_bloch"])
        tgt = og.to_bloch() if op in ("to_causalflow", "to_gflow") else og
        return "opengraph", f"{op} {og_repr(og)}", [og, tgt], lambda: getattr(tgt, op)()
    if k == 1:
        g = og.graph.copy()
        ins, outs, ms, oc = list(og.input_nodes), list(og.output_nodes), dict(og.measurements), dict(og.output_cliffords)
        w = ctx.draw(5)
        if w == 0:
            ms[99] = Measurement.X
        elif w == 1:
            ins.append(98)
        elif w == 2:
            outs = [*outs, *outs]
        elif w == 3 and ms:
            ms.popitem()
        else:
            oc[99] = Clifford.H
        return "opengraph", f"OpenGraph{(sorted(g.edges), ins, outs, ms, oc)}", [og, g, ins, outs, ms, oc], lambda: OpenGraph(g, ins, outs, ms, oc)
    if k == 2:
        o2 = gen.open_graph(ctx, max_nodes=5)
        n1, n2 = sorted(og.graph.nodes), sorted(o2.graph.nodes)
        m = {ctx.pick(n2) if ctx.draw(4) else 88: (ctx.pick(n1) if ctx.draw(4) else 70) for _ in range(ctx.int(1, 4))}
        return "opengraph", f"compose {og_repr(og)} with {og_repr(o2)} by {m}", [og, o2, m], lambda: og.compose(o2, m)
    f = og.to_pauliflow_or_none()
    if f is None:
        raise Discard
    op = ctx.pick(["extract_circuit", "to_circuit"])
    return "opengraph", f"{op} {og_repr(og)}", [og, f], (lambda: f.extract_circuit().to_circuit()) if op == "extract_circuit" else (lambda: og.to_circuit())


def refused_corrections(ctx):
    og = gen.flow_open_graph(ctx, max_nodes=7)
    f = og.to_pauliflow_or_none()
    if f is None:
        raise Discard
    x = f.to_xzcorrections()
    k = ctx.draw(4)
    if k == 0:
        order = bad_perm(ctx, list(og.measurements)) if ctx.draw(2) else ctx.shuffle(list(og.measurements))
        return "corrections", f"to_pattern({order}) {x}", [x, order, f], lambda: x.to_pattern(total_measurement_order=order)
    # corrupted corrections
    xc, zc = {a: set(b) for a, b in x.x_corrections.items()}, {a: set(b) for a, b in x.z_corrections.items()}
    nodes = sorted(og.graph.nodes)
    for _ in range(ctx.int(1, 3)):
        d = ctx.pick([xc, zc])
        d.setdefault(ctx.pick(nodes), set()).symmetric_difference_update({ctx.pick(nodes)})
    if k == 1:
        return "corrections", f"from_measured_nodes_mapping({xc}, {zc}) on {og_repr(og)}", [og, xc, zc], lambda: XZCorrections.from_measured_nodes_mapping(og, xc, zc)
    y = XZCorrections(og, xc, zc, x.partial_order_layers)
    op = ctx.pick(["check_well_formed", "to_pauliflow", "to_gflow", "to_causalflow", "to_pattern", "generate_total_measurement_order"])
    return "corrections", f"{op} on {y.x_corrections} {y.z_corrections} {og_repr(og)}", [y, og, x, xc, zc], lambda: getattr(y, op)()


def refused_graphstate(ctx):
    n = ctx.int(2, 5)
    g0 = gen.graph(ctx, n)
    g = GraphState(nodes=list(g0.nodes), edges=list(g0.edges))
    for v in list(g.nodes):
        for op in ctx.subset(["h", "s", "z"]):
            getattr(g, op)(v)
    k = ctx.draw(6)
    v = ctx.draw(n)
    if k == 0:
        op = ctx.pick(["measure_x", "measure_y", "measure_z"])
        return "graphstate", f"{op}({v}, choice=2)", [g], lambda: getattr(g, op)(v, choice=2)
    if k == 1:
        return "graphstate", f"equivalent_graph_e1({v})", [g], lambda: None if g.nodes[v]["loop"] else g.equivalent_graph_e1(v)
    if k == 2:
        w = ctx.draw(n)
        ok = g.has_edge(v, w) and not g.nodes[v]["loop"] and not g.nodes[w]["loop"]
        return "graphstate", f"equivalent_graph_e2({v},{w})", [g], lambda: None if ok else g.equivalent_graph_e2(v, w)
    if k == 3:
        op = ctx.pick(["h", "s", "z", "measure_x", "measure_y", "measure_z", "flip_fill", "flip_sign", "advance", "local_complement", "equivalent_graph_e1", "equivalent_fill_node", "remove_node"])
        return "graphstate", f"{op}(unknown node)", [g], lambda: getattr(g, op)(90)
    if k == 4:
        vops = {a: ctx.pick(list(Clifford)) for a in ctx.subset(list(g.nodes))}
        vops[91] = Clifford.H
        return "graphstate", f"apply_vops({vops})", [g, vops], lambda: g.apply_vops(vops)
    return "graphstate", "equivalent_graph_e2(unknown)", [g], lambda: g.equivalent_graph_e2(*ctx.shuffle([v, 92]))


def some_state(ctx, dm=None):
    n = ctx.int(1, 4)
    u = gen.random_unit_vector(ctx, 1 << n)
    if dm if dm is not None else ctx.draw(2):
        return DensityMatrix(data=Statevector(u)), n
    return Statevector(u, max_qubits=n + ctx.draw(3)), n


def refused_state(ctx):
    s, n = some_state(ctx)
    dm = isinstance(s, DensityMatrix)
    bad = ctx.pick([n, n + 1, -1 - n, 40])
    k = ctx.draw(8)
    H = np.array(Ops.H)
    big = np.kron(H, H)
    kind = "dm" if dm else "sv"
    if k == 0:
        return "state", f"{kind}{n}.evolve_single(H, {bad})", [s, H], lambda: s.evolve_single(H, bad)
    if k == 1:
        qs = ctx.pick([[0, bad], [bad, 0], [0, 0]])
        return "state", f"{kind}{n}.evolve(HH, {qs})", [s, big], lambda: s.evolve(big, qs)
    if k == 2:
        e = (0, bad) if ctx.draw(2) else (bad, 0)
        op = ctx.pick(["entangle", "swap"])
        return "state", f"{kind}{n}.{op}({e})", [s], lambda: getattr(s, op)(e)
    if k == 3:
        qs = list(range(n))
        op = ctx.pick([H, np.eye(8), np.ones((2, 3))]) if n != 1 else np.eye(8)
        if op.shape == (2, 2) and n == 1:
            raise Discard
        return "state", f"{kind}{n}.evolve({op.shape}, {qs})", [s], lambda: s.evolve(op, qs)
    if k == 4:
        perm = ctx.pick([list(range(n + 1)), [0] * n if n > 1 else [1], list(range(n - 1))])
        return "state", f"{kind}{n}.permute({perm})", [s, perm], lambda: s.permute(perm)
    if k == 5:
        data = ctx.pick([[BasicStates.ZERO] * 3, np.array([1.0, 1.0]), np.array([1.0, 0, 0]), [1.0], [[1.0], [0.0]]])
        return "state", f"{kind}{n}.add_nodes(1, {data})", [s, data], lambda: s.add_nodes(1, data)
    if k == 6:
        op = ctx.pick(["project_qubit", "expectation_single"])
        return "state", f"{kind}{n}.{op}(P0, {bad})", [s], lambda: getattr(s, op)(np.array([[1.0, 0], [0, 0]], dtype=complex), bad)
    if dm:
        ch = ctx.pick([depolarising_channel(0.2), two_qubit_depolarising_channel(0.2), "no channel"])
        qs = ctx.pick([[bad], [0, bad], [0, 0], [0, 1, 2], []])
        return "state", f"dm{n}.apply_channel({ch if isinstance(ch, str) else f'{ch.nqubit}-qubit channel'}, {qs})", [s, ch], lambda: s.apply_channel(ch, qs)
    other = ctx.pick([3, "x", None])
    return "state", f"sv{n}.tensor({other!r})", [s], lambda: s.tensor(other)


def refused_backend(ctx):
    cls = ctx.pick([StatevectorBackend, DensityMatrixBackend])
    sel = ctx.pick([RandomBranchSelector(), FixedBranchSelector({}), FSelector(Fuse(1), 1), FSelector(Fuse(1), 0)])
    be = cls(branch_selector=sel)
    nodes = ctx.shuffle([3, 5, 8, 11])[: ctx.int(1, 4)]
    be.add_nodes(nodes, gen.random_unit_vector(ctx, 1 << len(nodes)))
    v = ctx.pick(nodes)
    rng = np.random.default_rng(1)
    k = ctx.draw(9)
    name = f"{cls.__name__}({nodes})"
    if k == 0:
        data = ctx.pick([[BasicStates.ZERO] * 3, np.array([1.0, 1.0]), np.array([1.0, 0, 0]), [1.0]])
        new = [20, 21]
        return "backend", f"{name}.add_nodes({new}, {data})", [be, new, data], lambda: be.add_nodes(new, data)
    if k == 1:
        e = (v, 77) if ctx.draw(2) else (77, v)
        return "backend", f"{name}.entangle_nodes({e})", [be], lambda: be.entangle_nodes(e)
    if k == 2:
        u = ctx.pick([v, 77]) if not isinstance(sel, RandomBranchSelector) else 77
        return "backend", f"{name}.measure({u}) with {type(sel).__name__}", [be], lambda: be.measure(u, Measurement.XY(0.3), rng=rng)
    if k == 8:
        be = cls(branch_selector=FixedBranchSelector({9: 1}))
        others = ctx.shuffle([3, 5])[: ctx.draw(3)]
        be.add_nodes(others, gen.random_unit_vector(ctx, 1 << len(others)))
        st, m = ctx.pick([(BasicStates.PLUS, Measurement.X), (BasicStates.ZERO, Measurement.Z), (BasicStates.PLUS_I, Measurement.Y)])
        be.add_nodes([9], st)
        return "backend", f"impossible-outcome-{cls.__name__}({others}).measure(9, {m})", [be], lambda: be.measure(9, m, rng=rng)
    if k == 3:
        c = ctx.pick([command.X, command.Z])(77, {v})
        return "backend", f"{name}.correct_byproduct({c})", [be, c], lambda: be.correct_byproduct(c)
    if k == 4:
        return "backend", f"{name}.apply_clifford(77)", [be], lambda: be.apply_clifford(77, Clifford.H)
    if k == 5:
        outs = bad_perm(ctx, nodes)
        return "backend", f"{name}.finalize({outs})", [be, outs], lambda: be.finalize(outs)
    if k == 6:
        a = ApplyNoise(noise=DepolarisingNoise(0.2), nodes=[77] if ctx.draw(2) else [v, 77])
        return "backend", f"{name}.apply_noise({a.nodes})", [be], lambda: be.apply_noise(a)
    return "backend", f"{name}.apply_single(77)", [be], lambda: be.apply_single(77, Ops.H)


def refused_simulation(ctx):
    p = small_pattern(ctx, 5)
    n = len(p.input_nodes)
    k = ctx.draw(8)
    rng = np.random.default_rng(3)
    desc = pattern_repr(p)
    if k == 0:
        return "simulation", f"simulate('bogus') {desc}", [p], lambda: p.simulate("bogus", rng=rng)
    if k == 1:
        nm = DepolarisingNoiseModel(0.1)
        return "simulation", f"simulate('statevector', noise) {desc}", [p, nm, rng], lambda: p.simulate("statevector", noise_model=nm, rng=rng)
    if k == 2:
        be = StatevectorBackend()
        return "simulation", f"simulate(backend, branch_selector) {desc}", [p, be, rng], lambda: p.simulate(be, branch_selector=RandomBranchSelector(), rng=rng)
    cls = ctx.pick([StatevectorBackend, DensityMatrixBackend])
    be = cls()
    if k == 3:
        if n == 0:
            raise Discard
        bad = ctx.pick([[BasicStates.ZERO] * (n + 1), np.ones(1 << n), np.array([1.0, 0, 0])])
        return "simulation", f"simulate({cls.__name__}, bad input) {desc}", [p, be, bad, rng], lambda: p.simulate(be, input_state=bad, rng=rng)
    if k == 4:
        be.add_nodes([0, 1])
        return "simulation", f"simulate({cls.__name__} with qubits) {desc}", [p, be, rng], lambda: p.simulate(be, rng=rng)
    if k == 5:
        be.add_nodes([7] * 0 + list(range(n + 1)))
        return "simulation", f"run(None) on {cls.__name__} with {n + 1} qubits {desc}", [p, be, rng], lambda: PatternSimulator(p, be).run(input_state=None, rng=rng)
    q = corrupt(ctx, p)
    nm = None
    if k == 7 and cls is DensityMatrixBackend:
        nm = build_noise(ctx, draw_model(ctx))
    try:
        q.check_runnability()
        raise Discard
    except Discard:
        raise
    except Exception:  # noqa: BLE001
        pass
    mm = DefaultMeasureMethod()
    return "simulation", f"simulate({cls.__name__}, noise={nm is not None}) of non-runnable {pattern_repr(q)}", [q, be, mm.results, nm, rng], lambda: q.simulate(be, measure_method=mm, noise_model=nm, rng=rng)


CATALOGUE = [(refused_pattern, 6), (refused_circuit, 4), (refused_opengraph, 2), (refused_corrections, 3), (refused_graphstate, 2), (refused_state, 3),
             (refused_backend, 3), (refused_simulation, 3)]


def refused(ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            kind, desc, guards, call = ctx.weighted(CATALOGUE)(ctx)
        except NotImplementedError:
            raise Discard from None
        ctx.describe(desc)
        before = key(guards)
        excs = []
        for i in range(2):
            try:
                call()
            except (Discard, Violation):
                raise
            except Exception as e:  # noqa: BLE001
                excs.append(type(e).__name__)
            if not excs:
                raise Discard  # accepted
            ctx.fault("refused-call")
            ctx.probe("refused-" + kind)
            ctx.nontrivial()
            ctx.log(desc, excs)
            after = key(guards)
            ctx.check(after == before, "changed-by-refused", lambda: f"refused ({excs[0]}) but changed: {diffs(before, after)}: {desc}", signature=desc.split("(")[0].split(" ")[0])
            if any(hasattr(g, "__next__") for g in guards) or "selector" in desc.lower():
                break
        ctx.check(len(set(excs)) == 1 or "Selector" in desc, "later-result", lambda: f"the repeated call behaves differently ({excs}): {desc}")


def diffs(a, b):
    for x, y in zip(a[1], b[1]):
        if x != y:
            return f"{x} -> {y}"
    return ""


def known_findings(ids):
    """Reproduce the listed findings directly."""
    out = []
    if "impossible-outcome-statevector" in ids:
        be = StatevectorBackend(branch_selector=FixedBranchSelector({9: 1}))
        be.add_nodes([9], BasicStates.PLUS)
        before = key(be)
        try:
            be.measure(9, Measurement.X)
        except RuntimeError:
            if key(be) != before:
                out.append("impossible-outcome-statevector")
    return out


SCENARIOS = [("refused", refused, 8), ("components", components, 2), ("cancelled", cancelled, 2)]
