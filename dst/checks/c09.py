"""C09: copies are independent and read-only operations change nothing."""

from __future__ import annotations

import contextlib
import copy as _copy
import dataclasses
import os
import tempfile
import warnings
from unittest import mock

import matplotlib.pyplot as plt
import networkx as nx
import numpy as np

from dst import gen, ref
from dst.checks.c06 import build as build_noise, draw_model
from dst.checks.c08 import diffs
from dst.core import Discard, Violation
from dst.gx import (
    BasicStates, Circuit, Clifford, DensityMatrix, FixedBranchSelector, Measurement, OpenGraph, Pattern, RandomBranchSelector, Statevector,
    circuit_repr, command, instruction, measured_nodes, og_repr, pattern_repr,
)
from dst.obs import key

from graphix.channels import KrausChannel, depolarising_channel
from graphix.flow.core import PauliFlow, XZCorrections
from graphix.fundamentals import Axis
from graphix.graphsim import GraphState
from graphix.instruction import InstructionVisitor
from graphix.noise_models.noise_model import NoiseModel
from graphix.ops import Ops
from graphix.optimization import StandardizedPattern, remove_useless_domains, single_qubit_domains
from graphix.parameter import Placeholder
from graphix.pattern import DrawPatternAnnotations
from graphix.qasm3_exporter import circuit_to_qasm3
from graphix.sim.tensornet import MBQCTensorNet
from graphix.transpiler import transpile_swaps

LEVEL = "exploration"
QUICK_RUNS = 9000
THOROUGH_RUNS = 300000
REAL = ["graphix.pattern", "graphix.transpiler", "graphix.optimization", "graphix.flow", "graphix.opengraph", "graphix.graphsim", "graphix.sim.*",
        "graphix.noise_models", "graphix.channels", "graphix.circ_ext", "graphix.qasm3_exporter"]
STUB = ["the caller: containers returned by or given to graphix are overwritten at seeded steps", "the screen and the file a drawing is saved to (matplotlib show and savefig)"]
RULE = ("seeded histories of reading, deriving, copying and mutating operations over a growing pool of patterns, circuits, open graphs, flows, corrections, "
        "standardised patterns, graph states, state vectors, density matrices, tensor networks and noise models; after each step every object but the mutated "
        "one has the contents it had, reads repeated later give the same result, and a mutating operation acts on an object with a history as on one rebuilt "
        "from its contents. Non-trivial = at least one mutation or scribbled container while another object derived from the same source is alive")
ASSUMPTIONS = ["commands held by a pattern are values: only commands obtained from Pattern.copy() are modified by the caller",
               "attributes of frozen dataclasses (open graphs, flows, corrections, standardised patterns) are read-only for the caller",
               "arrays given to a tensor network and documented views (Statevector.psi, Statevector.flatten) are not retained"]
REQUIRED_PROBES = ("mutated", "scribbled", "derived", "reread", "kind:Pattern", "kind:Circuit", "kind:OpenGraph", "kind:Flow", "kind:XZ", "kind:Std",
                   "kind:GraphState", "kind:SV", "kind:DM", "kind:TN", "kind:Noise", "copy-commands", "draw")

REFUSED = (NotImplementedError, ValueError, KeyError, IndexError, TypeError, AssertionError, RuntimeError)


class Value:
    """A caller-owned collection, number or other plain value."""

    def __init__(self, v):
        self.v = v


def kind_of(x):
    if isinstance(x, Pattern):
        return "Pattern"
    if isinstance(x, Circuit):
        return "Circuit"
    if isinstance(x, OpenGraph):
        return "OpenGraph"
    if isinstance(x, PauliFlow):
        return "Flow"
    if isinstance(x, XZCorrections):
        return "XZ"
    if isinstance(x, StandardizedPattern):
        return "Std"
    if isinstance(x, GraphState):
        return "GraphState"
    if isinstance(x, Statevector):
        return "SV"
    if isinstance(x, DensityMatrix):
        return "DM"
    if isinstance(x, MBQCTensorNet):
        return "TN"
    if isinstance(x, NoiseModel):
        return "Noise"
    return None


def tn_state(tn):
    return np.array(tn.to_statevector()) if tn.default_output_nodes is not None else None


class Entry:
    def __init__(self, obj, origin):
        self.obj, self.kind, self.origin = obj, kind_of(obj), origin
        self.version = 0
        self.refresh()

    def refresh(self):
        self.key = key(self.obj)
        self.vec = tn_state(self.obj) if self.kind == "TN" else None

    def same(self):
        if key(self.obj) != self.key:
            return False
        if self.kind != "TN":
            return True
        v = tn_state(self.obj)
        return (v is None) == (self.vec is None) and (v is None or np.allclose(v, self.vec))


# ---------------------------------------------------------------- scribbling on returned containers

def scribble(x, depth=0):
    """Overwrite every mutable plain container reachable from a returned value. True if something was overwritten."""
    if depth > 5 or kind_of(x) is not None:
        return False
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size and x.dtype != object:
            x[...] = 7
            return True
        return False
    if isinstance(x, nx.Graph):
        x.add_edge(901, 902)
        for n in list(x.nodes)[:1]:
            x.remove_node(n)
        return True
    if isinstance(x, dict):
        for v in list(x.values()):
            scribble(v, depth + 1)
        x.clear()
        x[903] = {904}
        return True
    if isinstance(x, list):
        for v in list(x):
            scribble(v, depth + 1)
        x.reverse()
        x.append(905)
        return True
    if isinstance(x, set):
        x.clear()
        x.add(906)
        return True
    if isinstance(x, (tuple, frozenset)):
        return any([scribble(v, depth + 1) for v in x])
    return False


def flatten_results(x, out, depth=0):
    if depth > 4:
        return
    if kind_of(x) is not None:
        out.append(x)
    elif isinstance(x, (tuple, list)):
        for v in x:
            flatten_results(v, out, depth + 1)
    elif dataclasses.is_dataclass(x) and not isinstance(x, type):
        for f in dataclasses.fields(x):
            flatten_results(getattr(x, f.name, None), out, depth + 1)


# ---------------------------------------------------------------- operations
# OPS[kind] = list of (name, weight, mutates, factory); factory(ctx, obj, pool) -> (description, call, args)
# call(obj) performs the operation; args: caller-owned arguments that stay as they are

OPS = {}


def op(kind, name, factory, weight=2, mutates=False):
    OPS.setdefault(kind, []).append((name, weight, mutates, factory))


def simple(kind, names, weight=2, mutates=False):
    for name, f in names.items():
        op(kind, name, lambda ctx, o, pool, f=f: ("", f, []), weight, mutates)


def same_kind(pool, kind, pred=lambda o: True):
    return [e.obj for e in pool if e.kind == kind and pred(e.obj)]


# patterns ------------------------------------------------------

simple("Pattern", {
    "list": lambda p: list(p) and None, "len": len, "repr": repr, "str": str, "ascii": lambda p: p.to_ascii(), "latex": lambda p: p.to_latex(),
    "unicode": lambda p: p.to_unicode(), "input_nodes": lambda p: p.input_nodes, "output_nodes": lambda p: p.output_nodes, "nodes": lambda p: p.nodes(),
    "measurement_commands": lambda p: dict(p.measurement_commands()), "clifford_commands": lambda p: p.clifford_commands(),
    "max_space": lambda p: p.max_space(), "space_list": lambda p: p.space_list(),
    "max_degree": lambda p: p.max_degree(), "isolated_nodes": lambda p: p.isolated_nodes(), "check_runnability": lambda p: p.check_runnability(),
    "is_standard": lambda p: (p.is_standard(), p.is_standard(strict=True)), "is_parameterized": lambda p: p.is_parameterized(), "eq": lambda p: p == p.copy(),
    "layers": lambda p: [set(x) for x in p.partial_order_layers()], "node_mapping": lambda p: p.node_mapping(start=4),
}, weight=1)
simple("Pattern", {
    "correction_commands": lambda p: [c.node for c in p.correction_commands()] if p.is_standard() else None,
    "to_opengraph": lambda p: p.to_opengraph(), "to_xzcorrections": lambda p: p.to_xzcorrections(), "to_pauliflow": lambda p: p.to_pauliflow(),
    "to_gflow": lambda p: p.to_bloch().to_gflow(), "to_causalflow": lambda p: p.to_bloch().to_causalflow(), "copy": lambda p: p.copy(),
    "to_bloch": lambda p: p.to_bloch(), "map": lambda p: p.map(lambda m: m.to_bloch()), "infer(copy)": lambda p: p.infer_pauli_measurements(copy=True),
    "push(copy)": lambda p: p.perform_pauli_pushing(copy=True), "push(copy,std)": lambda p: p.perform_pauli_pushing(copy=True, standardize=True),
    "remove_pauli(copy)": lambda p: p.remove_pauli_measurements(copy=True), "remove_clifford(copy)": lambda p: p.remove_local_clifford_commands(copy=True),
    "minimize(copy)": lambda p: p.minimize_space(copy=True), "reindex(copy)": lambda p: p.reindex(lambda n: n + 30, copy=True),
    "reindex(copy,id)": lambda p: p.reindex(lambda n: n, copy=True), "useless": remove_useless_domains, "single": single_qubit_domains,
    "std": StandardizedPattern.from_pattern, "std.to_pattern": lambda p: StandardizedPattern.from_pattern(p).to_pattern(),
    "rebuild": lambda p: Pattern(p.input_nodes, p, p.output_nodes), "replace_parameters(copy)": lambda p: p.replace_parameters({Placeholder("a"): 0.3}, copy=True),
}, weight=3)
op("Pattern", "connected_nodes", lambda ctx, p, pool: _connected(ctx, p))
op("Pattern", "node_mapping(args)", lambda ctx, p, pool: _node_mapping(ctx, p))
op("Pattern", "compose", lambda ctx, p, pool: _compose(ctx, p, pool), 3)
op("Pattern", "simulate", lambda ctx, p, pool: _simulate(ctx, p, pool), 4)
op("Pattern", "sort_measurement_commands", lambda ctx, p, pool: _sort(ctx, p), 1)
op("Pattern", "qasm3", lambda ctx, p, pool: ("", _qasm, []), 1)
op("Pattern", "minimize(copy,[])", lambda ctx, p, pool: ("", lambda q: q.minimize_space([], copy=True), []), 1)
op("Pattern", "Pattern(lists)", lambda ctx, p, pool: _rebuild(p), 2)

simple("Pattern", {
    "standardize": lambda p: p.standardize(), "shift_signals": lambda p: p.shift_signals(), "shift_signals(mc)": lambda p: p.shift_signals(method="mc"),
    "minimize_space": lambda p: p.minimize_space() and None, "parallelize": lambda p: p.parallelize_pattern(), "infer": lambda p: p.infer_pauli_measurements() and None,
    "push": lambda p: p.perform_pauli_pushing() and None, "remove_pauli": lambda p: p.remove_pauli_measurements() and None,
    "remove_clifford": lambda p: p.remove_local_clifford_commands() and None, "blochify": lambda p: p.blochify() and None,
    "reindex": lambda p: p.reindex(lambda n: n + 11) and None, "remove_input_nodes": lambda p: p.remove_input_nodes(),
    "standardize+shift": lambda p: (p.standardize(), p.shift_signals())[1],
}, weight=3, mutates=True)
simple("Pattern", {"clear": lambda p: p.clear()}, weight=1, mutates=True)
op("Pattern", "add", lambda ctx, p, pool: _add(ctx, p), 2, True)
op("Pattern", "replace", lambda ctx, p, pool: _replace(ctx, p), 1, True)
op("Pattern", "reorder_output", lambda ctx, p, pool: _reorder(ctx, p, 0), 2, True)
op("Pattern", "reorder_input", lambda ctx, p, pool: _reorder(ctx, p, 1), 2, True)


def _draw(ctx, annotations=False):
    if not ctx.flag(1, 3):  # rendering is slow
        raise Discard
    ctx.probe("draw")
    kw = {k: ctx.flag(1, 2) for k in ("pauli_measurements", "measurement_labels", "local_clifford", "node_labels", "legend")}
    if annotations:
        kw["annotations"] = ctx.pick([None, *DrawPatternAnnotations])
    show = ctx.flag(1, 2)
    disk_full = not show and ctx.flag(1, 3)
    if disk_full:
        ctx.fault("disk-full")

    def savefig(*args, **kwargs):
        if disk_full:
            raise OSError(28, "No space left on device")

    def call(o):
        with mock.patch.object(plt, "show", lambda *a, **k: None), mock.patch.object(plt, "savefig", savefig):
            try:
                o.draw(**kw, **({} if show else {"filename": "/nonexistent/drawing"}))
            except ValueError:  # nothing to draw
                pass
            except OSError:
                if not disk_full:
                    raise
            finally:
                plt.close("all")

    return f"({kw}{', full disk' if disk_full else ''})", call, []


op("Pattern", "draw", lambda ctx, p, pool: _draw(ctx, True), 1)
for _kind in ("OpenGraph", "Flow", "XZ"):
    op(_kind, "draw", lambda ctx, o, pool: _draw(ctx), 1)


def _connected(ctx, p):
    nodes = sorted(p.nodes())
    if not nodes:
        raise Discard
    v, prepared = ctx.pick(nodes), set(ctx.subset(nodes))
    return f"({v}, {prepared})", lambda q: q.connected_nodes(v, prepared), [prepared]


def _node_mapping(ctx, p):
    nodes = sorted(p.nodes())
    m = {n: 40 + n for n in ctx.subset(nodes)}
    av, pr = {1, 2, 41}, [n for n in ctx.subset(nodes) if n not in m]
    return f"({m})", lambda q: q.node_mapping(m, avoids=av, preserves=pr), [m, av, pr]


def _compose(ctx, p, pool):
    q = ctx.pick(same_kind(pool, "Pattern"))
    if len(p.nodes()) + len(q.nodes()) > 24:
        raise Discard
    m = {a: b for a, b in zip(ctx.shuffle(list(q.input_nodes)), ctx.shuffle(list(p.output_nodes)))} if ctx.draw(2) else {}
    if q is p and ctx.draw(2):
        m = {}
    return f"({m}) with {'itself' if q is p else 'another'}", lambda o: o.compose(q, m), [m]


def _simulate(ctx, p, pool):
    need = ref.space_needed(list(p), len(p.input_nodes))
    if need > 7:
        raise Discard
    n = len(p.input_nodes)
    seed = ctx.npseed()
    kw, args = {}, []
    be = ctx.pick(["statevector", "densitymatrix", "tensornetwork"]) if need <= 4 else "statevector"
    if be != "tensornetwork" and n and ctx.draw(2):
        inp = [s for s in same_kind(pool, "SV") if s.nqubit == n]
        if be == "densitymatrix":
            inp += [s for s in same_kind(pool, "DM") if s.nqubit == n]
        arr = gen.random_unit_vector(ctx, 1 << n)
        inp += [arr, list(arr), [BasicStates.ONE] * n]
        kw["input_state"] = ctx.pick(inp)
        if not kind_of(kw["input_state"]):
            args.append(kw["input_state"])
    if be == "densitymatrix" and ctx.draw(2):
        nm = same_kind(pool, "Noise")
        if nm:
            kw["noise_model"] = ctx.pick(nm)
    sel = ctx.draw(3)
    fixed = {m: ctx.draw(2) for m in ctx.subset(measured_nodes(p), 1, 4)} if sel == 1 else {}
    args.append(fixed)

    def call(q):
        s = FixedBranchSelector(fixed, default=RandomBranchSelector()) if sel == 1 else RandomBranchSelector(pr_calc=sel == 0)
        with np.errstate(all="ignore"):
            st = q.simulate(be, branch_selector=s, rng=np.random.default_rng(seed), **kw)
        return st

    return f"({be}, {sorted(kw)})", call, args


def _sort(ctx, p):
    order = ctx.shuffle(measured_nodes(p))
    return f"({order})", lambda q: [c.node for c in q.sort_measurement_commands(order)], [order]


def _qasm(p):
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "p.qasm")
        p.to_qasm3(f)
        return open(f).read()


def _rebuild(p):
    ins, cmds, outs = list(p.input_nodes), list(p), list(p.output_nodes)

    def call(q):
        r = Pattern(ins, cmds, outs)
        return r

    return "", call, [ins, cmds, outs]


def _add(ctx, p):
    live = list(p.output_nodes)
    new = max(p.nodes() | {0}) + 1 + ctx.draw(3)
    k = ctx.draw(4)
    cmds = [command.N(new)]
    if k >= 1 and live:
        cmds.append(command.E((new, ctx.pick(live))))
    if k >= 2 and live:
        cmds.append(command.M(ctx.pick(live), Measurement.XY(0.25), s_domain=set(ctx.subset(measured_nodes(p)))))
    if k == 3:
        cmds.append(command.Z(new, set(ctx.subset(measured_nodes(p)))))

    def call(q):
        cs = [_copy.copy(c) for c in cmds]
        if k == 0:
            q.add(cs[0])
        else:
            q.extend(cs)

    return f"({len(cmds)} commands)", call, []


def _replace(ctx, p):
    cmds = [_copy.copy(c) for c in p][: max(0, len(p) - ctx.draw(3))]
    return f"({len(cmds)} commands)", lambda q: q.replace(cmds), [cmds]


def _reorder(ctx, p, inputs):
    nodes = ctx.shuffle(list(p.input_nodes if inputs else p.output_nodes))

    def call(q):
        (q.reorder_input_nodes if inputs else q.reorder_output_nodes)(nodes)

    return f"({nodes})", call, [nodes]


# circuits ------------------------------------------------------

class Shift(InstructionVisitor):
    def __init__(self, w):
        self.w = w

    def visit_qubit(self, qubit):
        return (qubit + 1) % self.w

    def visit_angle(self, angle):
        return angle + 0.125


simple("Circuit", {
    "repr": repr, "transpile": lambda c: _tp(c.transpile()), "transpile(noswap)": lambda c: _tp(c.transpile(transpile_swaps=False)),
    "flow": lambda c: c.transpile_to_causalflow(), "swaps(copy)": lambda c: transpile_swaps(c, copy=True), "visit(copy)": lambda c: c.visit(Shift(c.width), copy=True),
    "apply_angle(copy)": lambda c: c.apply_angle(lambda a: a * 2, copy=True), "is_parameterized": lambda c: c.is_parameterized(), "qasm": circuit_to_qasm3,
    "zaxis": lambda c: c.transpile_measurements_to_z_axis(), "rzh": lambda c: c.transpile_j_to_rzh(), "rebuild": lambda c: Circuit(c.width, instr=c.instruction),
    "replace(copy)": lambda c: c.replace_parameter(Placeholder("a"), 0.5, copy=True), "deepcopy": _copy.deepcopy,
}, weight=2)
op("Circuit", "simulate", lambda ctx, c, pool: _csim(ctx, c, pool), 3)
simple("Circuit", {
    "swaps": lambda c: transpile_swaps(c) and None, "visit": lambda c: c.visit(Shift(c.width)) and None, "apply_angle": lambda c: c.apply_angle(lambda a: a + 0.5) and None,
}, weight=2, mutates=True)
op("Circuit", "gate", lambda ctx, c, pool: _gate(ctx, c), 3, True)
op("Circuit", "edit", lambda ctx, c, pool: _edit(ctx, c), 3, True)


def _tp(t):
    return [t.pattern, list(t.classical_outputs)]


def _csim(ctx, c, pool):
    seed = ctx.npseed()
    kw = {}
    svs = [s for s in same_kind(pool, "SV") if s.nqubit == c.width]
    if svs and ctx.draw(2):
        kw["input_state"] = ctx.pick(svs)
    be = ctx.pick(["statevector", "densitymatrix"])

    def call(o):
        r = o.simulate(backend=be, rng=np.random.default_rng(seed), **kw)
        return [r.state, list(r.classical_measures)]

    return f"({be})", call, []


def _gate(ctx, c):
    act = sorted(c.active_qubits)
    if not act:
        raise Discard
    q = ctx.pick(act)
    ins = [instruction.H(q), instruction.RX(q, 0.3)]
    if ctx.flag(1, 4):
        ins.append(instruction.M(q, Axis.X))
    return f"{ins}", lambda o: o.extend(ins), [ins]


def _edit(ctx, c):
    """The caller edits an instruction of the circuit."""
    i = ctx.draw(len(c.instruction)) if c.instruction else None
    if i is None or not hasattr(c.instruction[i], "angle"):
        k = ctx.draw(2)

        def call(o):
            if k and o.instruction:
                o.instruction.pop()
            else:
                o.instruction.insert(0, instruction.H(0))

        if any(x.kind.name == "M" for x in c.instruction):
            raise Discard
        return "(list)", call, []

    def call2(o):
        o.instruction[i].angle = 0.875

    return f"(angle of {i})", call2, []


# open graphs, flows, corrections, standardised patterns --------

simple("OpenGraph", {
    "to_pattern": lambda o: o.to_pattern(), "to_bloch": lambda o: o.to_bloch(), "infer": lambda o: o.infer_pauli_measurements(), "map": lambda o: o.map(lambda m: m),
    "pflow": lambda o: o.to_pauliflow_or_none(), "gflow": lambda o: o.to_bloch().to_gflow_or_none(), "cflow": lambda o: o.to_bloch().to_causalflow_or_none(),
    "circuit": lambda o: o.to_circuit(), "isclose": lambda o: o.isclose(o), "structural": lambda o: o.is_equal_structurally(o),
    "with_parameter": lambda o: o.with_parameter(Placeholder("a"), 0.5), "with_parameters": lambda o: o.with_parameters({Placeholder("a"): 0.5}),
}, weight=2)
op("OpenGraph", "neighbors", lambda ctx, o, pool: _neigh(ctx, o), 2)
op("OpenGraph", "compose", lambda ctx, o, pool: _ogcompose(ctx, o, pool), 3)


def _neigh(ctx, o):
    s = set(ctx.subset(sorted(o.graph.nodes)))
    return f"({s})", lambda x: [x.neighbors(s), x.odd_neighbors(s)], [s]


def _ogcompose(ctx, o, pool):
    q = ctx.pick(same_kind(pool, "OpenGraph"))
    if len(o.graph) + len(q.graph) > 16:
        raise Discard
    m = {a: b for a, b in zip(ctx.shuffle(list(q.input_nodes)), ctx.shuffle(list(o.output_nodes)))} if ctx.draw(2) else {}
    return f"({m})", lambda x: x.compose(q, m), [m]


simple("Flow", {
    "corrections": lambda f: f.to_xzcorrections(), "check": lambda f: f.check_well_formed(), "well": lambda f: f.is_well_formed(), "ascii": lambda f: f.to_ascii(),
    "latex": lambda f: f.to_latex(), "unicode": lambda f: f.to_unicode(), "focused": lambda f: f.is_focused(), "strings": lambda f: str(f.extraction_pauli_strings) and None,
    "extract": lambda f: str(f.extract_circuit()) and None, "circuit": lambda f: f.extract_circuit().to_circuit(), "pattern": lambda f: f.to_xzcorrections().to_pattern(),
    "with_parameter": lambda f: f.with_parameter(Placeholder("a"), 0.5), "repr": repr,
}, weight=2)
simple("XZ", {
    "pattern": lambda x: x.to_pattern(), "check": lambda x: x.check_well_formed(), "dag": lambda x: x.to_dag(), "order": lambda x: list(x.generate_total_measurement_order()),
    "pflow": lambda x: x.to_pauliflow(), "gflow": lambda x: x.to_bloch().to_gflow(), "cflow": lambda x: x.to_bloch().to_causalflow(), "ascii": lambda x: x.to_ascii(),
    "unicode": lambda x: x.to_unicode(), "to_bloch": lambda x: x.to_bloch(), "with_parameters": lambda x: x.with_parameters({Placeholder("a"): 0.5}),
}, weight=2)
op("XZ", "to_pattern(order)", lambda ctx, x, pool: _xzorder(ctx, x), 3)
op("XZ", "from_mapping", lambda ctx, x, pool: _xzmap(x), 2)
simple("Std", {
    "pattern": lambda s: s.to_pattern(), "space": lambda s: s.to_space_optimal_pattern(), "og": lambda s: s.to_opengraph(), "layers": lambda s: [set(x) for x in s.partial_order_layers()],
    "xz": lambda s: s.to_xzcorrections(), "map": lambda s: s.map(lambda m: m.to_bloch()), "to_bloch": lambda s: s.to_bloch(), "push": lambda s: s.perform_pauli_pushing(),
    "max_space": lambda s: s.max_space(), "minimize": lambda s: s.minimize_space(), "graph": lambda s: sorted(s.graph().nodes) if callable(s.graph) else sorted(s.graph.nodes),
}, weight=2)


def _xzorder(ctx, x):
    order = list(x.generate_total_measurement_order())
    if ctx.draw(3) == 0:
        order = ctx.shuffle(order)
    return f"({order})", lambda y: [y.to_pattern(total_measurement_order=order), y.is_compatible(order)], [order]


def _xzmap(x):
    xc, zc = {a: set(b) for a, b in x.x_corrections.items()}, {a: set(b) for a, b in x.z_corrections.items()}
    return "", lambda y: XZCorrections.from_measured_nodes_mapping(y.og, xc, zc), [xc, zc]


# graph states --------------------------------------------------

simple("GraphState", {
    "copy": lambda g: g.copy(), "statevector": lambda g: g.to_statevector(), "vops": lambda g: g.extract_vops(), "isolated": lambda g: g.isolated_nodes(),
    "neighbors": lambda g: [list(g.neighbors(n)) for n in g.nodes], "deepcopy": _copy.deepcopy,
    "reimport": lambda g: GraphState(nodes=list(g.nodes), edges=list(g.edges), vops=g.extract_vops()),
}, weight=3)
op("GraphState", "ctor", lambda ctx, g, pool: _gsctor(g), 2)
op("GraphState", "local", lambda ctx, g, pool: _gslocal(ctx, g), 5, True)
op("GraphState", "edges", lambda ctx, g, pool: _gsedges(ctx, g), 2, True)
op("GraphState", "apply_vops", lambda ctx, g, pool: _gsvops(ctx, g), 2, True)


def _gsctor(g):
    nodes, edges, vops = list(g.nodes), list(g.edges), g.extract_vops()
    return "", lambda h: GraphState(nodes=nodes, edges=edges, vops=vops), [nodes, edges, vops]


def _gslocal(ctx, g):
    if len(g.nodes) < 2:
        raise Discard
    v = ctx.pick(sorted(g.nodes))
    m = ctx.pick(["h", "s", "z", "local_complement", "equivalent_fill_node", "measure_x", "measure_y", "measure_z", "flip_sign", "advance"])
    if m.startswith("measure"):
        c = ctx.draw(2)
        return f".{m}({v},{c})", lambda h: getattr(h, m)(v, choice=c), []
    return f".{m}({v})", lambda h: getattr(h, m)(v), []


def _gsedges(ctx, g):
    ns = sorted(g.nodes)
    if len(ns) < 2:
        raise Discard
    a, b = ctx.shuffle(ns)[:2]
    es = [(a, b)]
    rm = g.has_edge(a, b)
    return f"{es}", lambda h: (h.remove_edges_from if rm else h.add_edges_from)(es), [es]


def _gsvops(ctx, g):
    v = {n: ctx.pick(list(Clifford)) for n in ctx.subset(sorted(g.nodes))}
    return f"{v}", lambda h: h.apply_vops(v), [v]


# states --------------------------------------------------------

HH = np.kron(np.array(Ops.H), np.array(Ops.S))
for _k, _cls in (("SV", Statevector), ("DM", DensityMatrix)):
    simple(_k, {
        "ctor": lambda s, c=_cls: c(s), "deepcopy": _copy.deepcopy, "repr": repr, "str": str, "nqubit": lambda s: s.nqubit,
    }, weight=3)
    op(_k, "array", lambda ctx, s, pool, c=_cls: _array(s, c), 2)
    op(_k, "fidelity", lambda ctx, s, pool, k=_k: _fid(ctx, s, pool, k), 2)
    op(_k, "expectation", lambda ctx, s, pool: _expect(ctx, s), 3)
    op(_k, "evolve", lambda ctx, s, pool: _evolve(ctx, s), 4, True)
    op(_k, "tensor", lambda ctx, s, pool, k=_k: _tensor(ctx, s, pool, k), 2, True)
    op(_k, "add_nodes", lambda ctx, s, pool: _addnodes(ctx, s, pool), 2, True)
    op(_k, "project", lambda ctx, s, pool: _project(ctx, s), 2, True)
op("SV", "capacity", lambda ctx, s, pool: _capacity(ctx, s), 4)
simple("SV", {"dict": lambda s: s.to_dict(), "prob": lambda s: s.to_prob_dict(), "dm": DensityMatrix, "bigger": lambda s: Statevector(s, max_qubits=s.nqubit + 2)}, weight=2)
simple("DM", {"flatten": lambda s: s.flatten(), "dims": lambda s: s.dims()}, weight=2)
op("DM", "channel", lambda ctx, s, pool: _channel(ctx, s), 3, True)
simple("DM", {"normalize": lambda s: s.normalize()}, weight=1, mutates=True)


def _capacity(ctx, s):
    m = s.nqubit + ctx.draw(4)
    return f"({m})", lambda t: Statevector(t, max_qubits=m), []


def _array(s, cls):
    a = np.array(s.rho if cls is DensityMatrix else s.flatten())
    return "", lambda t: cls(a), [a]


def _fid(ctx, s, pool, k):
    o = [t for t in same_kind(pool, "SV") if t.nqubit == s.nqubit]
    if not o:
        raise Discard
    t = ctx.pick(o)
    return "", (lambda x: [x.fidelity(t), x.isclose(t)]) if k == "SV" else (lambda x: x.fidelity(t)), []


def _expect(ctx, s):
    if s.nqubit == 0:
        raise Discard
    q = ctx.draw(s.nqubit)
    o = np.array(ctx.pick([Ops.X, Ops.Y, Ops.Z]))
    if isinstance(s, Statevector) and ctx.draw(2):
        return f"value({q})", lambda t: t.expectation_value(o, [q]), [o]
    return f"single({q})", lambda t: t.expectation_single(o, q), [o]


def _evolve(ctx, s):
    n = s.nqubit
    if n == 0:
        raise Discard
    qs = ctx.shuffle(range(n))
    k = ctx.draw(6)
    if k == 0 or n < 2:
        o = np.array(ctx.pick([Ops.H, Ops.S, Ops.X]))
        return f"_single({qs[0]})", lambda t: t.evolve_single(o, qs[0]), [o]
    if k == 1:
        o, l = HH.copy(), list(qs[:2])
        return f"({l})", lambda t: t.evolve(o, l), [o, l]
    if k == 2:
        return f" entangle{tuple(qs[:2])}", lambda t: t.entangle(tuple(qs[:2])), []
    if k == 3:
        return f" swap{tuple(qs[:2])}", lambda t: t.swap(tuple(qs[:2])), []
    perm = list(qs)
    return f" permute{perm}", lambda t: t.permute(perm), [perm]


def _tensor(ctx, s, pool, k):
    o = [t for t in same_kind(pool, k) if t.nqubit + s.nqubit <= (6 if k == "SV" else 4) and t is not s]
    if not o:
        raise Discard
    t = ctx.pick(o)
    return "", lambda x: x.tensor(t), []


def _addnodes(ctx, s, pool):
    if s.nqubit > (5 if isinstance(s, Statevector) else 3):
        raise Discard
    d = ctx.pick([BasicStates.PLUS, BasicStates.ZERO, [BasicStates.ONE], np.array([0.6, 0.8j]), [0.6, -0.8],
                  *[t for t in same_kind(pool, "SV") if t.nqubit == 1 and t is not s]])
    return "", lambda x: x.add_nodes(1, d), [] if kind_of(d) else [d]


def _project(ctx, s):
    if s.nqubit < 2:
        raise Discard
    q = ctx.draw(s.nqubit)
    p = np.array([[0.5, -0.5j], [0.5j, 0.5]])
    u = np.array(Ops.H)

    def call(t):
        t.evolve_single(u, q)
        t.project_qubit(p, q)

    return f"({q})", call, [p, u]


def _channel(ctx, s):
    if s.nqubit == 0:
        raise Discard
    ch = depolarising_channel(0.125)
    qs = [ctx.draw(s.nqubit)]
    return f"({qs})", lambda t: t.apply_channel(ch, qs), [qs, ch]


# tensor networks -----------------------------------------------

simple("TN", {
    "copy": lambda t: t.copy(), "deepcopy": lambda t: t.copy(deep=True), "sv": lambda t: np.round(t.to_statevector(), 9) + 0, "flatten": lambda t: np.round(t.flatten(), 9) + 0,
    "norm": lambda t: round(t.norm(), 9), "coef": lambda t: complex(np.round(t.basis_coefficient(0), 9)) + 0,
}, weight=3)
op("TN", "expectation", lambda ctx, t, pool: _tnexp(ctx, t), 2)
op("TN", "evolve_single", lambda ctx, t, pool: _tnev1(ctx, t), 4, True)
op("TN", "evolve", lambda ctx, t, pool: _tnev2(ctx, t), 3, True)
op("TN", "add_qubit", lambda ctx, t, pool: _tnadd(ctx, t), 2, True)


def _outs(t):
    if not t.default_output_nodes:
        raise Discard
    return list(t.default_output_nodes)


def _tnexp(ctx, t):
    n = len(_outs(t))
    qs = [ctx.draw(n)]
    o = np.array(Ops.Z)
    return f"({qs})", lambda x: complex(np.round(x.expectation_value(o, qs), 9)) + 0, [o, qs]


def _tnev1(ctx, t):
    v = ctx.pick(_outs(t))
    o = np.array(ctx.pick([Ops.H, Ops.S]))
    return f"({v})", lambda x: x.evolve_single(v, o), [o]


def _tnev2(ctx, t):
    outs = _outs(t)
    if len(outs) < 2:
        raise Discard
    qs = ctx.shuffle(range(len(outs)))[:2]
    o = np.array(Ops.CNOT)
    d = bool(ctx.draw(2))
    return f"({qs}, {d})", lambda x: x.evolve(o, list(qs), decompose=d), [o]


def _tnadd(ctx, t):
    new = 700 + len(t.tensors)
    st = np.array([0.6, 0.8j])
    return f"({new})", lambda x: x.add_qubit(new, st), [st]


# noise models --------------------------------------------------

op("Noise", "transpile", lambda ctx, nm, pool: _ntrans(ctx, nm, pool), 4)
op("Noise", "input_nodes", lambda ctx, nm, pool: _nin(ctx, nm), 2)


def _ntrans(ctx, nm, pool):
    ps = same_kind(pool, "Pattern")
    if not ps:
        raise Discard
    p = ctx.pick(ps)
    seed = ctx.npseed()
    return "", lambda m: [c for c in m.transpile(p, rng=np.random.default_rng(seed))] and list(m.transpile(p, rng=np.random.default_rng(seed))), []


def _nin(ctx, nm):
    nodes = [3, 1, 2]
    seed = ctx.npseed()
    return "", lambda m: list(m.input_nodes(nodes, rng=np.random.default_rng(seed))), [nodes]


# ---------------------------------------------------------------- rebuilding from observable contents

def rebuild(e):
    o = e.obj
    if e.kind == "Pattern":
        p = Pattern(list(o.input_nodes), [_copy.deepcopy(c) for c in o], list(o.output_nodes))
        return p if key(p) == e.key else None
    if e.kind == "Circuit":
        c = Circuit(o.width)
        c.instruction = [_copy.copy(i) for i in o.instruction]
        c.active_qubits = set(o.active_qubits)
        return c
    if e.kind == "GraphState":
        g = GraphState()
        for n, d in o.nodes.items():
            g.add_nodes_from([n])
            g.nodes[n].update(d)
        # same adjacency order: some operations pick "a neighbour"
        for n in o.nodes:
            for m in o.adj[n]:
                g.add_edge(n, m)
        if any(list(g.adj[n]) != list(o.adj[n]) for n in o.nodes):
            return None
        return g
    if e.kind == "SV":
        v = np.array(o.flatten())
        return Statevector(v) if np.isclose(np.linalg.norm(v), 1) else None
    if e.kind == "DM":
        d = DensityMatrix(BasicStates.PLUS, nqubit=0)
        d.rho = np.array(o.rho)
        return d
    return None


def outcome_of(call, obj):
    try:
        return "ok", call(obj)
    except Discard:
        raise
    except REFUSED as e:
        return "refused", type(e).__name__
    except Exception as e:  # noqa: BLE001
        if type(e).__module__.startswith("graphix"):
            return "refused", type(e).__name__
        raise


def numkey(x):
    """Key of a result (the index labels inside tensor networks are arbitrary)."""
    if isinstance(x, MBQCTensorNet):
        v = tn_state(x)
        return ("TN", x.default_output_nodes, None if v is None else tuple((np.round(v, 7) + 0).tolist()))
    return key(x)


CONSTANTS = [np.array(m) for m in (Ops.X, Ops.Y, Ops.Z, Ops.H, Ops.S, Ops.CNOT, Ops.CZ)]


def constants():
    return key([Ops.X, Ops.Y, Ops.Z, Ops.H, Ops.S, Ops.CNOT, Ops.CZ, Ops.SWAP, [c.matrix for c in Clifford],
                [s.to_statevector_numpy() for s in (BasicStates.PLUS, BasicStates.ZERO, BasicStates.PLUS_I, BasicStates.MINUS)]])


def seed_objects(ctx):
    k = ctx.draw(9)
    if k <= 1:
        p = gen.general_pattern(ctx, max_nodes=7, max_live=5, e_after_c=ctx.flag(1, 6), states=ctx.flag(1, 3), pauli_bias=True)
        return [(p, "generated")]
    if k == 2:
        og = gen.flow_open_graph(ctx, max_nodes=7, out_cliffords=ctx.flag(1, 2))
        f = og.to_pauliflow_or_none()
        if f is None:
            raise Discard
        x = f.to_xzcorrections()
        return [(og, "generated"), (f, "flow"), (x, "corrections"), (x.to_pattern(), "pattern")]
    if k == 3:
        c = gen.circuit(ctx, max_width=3, max_depth=5, measures=True)
        return [(c, "generated"), (c.transpile().pattern, "transpiled")]
    if k == 4:
        n = ctx.int(2, 5)
        g0 = gen.graph(ctx, n)
        return [(GraphState(nodes=list(g0.nodes), edges=list(g0.edges)), "generated")]
    if k == 5:
        n = ctx.int(1, 3)
        v = gen.random_unit_vector(ctx, 1 << n)
        return [(Statevector(v, max_qubits=n + ctx.draw(3)), "generated"), (DensityMatrix(v), "generated")]
    if k == 6:
        c = gen.circuit(ctx, max_width=2, max_depth=3)
        p = c.transpile().pattern
        return [(p.simulate("tensornetwork", rng=np.random.default_rng(ctx.npseed())), "simulated"), (p, "transpiled")]
    if k == 7:
        p = gen.general_pattern(ctx, max_nodes=5, max_live=4, pauli_bias=True)
        return [(build_noise(ctx, draw_model(ctx)), "generated"), (p, "generated"), (DensityMatrix(gen.random_unit_vector(ctx, 1 << max(1, len(p.input_nodes)))), "generated")]
    p = gen.flow_open_graph(ctx, max_nodes=6).to_pauliflow_or_none()
    if p is None:
        raise Discard
    q = p.to_xzcorrections().to_pattern()
    return [(q, "generated"), (StandardizedPattern.from_pattern(q), "standardised")]


def history(ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        _history(ctx)


def _history(ctx):
    pool = [Entry(o, w) for o, w in seed_objects(ctx)]
    hist = []
    reads = []
    consts = constants()
    what = lambda: " ; ".join(hist)  # noqa: E731
    for e in pool:
        ctx.probe("kind:" + e.kind)

    def verify(skip, doing):
        for i, e in enumerate(pool):
            if e is skip:
                continue
            if not e.same():
                rel = f"object {i} ({e.kind}, {e.origin})"
                raise Violation("changed", f"{rel} changed by {doing}: {e.key} -> {key(e.obj)}: {what()}")
        ctx.evals += len(pool)

    nsteps = ctx.int(3, 14)
    fresh_mut = False
    for _ in range(nsteps):
        i = ctx.draw(len(pool))
        e = pool[i]
        if ctx.flag(1, 8) and reads:
            # repeat an earlier read on an unchanged object
            r = ctx.pick(reads)
            ent, ver, name, call, want, deps = r
            if ent.version == ver and all(d.version == v for d, v in deps):
                hist.append(f"again {name}")
                got = outcome_of(call, ent.obj)
                k2 = (got[0], numkey(got[1]))
                ctx.probe("reread")
                ctx.check(close(k2, want, got), "reread", lambda: f"{name} gave {want}, later on the same unchanged object {k2}: {what()}")
                verify(None, "again " + name)
            continue
        if e.kind == "Pattern" and ctx.flag(1, 8):
            copy_commands(ctx, e, i, hist, verify)
            continue
        name, _w, mutates, factory = ctx.weighted([(t, t[1]) for t in OPS[e.kind]])
        try:
            d, call, args = factory(ctx, e.obj, pool)
        except Discard:
            continue
        doing = f"{i}:{e.kind}.{name}{d}"
        hist.append(doing)
        ctx.describe(what())
        argkeys = key(args)
        clone = rebuild(e) if mutates else None
        res = outcome_of(call, e.obj)
        ctx.log(doing, res[0])
        ctx.step()
        ctx.check(key(args) == argkeys, "argument-changed", lambda: f"{doing} changed its arguments: {diffs(argkeys, key(args))}: {what()}")
        if mutates:
            verify(e, doing)
            ctx.probe("mutated")
            ctx.fault("mutation")
            if len(pool) > 1:
                ctx.nontrivial()
            if clone is not None:
                res2 = outcome_of(call, clone)
                ctx.check(key(clone) == key(e.obj) and res[0] == res2[0], "history-dependent",
                          lambda: f"{doing} on an object with a history gives {res[0]} {key(e.obj)}, on one rebuilt from its contents {res2[0]} {key(clone)}: {what()}")
            e.refresh()
            e.version += 1
        else:
            verify(None, doing)
            deps = [(x, x.version) for x in pool if x is not e]
            reads.append((e, e.version, doing, call, (res[0], numkey(res[1])), deps))
        if res[0] == "ok":
            objs = []
            flatten_results(res[1], objs)
            plain = res[1]
            for o in objs:
                if not mutates and o is e.obj and e.kind in ("Pattern", "Circuit", "SV", "DM", "TN", "GraphState"):
                    raise Violation("not-a-copy", f"{doing} returns its operand instead of a new object: {e.key}: {what()}")
                if any(o is x.obj for x in pool):
                    continue
                if len(pool) < 9 and small(o):
                    if any(x.obj is o for x in pool):
                        continue
                    pool.append(Entry(o, doing))
                    ctx.probe("derived")
                    ctx.probe("kind:" + kind_of(o))
            if ctx.draw(2) and scribble(plain):
                hist.append("overwrite the result")
                ctx.fault("result-overwritten")
                ctx.probe("scribbled")
                ctx.nontrivial()
                verify(None, f"overwriting the result of {doing}")
            if args and ctx.draw(2) and not any(isinstance(a, KrausChannel) for a in args) and retained_ok(doing):
                reads = [r for r in reads if r[2] != doing]
                if scribble(args):
                    hist.append("overwrite the arguments")
                    ctx.fault("argument-overwritten")
                    ctx.probe("scribbled")
                    verify(None, f"overwriting the arguments of {doing}")
                reads = [r for r in reads if r[3] is not call]
    ctx.check(constants() == consts, "constants", lambda: f"a constant of graphix changed: {what()}")


def retained_ok(doing):
    # frozen corrections keep the mappings they are built from (read-only attributes)
    # tensor networks keep the arrays they are given as tensor data (as quimb does)
    return "from_mapping" not in doing and ":TN." not in doing


def close(a, b, got):
    return a == b


def small(o):
    k = kind_of(o)
    if k == "Pattern":
        return len(o.nodes()) <= 24
    if k == "SV":
        return o.nqubit <= 6
    if k == "DM":
        return o.nqubit <= 4
    if k == "OpenGraph":
        return len(o.graph) <= 16
    return True


def copy_commands(ctx, e, i, hist, verify):
    """The caller modifies the commands of an explicit copy."""
    c = e.obj.copy()
    cmds = list(c)
    if not cmds:
        return
    hist.append(f"modify the commands of {i}:Pattern.copy()")
    ctx.probe("copy-commands")
    ctx.nontrivial()
    ctx.fault("copy-modified")
    ctx.check(key(c) == e.key, "copy-differs", lambda: f"copy differs: {e.key} -> {key(c)}")
    for cmd in cmds:
        k = cmd.kind.name
        if k in "XZ":
            cmd.domain.add(911) if ctx.draw(2) else setattr(cmd, "domain", {912})
        elif k == "M":
            which = ctx.draw(4)
            if which == 0:
                cmd.s_domain.add(913)
            elif which == 1:
                cmd.t_domain.add(914)
            elif which == 2:
                cmd.measurement = Measurement.XZ(0.111)
            else:
                cmd.node += 50
        elif k == "E":
            cmd.nodes = (915, 916)
        elif k in "NC":
            cmd.node += 50
    verify(None, hist[-1])


SCENARIOS = [("history", history, 1)]
