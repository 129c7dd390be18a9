"""C22: drawings show the whole object, whatever the layout draws and whatever happens to the screen or the file."""

from __future__ import annotations

import contextlib
import os
import resource
import shutil
import tempfile
import warnings
from pathlib import Path
from unittest import mock

import matplotlib as mpl

mpl.use("Agg")

import matplotlib.pyplot as plt
import networkx as nx
import numpy as np
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.colors import to_rgba
from matplotlib.lines import Line2D
from matplotlib.patches import FancyArrowPatch
from matplotlib.text import Annotation

from dst import flowref, gen
from dst.core import Discard, Violation

plt.switch_backend("Agg")

from graphix import visualization as viz
from graphix.flow.core import CausalFlow, PauliFlow, XZCorrections
from graphix.fundamentals import Axis, Plane
from graphix.graphsim import GraphState
from graphix.measurements import Measurement
from graphix.opengraph import OpenGraph, OpenGraphError
from graphix.pattern import DrawPatternAnnotations, Pattern, PatternError
from graphix.visualization import GraphVisualizer

LEVEL = "exploration"
QUICK_RUNS = 900
THOROUGH_RUNS = 60000
REAL = ["graphix.visualization and the draw methods of open graphs, flows, XZ-corrections, patterns and graph states", "matplotlib (Agg), networkx layouts, PNG files in a scratch directory"]
STUB = ["the screen (matplotlib's show)", "the file size limit and the state of the target directory that saving meets", "in some runs, the spring layout"]
RULE = ("histories of drawings of one to three objects with drawn options, layouts drawn from a seeded or an adversarial source, a figure of the user's open, "
        "and failing screens and files; non-trivial = a figure with at least two nodes was read back")
ASSUMPTIONS = ["a figure is read back from its matplotlib artists (markers, lines, arrows, texts, legend), not from pixels",
               "nodes measured along an abstract Axis may or may not be highlighted as Pauli-measured",
               "routing of bent edges around nodes is best effort and not judged"]
REQUIRED_PROBES = ("opengraph", "causalflow", "flow", "xz", "pattern-none", "pattern-flow", "pattern-xz", "graphstate", "self-loop", "straight-arrow", "bent-arrow", "bent-edge",
                   "saved", "save-failed", "interrupted", "adversarial-layout", "labels-mapping", "cliffords-shown", "scaled")

EPS = 1e-6


# ---------------------------------------------------------------- reading a figure

def _rgba(c):
    return tuple(round(float(x), 3) for x in to_rgba(c))


class Picture:
    """What a figure shows, in data coordinates."""

    def __init__(self, ax):
        self.nodes, self.dashed, self.solid, self.arrows, self.heads, self.seps, self.texts, self.greys = [], [], [], [], [], [], [], []
        self.xlim, self.ylim = ax.get_xlim(), ax.get_ylim()
        data = ax.transData
        for c in ax.collections:
            if isinstance(c, PathCollection):
                offs = np.ma.filled(c.get_offsets(), np.nan)
                fc, ec, paths = c.get_facecolor(), c.get_edgecolor(), c.get_paths()
                for i, o in enumerate(offs):
                    p = paths[i % len(paths)]
                    shape = "round" if p.codes is not None and (p.codes == 4).any() else len(p.vertices) - 1
                    self.nodes.append((tuple(map(float, o)), shape, _rgba(fc[i % len(fc)]), _rgba(ec[i % len(ec)])))
            elif isinstance(c, LineCollection):
                styles = c.get_linestyle()
                for i, s in enumerate(c.get_segments()):
                    dashes = styles[i % len(styles)][1]
                    (self.dashed if dashes else self.solid).append(([tuple(map(float, p)) for p in s], _rgba(c.get_color()[i % len(c.get_color())])))
        for ln in ax.lines:
            if not isinstance(ln, Line2D):
                continue
            xy = [tuple(map(float, p)) for p in zip(ln.get_xdata(), ln.get_ydata())]
            if ln.get_transform() != data:
                if len(xy) == 2 and xy[0][0] == xy[1][0]:
                    self.seps.append(xy[0][0])
                continue
            if xy:
                (self.solid if ln.get_linestyle() == "-" else self.dashed).append((xy, _rgba(ln.get_color())))
        for p in ax.patches:
            if isinstance(p, FancyArrowPatch):
                a, b = getattr(p, "_posA_posB", (None, None)) or (None, None)
                if a is None:
                    v = p.get_path().vertices
                    a, b = v[0], v[-1]
                st = p.get_arrowstyle()
                self.arrows.append((tuple(map(float, a)), tuple(map(float, b)), _rgba(p.get_edgecolor()), type(st).__name__))
        for t in ax.texts:
            if isinstance(t, Annotation) and t.arrow_patch is not None and not t.get_text():
                if t.xycoords == "data":
                    self.heads.append((tuple(map(float, t.xy)), tuple(map(float, t.xyann)), _rgba(t.arrow_patch.get_edgecolor())))
                continue
            pos = tuple(map(float, t.get_position()))
            (self.texts if t.get_transform() == data else self.greys).append((pos, t.get_text()))
        leg = ax.get_legend()
        self.legend = None if leg is None else [t.get_text() for t in leg.get_texts()]
        self.size = tuple(map(float, ax.figure.get_size_inches()))


def near(p, q, tol=EPS):
    return abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol


def dist(p, q):
    return float(np.hypot(p[0] - q[0], p[1] - q[1]))


def unmatched(wanted, found, fits):
    """Perfect matching between wanted and found items: the first few of each that stay alone."""
    g = nx.Graph()
    left = [("w", i) for i in range(len(wanted))]
    g.add_nodes_from(left)
    g.add_nodes_from(("f", j) for j in range(len(found)))
    for i, a in enumerate(wanted):
        for j, b in enumerate(found):
            if fits(a, b):
                g.add_edge(("w", i), ("f", j))
    m = nx.bipartite.hopcroft_karp_matching(g, left)
    return [w for i, w in enumerate(wanted) if ("w", i) not in m], [f for j, f in enumerate(found) if ("f", j) not in m]


# ---------------------------------------------------------------- the expected content

class Shown:
    """The part of an object that its drawing must show."""

    def __init__(self, og, arrows=None, layers=None, source="og", func=None, chains=False):
        self.og, self.arrows, self.layers, self.source, self.func, self.chains = og, arrows, layers, source, func, chains


def colour(name, default):
    return getattr(viz, name, default)


def shown(obj):
    if isinstance(obj, OpenGraph):
        return Shown(obj)
    if isinstance(obj, PauliFlow):
        c = _rgba(colour("FLOW_C", "black"))
        return Shown(obj.og, {(k, v): c for k, s in obj.correction_function.items() for v in s}, [set(x) for x in obj.partial_order_layers], "flow",
                     {k: set(s) for k, s in obj.correction_function.items()}, isinstance(obj, CausalFlow))
    cx, cz, cxz = (_rgba(colour(a, b)) for a, b in (("X_C", "tab:red"), ("Z_C", "tab:green"), ("XZ_C", "tab:brown")))
    x = {(k, v) for k, s in obj.x_corrections.items() for v in s}
    z = {(k, v) for k, s in obj.z_corrections.items() for v in s}
    return Shown(obj.og, {a: cxz if a in x and a in z else cx if a in x else cz for a in x | z}, [set(v) for v in obj.partial_order_layers], "xz")


def is_pauli(m):
    return isinstance(m, type(Measurement.X))


def check_nodes(ctx, pic, sh, pos, kw, what):
    og = sh.og
    nodes = list(og.graph.nodes)
    for i, a in enumerate(nodes):
        for b in nodes[:i]:
            ctx.check(not near(pos[a], pos[b]), "nodes-collide", lambda: f"nodes {a} and {b} are both drawn at {pos[a]}: {what}")
    white, grey, blue = (_rgba(colour(*c)) for c in (("DEFAULT_NODE_FC", "white"), ("OUTPUT_NODE_FC", "lightgray"), ("PAULI_NODE_FC", "lightblue")))

    def styles(n):
        shape = 4 if n in set(og.input_nodes) else "round"
        if n in set(og.output_nodes):
            return [(shape, grey)]
        m = og.measurements[n]
        if not kw.get("pauli_measurements", True):
            return [(shape, white)]
        if isinstance(m, Axis):
            return [(shape, white), (shape, blue)]
        return [(shape, blue if is_pauli(m) else white)]

    wanted = [(n, pos[n], styles(n)) for n in nodes]
    lost, extra = unmatched(wanted, pic.nodes, lambda w, f: near(w[1], f[0]) and (f[1], f[2]) in w[2])
    ctx.check(not lost and not extra, "nodes", lambda: f"nodes not shown as they are: {lost[:3]}; shown: {extra[:3]}: {what}")
    for n in nodes:
        ctx.check(pic.xlim[0] <= pos[n][0] <= pic.xlim[1] and pic.ylim[0] <= pos[n][1] <= pic.ylim[1], "outside",
                  lambda: f"node {n} at {pos[n]} is outside the plot {pic.xlim} {pic.ylim}: {what}")


def check_texts(ctx, pic, sh, pos, kw, what):
    og = sh.og
    labels = kw.get("node_labels", True)
    texts = list(pic.texts)
    for n in og.graph.nodes:
        at = [t for t in texts if near(t[0], pos[n])]
        if labels is True:
            ok = [t[1] for t in at] == [str(n)]
        elif labels is False:
            ok = not at
        elif n in labels:
            ok = [t[1] for t in at] == [labels[n]]
        else:
            ok = [t[1] for t in at] in ([], [str(n)])
        ctx.check(ok, "node-label", lambda: f"node {n} has label {at} ({labels}): {what}")
        for t in at:
            texts.remove(t)
    wanted = []
    if kw.get("measurement_labels", False):
        wanted += [(pos[n], flowref.label(m)) for n, m in og.measurements.items()]
    if kw.get("local_clifford", False):
        wanted += [(pos[n], str(c)) for n, c in og.output_cliffords.items()]
        if og.output_cliffords:
            ctx.probe("cliffords-shown")
    lost, extra = unmatched(wanted, texts, lambda w, f: w[1] == f[1] and dist(w[0], f[0]) < 0.45)
    ctx.check(not lost and not extra, "annotation", lambda: f"labels not shown: {lost[:3]}; shown: {extra[:3]}: {what}")


def check_lines(ctx, pic, sh, pos, what):
    edges = [(pos[a], pos[b]) for a, b in sh.og.graph.edges if a != b]
    lost, extra = unmatched(edges, pic.dashed, lambda w, f: (near(w[0], f[0][0]) and near(w[1], f[0][-1])) or (near(w[1], f[0][0]) and near(w[0], f[0][-1])))
    ctx.check(not lost and not extra, "edges", lambda: f"edges not drawn: {lost[:3]}; lines drawn: {[(e[0][0], e[0][-1]) for e in extra[:3]]}: {what}")
    if any(len(e[0]) > 2 for e in pic.dashed):
        ctx.probe("bent-edge")
    drawn = [("straight", a, b, c) for a, b, c, st in pic.arrows if st == "CurveB"]
    heads = list(pic.heads)
    for xy, c in pic.solid:
        head = next((h for h in heads if near(h[0], xy[-1]) and h[2] == c and not near(h[1], h[0], 1e-12)), None)
        ctx.check(head is not None, "arrow-head", lambda: f"a line from {xy[0]} to {xy[-1]} has no head: {what}")
        heads.remove(head)
        drawn.append(("bent", xy[0], xy[-1], c))
    ctx.check(not heads, "arrow-head", lambda: f"an arrow head without its line at {heads[:1]}: {what}")

    def fits(w, f):
        src, dst, c, loop = w
        if f[3] != c:
            return False
        if loop:
            return f[0] == "bent" and dist(f[1], src) < 0.3 and dist(f[2], src) < 0.3
        if not near(f[1], src):
            return False
        return near(f[2], dst) if f[0] == "straight" else dist(f[2], dst) < 0.2 + EPS

    wanted = [(pos[a], pos[b], c, a == b) for (a, b), c in (sh.arrows or {}).items()]
    lost, extra = unmatched(wanted, drawn, fits)
    ctx.check(not lost and not extra, "arrows", lambda: f"corrections not drawn (from, to, colour, loop): {lost[:3]}; arrows drawn: {extra[:3]}: {what}")
    if any(w[3] for w in wanted):
        ctx.probe("self-loop")
    for d in drawn:
        ctx.probe(d[0] + "-arrow")


def check_layers(ctx, pic, sh, pos, dx, what):
    if sh.layers is None:
        ctx.check(not pic.seps and not pic.greys, "layers", lambda: f"layers are drawn for an open graph: {what}")
        outs = set(sh.og.output_nodes)
        if outs:
            right = max(pos[n][0] for n in sh.og.graph.nodes)
            ctx.check(all(abs(pos[n][0] - right) < EPS for n in outs), "columns", lambda: f"the outputs are not in the last column: {pos}: {what}")
        return
    cols = []
    for lay in sh.layers:
        xs = {round(pos[n][0], 9) for n in lay}
        ctx.check(len(xs) == 1, "columns", lambda: f"layer {set(lay)} is spread over columns {xs}: {what}")
        cols.append(xs.pop())
    ctx.check(all(b < a for a, b in zip(cols, cols[1:])), "columns", lambda: f"layers 0, 1, ... are at columns {cols}: {what}")
    ctx.check(all(abs(a - b - dx) < EPS for a, b in zip(cols, cols[1:])), "columns", lambda: f"columns {cols} are not {dx} apart: {what}")
    numbers = sorted((t[0][0], t[1]) for t in pic.greys if t[1].lstrip("-").isdigit())
    want = sorted((x, str(i)) for i, x in enumerate(cols))
    ctx.check(len(numbers) == len(want) and all(a[1] == b[1] and abs(a[0] - b[0]) < EPS for a, b in zip(numbers, want)), "layer-number",
              lambda: f"layer numbers {numbers} instead of {want}: {what}")
    seps = sorted(pic.seps)
    xs = sorted(cols)
    ctx.check(len(seps) == max(0, len(xs) - 1) and all(a < s < b for a, s, b in zip(xs, seps, xs[1:])), "separator",
              lambda: f"separators {seps} for columns {xs}: {what}")


def check_legend(ctx, pic, sh, kw, what):
    if not kw.get("legend", True):
        ctx.check(pic.legend is None, "legend", lambda: f"a legend {pic.legend} is drawn: {what}")
        if kw.get("figsize") is not None:
            ctx.check(pic.size == tuple(map(float, kw["figsize"])), "figsize", lambda: f"figure size {pic.size}: {what}")
        return
    og = sh.og
    if any(isinstance(m, Axis) for m in og.measurements.values()):
        return
    want = []
    if og.graph.nodes:
        want += ["Input nodes"] * bool(og.input_nodes) + ["Output nodes"] * bool(og.output_nodes) + ["Graph edge"] * bool(og.graph.edges)
        want += ["Pauli-measured nodes"] * (kw.get("pauli_measurements", True) and any(is_pauli(m) for m in og.measurements.values()))
    if sh.arrows:
        if sh.source == "flow":
            want.append("Correction function")
        else:
            names = {_rgba(colour(a, b)): t for a, b, t in (("X_C", "tab:red", "X corrections"), ("Z_C", "tab:green", "Z corrections"), ("XZ_C", "tab:brown", "X and Z corrections"))}
            want += [names[c] for c in set(sh.arrows.values())]
    ctx.check(sorted(want) == sorted(pic.legend or []), "legend", lambda: f"legend {pic.legend} instead of {want}: {what}")


def check_figure(ctx, pic, sh, pos, kw, what):
    check_nodes(ctx, pic, sh, pos, kw, what)
    check_texts(ctx, pic, sh, pos, kw, what)
    check_lines(ctx, pic, sh, pos, what)
    check_layers(ctx, pic, sh, pos, kw.get("node_distance", (1, 1))[0], what)
    check_legend(ctx, pic, sh, kw, what)
    if sh.chains:
        for a, s in sh.func.items():
            (b,) = s
            ctx.check(abs(pos[a][1] - pos[b][1]) < EPS, "chain", lambda: f"{a} and its successor {b} are drawn in different rows: {what}")
    if sh.og.graph.number_of_nodes() >= 2:
        ctx.nontrivial()


# ---------------------------------------------------------------- objects and options

def abstract(ctx, og):
    """The same graph with planes and axes only."""
    return OpenGraph(graph=og.graph, input_nodes=og.input_nodes, output_nodes=og.output_nodes,
                     measurements={n: ctx.pick([*Plane, *Axis]) for n in og.measurements}, output_cliffords=og.output_cliffords)


def relabelled(ctx, og):
    nodes = list(og.graph.nodes)
    big = ctx.pick([1, 9, 95, 990])
    mp = dict(zip(nodes, [big + i * ctx.int(1, 3) for i in range(len(nodes))]))
    if len(set(mp.values())) < len(nodes):
        return og
    return OpenGraph(graph=nx.relabel_nodes(og.graph, mp), input_nodes=[mp[i] for i in og.input_nodes], output_nodes=[mp[i] for i in og.output_nodes],
                     measurements={mp[i]: m for i, m in og.measurements.items()}, output_cliffords={mp[i]: c for i, c in og.output_cliffords.items()})


def some_og(ctx):
    k = ctx.draw(5)
    if k == 0:
        og = gen.open_graph(ctx, max_nodes=9, out_cliffords=True, generic=False)
    elif k == 1:  # several components, possibly without inputs or outputs
        g, ins, outs, n = nx.Graph(), [], [], 0
        for _ in range(ctx.int(0, 3)):
            size = ctx.int(1, 5)
            part = list(range(n, n + size))
            n += size
            g.add_nodes_from(part)
            d = ctx.int(2, 5)
            g.add_edges_from((a, b) for a in part for b in part if a < b and (b == a + 1 or ctx.flag(d, 8)))
            ins += ctx.subset(part, 1, 3)
            outs += ctx.subset(part, 1, 3)
        og = OpenGraph(graph=g, input_nodes=ctx.shuffle(ins), output_nodes=ctx.shuffle(outs), measurements={v: gen.measurement(ctx) for v in g if v not in set(outs)},
                       output_cliffords={o: ctx.pick(gen.CLIFFORDS) for o in ctx.subset(outs)})
    else:
        og = gen.flow_open_graph(ctx, max_nodes=ctx.pick([4, 7, 10]), planar_only=k == 2, out_cliffords=True, generic=False)
    if ctx.flag(1, 6):
        og = abstract(ctx, og)
    if ctx.flag(1, 6):
        og = relabelled(ctx, og)
    return og


def some_flow(ctx, og):
    """A flow of the open graph: causal, gflow or Pauli."""
    k = ctx.draw(3)
    try:
        if k == 0:
            return og.to_causalflow()
        if k == 1:
            return og.to_gflow()
    except (OpenGraphError, TypeError, AttributeError):
        pass
    try:
        return og.to_pauliflow()
    except OpenGraphError:
        raise Discard from None


def some_corrections(ctx, og):
    order = ctx.shuffle(list(og.measurements))
    allnodes = list(og.graph.nodes)
    x, z = {}, {}
    for i, m in enumerate(order):
        later = [n for n in allnodes if n not in order[: i + 1]]
        for d in (x, z):
            if s := ctx.subset(later, 1, 3):
                d[m] = set(s)
    return XZCorrections.from_measured_nodes_mapping(og, x, z)


def some_graphstate(ctx):
    g = GraphState()
    n = ctx.int(1, 6)
    nodes = [ctx.draw(3) + 3 * i for i in range(n)] if ctx.flag(1, 2) else list(range(n))
    g.add_nodes_from(nodes)
    for i in range(n):
        for j in range(i):
            if ctx.flag(1, 2):
                g.add_edge(nodes[i], nodes[j])
    for v in nodes:
        for op in (g.flip_fill, g.flip_sign, g.advance):
            if ctx.flag(1, 3):
                op(v)
    return g


def some_object(ctx):
    k = ctx.weighted([("opengraph", 3), ("flow", 3), ("xz", 3), ("pattern", 3), ("graphstate", 1)])
    if k == "graphstate":
        return some_graphstate(ctx)
    og = some_og(ctx)
    if k == "opengraph":
        return og
    if k == "xz":
        return some_corrections(ctx, og) if ctx.flag(1, 2) else some_flow(ctx, og).to_xzcorrections()
    if k == "flow":
        return some_flow(ctx, og)
    kk = ctx.draw(4)
    if kk == 0:
        return gen.circuit(ctx, max_width=3, max_depth=4, ccx=False, generic=False).transpile().pattern
    if kk == 1:
        return gen.general_pattern(ctx, max_nodes=6, states=False)
    try:
        return og.to_pattern()
    except (OpenGraphError, TypeError, AttributeError):
        raise Discard from None


def options(ctx, nodes):
    kw = {}
    for name in ("pauli_measurements", "measurement_labels", "local_clifford"):
        if ctx.flag(1, 2):
            kw[name] = ctx.flag(1, 2)
    if ctx.flag(1, 2):
        k = ctx.draw(3)
        kw["node_labels"] = bool(k) if k < 2 else {n: f"<{n}>" for n in ctx.subset(sorted(nodes))}
        if k == 2:
            ctx.probe("labels-mapping")
    kw["legend"] = ctx.flag(1, 3)
    if ctx.flag(1, 3):
        kw["node_distance"] = (ctx.pick([0.1, 0.15, 0.3, 0.5, 1, 2.5]), ctx.pick([0.1, 0.2, 0.5, 1, 1.5]))
        ctx.probe("scaled")
    if ctx.flag(1, 4):
        kw["figsize"] = ctx.pick([(2, 2), (5, 3), (1, 4)])
    return kw


# ---------------------------------------------------------------- the screen, the disk and the layout

class ScreenLost(Exception):
    """The display went away."""


class Screen:
    def __init__(self, ctx):
        self.ctx, self.fault, self.shown = ctx, None, []

    def show(self, *args, **kwargs):
        self.shown.append(plt.gcf().number)
        if self.fault is not None:
            raise self.fault


@contextlib.contextmanager
def file_limit(size):
    """Files may not grow beyond `size` bytes: later writes are short, then refused."""
    if size is None:
        yield
        return
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)


def adversarial_layout(ctx):
    """Positions with ties, in any order; the fixed nodes stay where they are."""
    values = ctx.pick([[0.0], [0.0, 1.0], [-1.0, -0.5, 0.0, 0.5, 1.0]])

    def layout(G, *args, pos=None, fixed=None, **kwargs):  # noqa: N803
        out = {n: np.array([ctx.pick(values), ctx.pick(values)]) for n in ctx.shuffle(list(G))}
        for n in fixed or ():
            out[n] = np.array(pos[n], dtype=float)
        return out

    return layout


def complete_png(path):
    b = path.read_bytes()
    return b[:8] == b"\x89PNG\r\n\x1a\n" and b[-8:] == b"IEND\xaeB`\x82"


def content(obj):
    """Everything in an object, in order."""
    if isinstance(obj, OpenGraph):
        return ([repr(n) for n in obj.graph.nodes(data=True)], [repr(e) for e in obj.graph.edges(data=True)], obj.graph.graph.copy(), list(obj.input_nodes), list(obj.output_nodes), [(n, repr(m)) for n, m in obj.measurements.items()],
                [(n, repr(c)) for n, c in obj.output_cliffords.items()])
    if isinstance(obj, PauliFlow):
        return (content(obj.og), {k: set(v) for k, v in obj.correction_function.items()}, [set(x) for x in obj.partial_order_layers])
    if isinstance(obj, XZCorrections):
        return (content(obj.og), {k: set(v) for k, v in obj.x_corrections.items()}, {k: set(v) for k, v in obj.z_corrections.items()}, [set(x) for x in obj.partial_order_layers])
    if isinstance(obj, GraphState):
        return (list(obj.nodes(data=True)), list(obj.edges))
    return [repr(c) for c in obj] + [list(obj.input_nodes), list(obj.output_nodes)]


def users_figure(ctx):
    fig = plt.figure()
    ax = fig.add_subplot()
    ax.plot([0, 1], [ctx.draw(5), 1])
    ax.set_xlim(-3, 3)
    return fig


def artists(fig):
    return [(type(a).__name__, a.get_children().__len__(), a.get_xlim(), a.get_ylim(), len(a.lines), len(a.texts)) for a in fig.axes]


def graphstate_figure(ctx, g, what):
    pic = Picture(plt.gca())
    nodes = list(g.nodes)
    ctx.check(len(pic.nodes) == len(nodes), "nodes", lambda: f"{len(pic.nodes)} of {len(nodes)} nodes are drawn: {what}")
    names = {}
    for n in nodes:
        d = g.nodes[n]
        text = f"-{n}" if d["sign"] else str(n)
        at = [t[0] for t in pic.texts if t[1] == text]
        ctx.check(len(at) == 1, "sign", lambda: f"node {n} (sign {d['sign']}) is not labelled {text}: {[t[1] for t in pic.texts]}: {what}")
        names[n] = at[0]
        marks = [m for m in pic.nodes if near(m[0], at[0])]
        hollow = [m[2] == _rgba("white") for m in marks]
        ctx.check(d["hollow"] in hollow, "hollow", lambda: f"node {n} (hollow {d['hollow']}) is drawn {marks}: {what}")
    ctx.check(len(pic.texts) == len(nodes), "sign", lambda: f"labels {pic.texts}: {what}")
    lines = [(e[0][0], e[0][-1]) for e in pic.dashed + pic.solid if not near(e[0][0], e[0][-1])]
    wanted = [(names[a], names[b]) for a, b in g.edges if a != b]
    lost, extra = unmatched(wanted, lines, lambda w, f: (near(w[0], f[0]) and near(w[1], f[1])) or (near(w[1], f[0]) and near(w[0], f[1])))
    ctx.check(not lost and not extra, "edges", lambda: f"edges not drawn: {lost[:3]}; lines drawn: {extra[:3]}: {what}")
    loops = [p for p in plt.gca().patches if isinstance(p, FancyArrowPatch)]
    want = sum(bool(g.nodes[n]["loop"]) for n in nodes)
    ctx.check(len(loops) == want, "loop", lambda: f"{len(loops)} loops drawn instead of {want}: {what}")


def one_drawing(ctx, screen, scratch, obj, i):
    """Draw one object once, with whatever happens to the screen or the file."""
    if isinstance(obj, GraphState):
        ctx.probe("graphstate")
        plt.figure()
        before = content(obj)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            obj.draw(**({"fill_color": "tab:orange"} if ctx.flag(1, 2) else {}))
        ctx.check(content(obj) == before, "mutated", lambda: f"drawing changed the graph state {before} into {content(obj)}")
        graphstate_figure(ctx, obj, f"graph state {before}")
        ctx.nontrivial()
        plt.close(plt.gcf())
        return
    nodes = set(obj.graph.nodes) if isinstance(obj, OpenGraph) else obj.nodes() if isinstance(obj, Pattern) else set(obj.og.graph.nodes)
    kw = options(ctx, nodes)
    call = dict(kw)
    sh = None
    if isinstance(obj, Pattern):
        ann = ctx.pick([None, *DrawPatternAnnotations])
        ctx.probe("pattern-" + {None: "none", DrawPatternAnnotations.Flow: "flow", DrawPatternAnnotations.XZCorrections: "xz"}[ann])
        call["annotations"] = ann
        if ann is None:
            sh = shown(obj.to_opengraph())
        elif ann is DrawPatternAnnotations.XZCorrections:
            sh = shown(obj.to_xzcorrections())
        else:
            if ctx.flag(1, 3):
                call["flow_from_pattern"] = False
            if "node_distance" in kw:  # closer nodes are within reach of each other's arrows
                kw["node_distance"] = call["node_distance"] = tuple(max(d, 0.5) for d in kw["node_distance"])
    else:
        sh = shown(obj)
        ctx.probe("opengraph" if isinstance(obj, OpenGraph) else "causalflow" if isinstance(obj, CausalFlow) else "flow" if isinstance(obj, PauliFlow) else "xz")
    before = content(obj)
    what = f"{type(obj).__name__}.draw({', '.join(f'{k}={v}' for k, v in call.items())}) of {before}"
    ctx.describe(what)

    # the world
    screen.fault = None
    mode = ctx.weighted([("show", 4), ("save", 2), ("screen-fault", 1), ("file-fault", 2)])
    path, limit, target = None, None, None
    if mode == "screen-fault":
        screen.fault = ctx.pick([KeyboardInterrupt(), ScreenLost("display gone"), OSError(5, "Input/output error")])
        ctx.fault("screen-" + type(screen.fault).__name__)
    elif mode == "save":
        path = scratch / f"drawing-{i}.png"
        if ctx.flag(1, 4):
            path.write_bytes(b"an older and longer drawing" * 4000)
            ctx.fault("file-exists")
    elif mode == "file-fault":
        kind = ctx.pick(["no-directory", "is-a-directory", "full-device", "limit", "dangling"])
        ctx.fault("file-" + kind)
        path = scratch / f"faulty-{i}.png"
        if kind == "no-directory":
            path = scratch / "missing" / "drawing.png"
        elif kind == "is-a-directory":
            path.mkdir()
        elif kind == "full-device":
            path.symlink_to("/dev/full")
        elif kind == "dangling":
            path.symlink_to(scratch / "missing" / "drawing.png")
        else:
            limit = ctx.pick([0, 1, 8, 100, 1000, 4096, 8192, 1 << 20])
        target = kind
    if path is not None:
        call["filename"] = path
        if ctx.flag(1, 6):
            call["filename"] = str(path)
    stack = contextlib.ExitStack()
    if ctx.flag(1, 4):
        ctx.probe("adversarial-layout")
        stack.enter_context(mock.patch.object(nx, "spring_layout", adversarial_layout(ctx)))
    captured = []
    real = GraphVisualizer.visualize

    def visualize(self):
        captured.append(self)
        return real(self)

    stack.enter_context(mock.patch.object(GraphVisualizer, "visualize", visualize))
    stack.enter_context(mock.patch.object(plt, "show", lambda *args, **kwargs: screen.show()))
    stack.enter_context(warnings.catch_warnings())
    warnings.simplefilter("ignore")
    known = set(plt.get_fignums())
    others = {n: artists(plt.figure(n)) for n in known}
    asked = repr(call)
    nshown = len(screen.shown)
    failed = None
    with stack, file_limit(limit):
        try:
            obj.draw(**call)
        except PatternError:
            if not isinstance(obj, Pattern) or call["annotations"] is not DrawPatternAnnotations.Flow:
                raise
            failed = "noflow"
        except (KeyboardInterrupt, ScreenLost) as e:
            if e is not screen.fault:
                raise
            failed = "screen"
        except OSError as e:
            if e is not screen.fault and mode != "file-fault":
                raise
            failed = "screen" if e is screen.fault else "file"
    new = sorted(set(plt.get_fignums()) - known)
    ctx.log(type(obj).__name__, sorted(kw), mode, target, limit, failed)
    ctx.sched(type(obj).__name__, mode, target, failed)
    ctx.check(content(obj) == before, "mutated", lambda: f"the object is now {content(obj)}: {what}")
    ctx.check(repr(call) == asked, "mutated", lambda: f"the options are now {call}: {what}")
    if failed == "noflow":
        ctx.probe("no-flow")
        ctx.check(obj.to_opengraph().to_pauliflow_or_none() is None, "refused", lambda: f"the pattern has a flow but is refused: {what}")
        return
    # what was asked for happened, or its failure was reported
    if mode == "screen-fault":
        ctx.check(failed == "screen", "swallowed", lambda: f"{screen.fault!r} raised by the screen did not reach the caller: {what}")
        ctx.probe("interrupted")
    elif path is None:
        ctx.check(len(screen.shown) == nshown + 1, "not-shown", lambda: f"the screen was asked {len(screen.shown) - nshown} times to show the figure: {what}")
    else:
        ctx.check(len(screen.shown) == nshown, "shown", lambda: f"the figure was shown although it is saved: {what}")
        if failed is None:
            ctx.check(path.is_file() and complete_png(path), "lost-file", lambda: f"no error but no complete image in {target or 'the file'} (limit {limit}): {what}")
            ctx.probe("saved")
        else:
            ctx.check(target in ("no-directory", "is-a-directory", "full-device", "dangling") or limit is not None, "save-refused", lambda: f"saving failed: {what}")
            ctx.probe("save-failed")
    ctx.check(len(new) == 1 and len(captured) == 1, "figures", lambda: f"new figures {new}: {what}")
    ctx.check(path is not None or screen.shown[-1] == new[0], "figures", lambda: f"figure {screen.shown[-1:]} is shown instead of {new}: {what}")
    for n in known:
        ctx.check(plt.fignum_exists(n) and artists(plt.figure(n)) == others[n], "other-figure", lambda: f"an earlier figure has changed: {what}")
    fig = plt.figure(new[0])
    ctx.check(len(fig.axes) == 1, "figures", lambda: f"{len(fig.axes)} axes: {what}")
    pic = Picture(fig.axes[0])
    pos = {n: tuple(map(float, p)) for n, p in captured[0].pos.items()}
    if sh is None:
        sh = flow_in_picture(ctx, obj, pic, pos, what)
    ctx.check(set(pos) == set(sh.og.graph.nodes), "nodes", lambda: f"positions for {sorted(pos)}: {what}")
    check_figure(ctx, pic, sh, pos, kw, what)
    if ctx.flag(1, 2):
        plt.close(fig)


def flow_in_picture(ctx, p, pic, pos, what):
    """The flow that a picture of a pattern shows, read from its arrows and columns, must be a flow of the pattern's open graph."""
    og = p.to_opengraph()
    ctx.check(set(pos) == set(og.graph.nodes), "nodes", lambda: f"positions for {sorted(pos)}: {what}")

    def at(point):
        return min(pos, key=lambda n: dist(pos[n], point))

    cols = sorted({round(x[0], 9) for x in pos.values()}, reverse=True)
    layers = [{n for n in pos if abs(pos[n][0] - c) < EPS} for c in cols]
    func = {n: set() for n in og.measurements}
    for a, b, _, _ in pic.arrows:
        func[at(a)].add(at(b))
    for xy, _ in pic.solid:
        func[at(xy[0])].add(at(xy[-1]))
    bad = flowref.flow_problem(og, "pauli", func, layers)
    ctx.check(bad is None, "not-a-flow", lambda: f"the arrows {func} with layers {layers} are not a flow ({bad}): {what}")
    ctx.probe("flow-read")
    c = _rgba(colour("FLOW_C", "black"))
    return Shown(og, {(k, v): c for k, s in func.items() for v in s}, layers, "flow", func)


def drawings(ctx):
    """A session: several objects are drawn, in any order, with failures in between."""
    objs = []
    for _ in range(ctx.int(1, 3)):
        try:
            objs.append(some_object(ctx))
        except Discard:
            pass
    if not objs:
        raise Discard
    np.random.seed(ctx.npseed() % (1 << 32))
    scratch = Path(tempfile.mkdtemp(prefix="dst-drawings-"))
    plt.close("all")
    try:
        with mpl.rc_context({"figure.dpi": 40, "savefig.dpi": 40}):
            mine = users_figure(ctx) if ctx.flag(1, 3) else None
            was = artists(mine) if mine else None
            screen = Screen(ctx)
            for i in range(ctx.int(1, 4)):
                one_drawing(ctx, screen, scratch, ctx.pick(objs), i)
            if mine:
                ctx.check(plt.fignum_exists(mine.number) and artists(mine) == was, "users-figure", lambda: f"the user's figure changed: {was} -> {artists(mine)}")
    finally:
        plt.close("all")
        shutil.rmtree(scratch)


SCENARIOS = [("drawings", drawings, 1)]
