"""C21: fusing the extracted resource states gives the requested graph state."""

from __future__ import annotations

import contextlib
import math
import signal

import networkx as nx
import numpy as np

from dst import ref
from dst.core import Violation, close_up_to_phase

from graphix.extraction import ResourceGraph, ResourceType, fusion_nodes, graph_to_fusion_network

LEVEL = "exploration"
QUICK_RUNS = 40000
THOROUGH_RUNS = 1500000
REAL = ["graphix.extraction (graph_to_fusion_network, create_resource_graph, fusion_nodes, ResourceGraph)"]
STUB = ["the photonic hardware: resource-state factories, fusion gates and their outcomes (dst/checks/c21.py)"]
RULE = ("random, structured and damaged graphs of 0-14 nodes with drawn cluster size limits; every extracted cluster is produced by its own factory and "
        "fusions run in a drawn order with drawn outcomes, failures, photon losses, factory crashes and duplicated requests, lost fragments being "
        "produced again; non-trivial = at least two clusters fused")
ASSUMPTIONS = ["a type-I fusion projects two photons on |0><00| +- |1><11|; a failed one destroys both fragments, which are produced again",
               "limits of at least 3 photons for GHZ clusters and 2 for linear clusters (smaller ones cannot be met by the documented clusters)",
               "state vectors up to 12 photons, graph rule for fusions beyond that"]
REQUIRED_PROBES = ("state-level", "limited-ghz", "limited-linear", "linear", "cycle", "isolated", "fusion-failure", "refused")

MAX_STATE = 12


@contextlib.contextmanager
def bounded(seconds, what):
    """A call that does not return within its processor time is reported, not waited for."""
    def handler(signum, frame):
        raise Violation("no-answer", f"no result within {seconds} s of processor time: {what}")

    old = signal.signal(signal.SIGVTALRM, handler)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def some_graph(ctx):
    n = ctx.int(0, 14) if ctx.flag(1, 2) else ctx.int(2, 6)
    labels = ctx.shuffle(range(2 * n))[:n] if ctx.flag(1, 3) else list(range(n))
    kind = ctx.weighted([("random", 4), ("path", 1), ("cycle", 1), ("star", 1), ("grid", 1), ("complete", 1), ("tree", 1)])
    e = []
    if kind == "random":
        d = ctx.int(1, 9)
        e = [(i, j) for i in range(n) for j in range(i) if ctx.flag(d, 10)]
    elif kind in ("path", "cycle"):
        e = [(i, i + 1) for i in range(n - 1)]
        if kind == "cycle" and n > 2:
            e.append((n - 1, 0))
    elif kind == "star":
        e = [(0, i) for i in range(1, n)]
    elif kind == "grid":
        w = ctx.int(1, 4)
        e = [(i, i + 1) for i in range(n - 1) if (i + 1) % w] + [(i, i + w) for i in range(n - w)]
    elif kind == "complete":
        e = [(i, j) for i in range(n) for j in range(i)]
    elif n:
        e = [(i, ctx.draw(i)) for i in range(1, n)]
    for _ in range(ctx.draw(3)):  # an edge more or less
        if n >= 2:
            a, b = ctx.shuffle(range(n))[:2]
            if (a, b) in e:
                e.remove((a, b))
            elif (b, a) not in e:
                e.append((a, b))
    g = nx.Graph()
    g.add_nodes_from(ctx.shuffle(labels) if ctx.flag(1, 2) else labels)
    for a, b in ctx.shuffle(e) if ctx.flag(1, 2) else e:
        g.add_edge(*((labels[a], labels[b]) if ctx.flag(1, 2) else (labels[b], labels[a])))
    return g, kind


def shape_problem(c, max_ghz, max_lin):
    g = c.graph
    n, m = g.number_of_nodes(), g.number_of_edges()
    if n == 0 or m != n - 1 or not nx.is_connected(g):
        return "is not a tree"
    deg = sorted(d for _, d in g.degree)
    star = n <= 2 or deg == [1] * (n - 1) + [n - 1]
    path = n >= 2 and deg[-1] <= 2
    if c.cltype is ResourceType.GHZ:
        if not star:
            return "is not a star"
        # a chain cut to the limit of linear clusters is called GHZ when it has at most three photons
        if n > max_ghz:
            return f"has more than {max_ghz} photons"
    elif c.cltype is ResourceType.LINEAR:
        if not path:
            return "is not a chain"
        if n < 4:
            return "is a linear cluster of less than four photons"
        if n > max_lin:
            return f"has more than {max_lin} photons"
    else:
        return f"has type {c.cltype}"
    return None


class Lab:
    """Photons, their entanglement (graph rule) and, when small, the state vector of every fragment."""

    def __init__(self, clusters, exact):
        self.clusters = clusters
        self.exact = exact
        self.where = {}  # (cluster, node) -> photon
        self.adj = {}
        self.flip = {}  # photons carrying a Z
        self.frag = {}  # photon -> fragment
        self.states = {}  # fragment -> (photons, tensor)
        self.members = {}  # fragment -> clusters
        self.count = 0

    def produce(self, i):
        g = self.clusters[i].graph
        self.count += 1
        f = self.count
        ph = {}
        for v in g.nodes:
            self.count += 1
            ph[v] = self.count
        for v, p in ph.items():
            self.where[i, v] = p
            self.adj[p] = {ph[w] for w in g[v]}
            self.flip[p] = 0
            self.frag[p] = f
        self.members[f] = {i}
        if self.exact:
            order = list(ph.values())
            t = np.full((2,) * len(order), 2 ** (-len(order) / 2), dtype=complex)
            for v, w in g.edges:
                t = ref.apply_cz(t, order.index(ph[v]), order.index(ph[w]))
            self.states[f] = (order, t)

    def destroy(self, f):
        """Every photon of the fragment is lost; returns the clusters to produce again."""
        gone = [p for p, x in self.frag.items() if x == f]
        for p in gone:
            del self.adj[p], self.flip[p], self.frag[p]
        self.where = {k: p for k, p in self.where.items() if p in self.frag}
        self.states.pop(f, None)
        return self.members.pop(f)

    def fuse(self, a, b, r):
        """Photon b is absorbed in photon a."""
        fa, fb = self.frag[a], self.frag[b]
        if self.exact:
            oa, ta = self.states[fa]
            if fb != fa:
                ob, tb = self.states.pop(fb)
                oa, ta = oa + ob, np.multiply.outer(ta, tb)
            ia, ib = oa.index(a), oa.index(b)
            t = np.moveaxis(ta, (ia, ib), (0, 1))
            t = np.stack([t[0, 0], t[1, 1] * (-1) ** r])
            rest = [p for p in oa if p not in (a, b)]
            self.states[fa] = ([a, *rest], t / np.linalg.norm(t))
        if fb != fa:
            for p in [p for p, x in self.frag.items() if x == fb]:
                self.frag[p] = fa
            self.members[fa] |= self.members.pop(fb)
        for p in self.adj.pop(b):
            self.adj[p].discard(b)
            if p in self.adj[a]:
                self.adj[p].discard(a)
                self.adj[a].discard(p)
            else:
                self.adj[p].add(a)
                self.adj[a].add(p)
        self.flip[a] ^= self.flip.pop(b) ^ r
        del self.frag[b]
        for k, p in self.where.items():
            if p == b:
                self.where[k] = a


def assemble(ctx, clusters, g, what):
    """The factories and fusion gates put the graph state together under a drawn schedule."""
    total = sum(c.graph.number_of_nodes() for c in clusters)
    exact = total <= MAX_STATE
    if exact:
        ctx.probe("state-level")
    lab = Lab(clusters, exact)
    requests = []
    for i, c in enumerate(clusters):
        for j in range(i):
            a, b = (c, clusters[j]) if ctx.flag(1, 2) else (clusters[j], c)
            requests += [(i, j, v) for v in fusion_nodes(a, b)]
    todo = ctx.shuffle(requests)
    down = set(ctx.shuffle(range(len(clusters))))  # factories that still have to deliver
    budget = ctx.draw(4) if requests else 0
    steps, limit = 0, 4 * (len(requests) + len(clusters)) * (budget + 1) + 8
    done = []
    while todo or down:
        steps += 1
        ctx.step()
        if steps > limit:
            raise Violation("no-progress", f"the graph state is not assembled after {steps} events: {what}")
        ready = [q for q in todo if q[0] not in down and q[1] not in down]
        if down and (not ready or ctx.flag(1, 2)):
            i = sorted(down)[ctx.draw(len(down))]
            down.discard(i)
            lab.produce(i)
            continue
        q = ready[ctx.draw(min(3, len(ready)))]
        i, j, v = q
        if budget and ctx.flag(1, 6):
            budget -= 1
            k = ctx.pick(["fusion-failure", "factory-crash", "duplicate-request"])
            ctx.fault(k)
            if k == "duplicate-request":
                todo.append(q)
            else:
                if k == "fusion-failure":
                    ctx.probe("fusion-failure")
                lost = lab.destroy(lab.frag[lab.where[i, v]])
                if k == "fusion-failure" and (j, v) in lab.where:
                    lost = lost | lab.destroy(lab.frag[lab.where[j, v]])
                down |= lost
                # every fusion one of them took part in has to happen again
                todo += [x for x in done if x[0] in lost or x[1] in lost]
                done = [x for x in done if not (x[0] in lost or x[1] in lost)]
                continue
        todo.remove(q)
        done.append(q)
        a, b = lab.where[i, v], lab.where[j, v]
        if a != b:
            r = ctx.draw(2)
            ctx.sched(i, j, v, r)
            lab.fuse(a, b, r)
    photons = {}
    for (i, v), p in lab.where.items():
        photons.setdefault(v, set()).add(p)
    for v, ps in photons.items():
        ctx.check(len(ps) == 1, "not-fused", lambda: f"node {v} is left as {len(ps)} separate photons: {what}")
    ctx.check(set(photons) == set(g.nodes), "wrong-nodes", lambda: f"nodes {sorted(photons)} produced, {sorted(g.nodes)} requested: {what}")
    name = {next(iter(ps)): v for v, ps in photons.items()}
    edges = {frozenset((name[a], name[b])) for a, s in lab.adj.items() for b in s}
    ctx.check(edges == {frozenset(e) for e in g.edges}, "wrong-graph", lambda: f"the fused state has edges {sorted(map(sorted, edges))}: {what}")
    ctx.log(sorted((name[p], z) for p, z in lab.flip.items()))
    if exact:
        # the fragments together, their Z byproducts undone, are the graph state
        order, t = [], np.ones((), dtype=complex)
        for o, s in lab.states.values():
            order += o
            t = np.multiply.outer(t, s)
        for k, p in enumerate(order):
            if lab.flip[p]:
                t = ref.apply1(t, np.diag([1, -1]), k)
        e = np.full((2,) * len(order), 2 ** (-len(order) / 2), dtype=complex)
        pos = {name[p]: k for k, p in enumerate(order)}
        for a, b in g.edges:
            e = ref.apply_cz(e, pos[a], pos[b])
        ctx.check(close_up_to_phase(t, e), "wrong-state", lambda: f"the fused state is not the graph state: {what}")
    return len(requests)


def snapshot(c):
    return (c.cltype, tuple(c.graph.nodes), tuple(sorted(map(sorted, c.graph.edges))))


def network(ctx):
    g, kind = some_graph(ctx)
    kw = {}
    if ctx.flag(1, 2):
        kw["max_ghz"] = ctx.int(3, 6)
        ctx.probe("limited-ghz")
    if ctx.flag(1, 2):
        kw["max_lin"] = ctx.int(2, 6)
        ctx.probe("limited-linear")
    nodes, edges = list(g.nodes), [tuple(e) for e in g.edges]
    what = f"{kind} graph nodes={nodes} edges={edges} limits={kw}"
    ctx.describe(what)
    with bounded(10, what):
        clusters = graph_to_fusion_network(g, **kw)
    ctx.log([snapshot(c) for c in clusters])
    ctx.check(list(g.nodes) == nodes and [tuple(e) for e in g.edges] == edges, "source-mutated", lambda: f"the graph has changed: {what}")
    max_ghz, max_lin = kw.get("max_ghz", math.inf), kw.get("max_lin", math.inf)
    for c in clusters:
        bad = shape_problem(c, max_ghz, max_lin)
        ctx.check(bad is None, "not-a-resource-state", lambda: f"cluster {snapshot(c)} {bad}: {what}")
        if c.cltype is ResourceType.LINEAR:
            ctx.probe("linear")
        if c.graph.number_of_nodes() == 1:
            ctx.probe("isolated")
    if kind == "cycle":
        ctx.probe("cycle")
    seen = [frozenset(e) for c in clusters for e in c.graph.edges]
    ctx.check(len(seen) == len(set(seen)), "edge-twice", lambda: f"some edge is in two clusters: {[snapshot(c) for c in clusters]}: {what}")
    with bounded(10, what):
        again = graph_to_fusion_network(g, **kw)
    ctx.check([snapshot(c) for c in again] == [snapshot(c) for c in clusters] and all(a == b for a, b in zip(again, clusters)), "not-repeatable",
              lambda: f"a second extraction gives {[snapshot(c) for c in again]} instead of {[snapshot(c) for c in clusters]}: {what}")
    before = [snapshot(c) for c in clusters]
    if assemble(ctx, clusters, g, what):
        ctx.nontrivial()
    ctx.check([snapshot(c) for c in clusters] == before, "source-mutated", lambda: f"looking for fusions changed the clusters: {what}")
    if clusters and ctx.flag(1, 8):
        ctx.probe("refused")
        i = ctx.draw(len(clusters))
        ctx.check(fusion_nodes(clusters[i], again[i]) == [], "self-fusion", lambda: f"a cluster is to be fused with itself: {snapshot(clusters[i])}")
        for args in ((clusters[i], clusters[i].graph), (None, clusters[i])):
            try:
                fusion_nodes(*args)
            except TypeError:
                continue
            raise Violation("accepted", f"fusion_nodes accepts {args}")
        other = ResourceGraph(ResourceType.LINEAR if clusters[i].cltype is ResourceType.GHZ else ResourceType.GHZ, clusters[i].graph)
        ctx.check(other != clusters[i], "equality", lambda: f"clusters of different types are equal: {snapshot(other)}")


SCENARIOS = [("network", network, 1)]
