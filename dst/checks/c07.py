"""C07: seeded runs are reproducible and isolated from each other."""

from __future__ import annotations

import hashlib
import random
import threading
import warnings

import networkx as nx
import numpy as np

from dst import gen, ref
from dst.core import Discard, Violation
from dst.gx import (
    BasicStates, Circuit, DefaultMeasureMethod, DensityMatrix, FixedBranchSelector, OpenGraph, Pattern, PatternSimulator, RandomBranchSelector,
    Statevector, circuit_key, measured_nodes, og_repr, pattern_key, pattern_repr, vec,
)
from dst.peer import Peer
from dst.sched import Interleaver, Stuck
from dst.checks.c06 import build as build_noise, draw_model, leaves

from graphix import random_objects as ro
from graphix.branch_selector import BranchSelector
from graphix.flow.exceptions import FlowError
from graphix.graphsim import GraphState
from graphix.noise_models import ComposeNoiseModel, NoiseModel
from graphix.noise_models.depolarising import DepolarisingNoise
from graphix.noise_models.noise_model import ApplyNoise
from graphix.opengraph import OpenGraphError
from graphix.optimization import StandardizedPattern
from graphix.qasm3_exporter import circuit_to_qasm3
from graphix.rng import ensure_rng
from graphix.simulator import DefaultPrepareMethod, MeasureMethod

LEVEL = "exploration"
QUICK_RUNS = 7000
THOROUGH_RUNS = 300000
REAL = ["graphix.rng", "graphix.simulator", "graphix.sim.*", "graphix.branch_selector", "graphix.noise_models", "graphix.random_objects",
        "graphix.transpiler", "graphix.pattern", "graphix.optimization", "graphix.opengraph", "graphix.flow", "graphix.circ_ext",
        "graphix.qasm3_exporter", "Python threads (real, one at a time)", "second processes under other hash seeds"]
STUB = ["thread scheduler (dst/sched.py: seeded preemption at source lines of graphix)"]
RULE = ("random workloads (simulation on all backends, noise, circuits, compilation, rewriting, flows, random objects, export) run alone, repeated, in "
        "another process with another hash seed, and interleaved with others under a seeded thread scheduler; non-trivial = the workload has a "
        "random choice or a thread switch happened")
ASSUMPTIONS = ["tensor-network amplitudes are compared to 1e-9, everything else bit for bit", "threads are preempted between source lines of graphix only",
               "compiled kernels replaced by their Python source (C10 covers the compiled ones)"]
REQUIRED_PROBES = ("hash-seed", "interleaved", "shared-object", "default-source", "source-only", "sim", "noise", "circuit", "rewrite", "flow", "random-object",
                   "tensornetwork", "custom-components")


# ---------------------------------------------------------------- fingerprints

def fp(x):
    if isinstance(x, np.ndarray):
        return f"arr{x.shape}{x.dtype}:{hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest()[:24]}"
    if isinstance(x, (np.generic,)):
        return fp(x.item())
    if isinstance(x, Pattern):
        return "P:" + repr(pattern_key(x))
    if isinstance(x, Circuit):
        return "C:" + repr(circuit_key(x))
    if isinstance(x, (Statevector, DensityMatrix)):
        return fp(vec(x))
    if isinstance(x, (set, frozenset)):
        return "{" + ",".join(sorted(map(fp, x))) + "}"
    if isinstance(x, dict):
        return "{" + ",".join(f"{fp(k)}:{fp(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "(" + ",".join(map(fp, x)) + ")"
    if isinstance(x, (float, complex)):
        return repr(x)
    return str(x)


def short(s):
    return hashlib.sha256(s.encode()).hexdigest()[:16]


class Approx:
    """A value compared to a tolerance."""

    def __init__(self, x):
        self.x = np.asarray(x, dtype=complex).reshape(-1)


def serial(res):
    """JSON form of a workload's result list."""
    return [["~", [[z.real, z.imag] for z in r.x.tolist()]] if isinstance(r, Approx) else ["=", fp(r)] for r in res]


def differ(a, b):
    if len(a) != len(b):
        return f"{len(a)} results instead of {len(b)}"
    for i, (x, y) in enumerate(zip(a, b)):
        if x[0] != y[0]:
            return f"result {i}"
        if x[0] == "~":
            u, v = np.array(x[1]), np.array(y[1])
            if u.shape != v.shape or (u.size and np.abs(u - v).max() > 1e-9):
                return f"result {i} (beyond tolerance)"
        elif x[1] != y[1]:
            return f"result {i}: {x[1][:300]} / {y[1][:300]}"
    return None


# ---------------------------------------------------------------- workloads: build(ctx) -> (description, run(rng) -> results)

def small_pattern(ctx, live=5):
    k = ctx.draw(3)
    if k == 0:
        p = gen.general_pattern(ctx, max_nodes=6, max_live=4, e_after_c=True)
    elif k == 1:
        c = gen.circuit(ctx, max_width=2, max_depth=4, ccx=False, measures=True)
        p = c.transpile().pattern.minimize_space()
    else:
        f = gen.flow_open_graph(ctx, max_nodes=7).to_pauliflow_or_none()
        if f is None:
            raise Discard
        p = f.to_xzcorrections().to_pattern().minimize_space()
    if ref.space_needed(list(p), len(p.input_nodes)) > live:
        raise Discard
    return p


def selector(ctx, meas):
    k = ctx.draw(4)
    if k == 0:
        return lambda: None
    if k == 1:
        return lambda: RandomBranchSelector(pr_calc=True)
    if k == 2:
        fixed = {n: ctx.draw(2) for n in ctx.subset(meas)}
        return lambda: FixedBranchSelector(dict(fixed), default=RandomBranchSelector())
    return lambda: FixedBranchSelector({}, default=FixedBranchSelector({}, default=RandomBranchSelector(pr_calc=True)))


def default_outcomes(sim, p):
    return {n: int(sim.measure_method.measurement_outcome(n)) for n in measured_nodes(p)}


def w_sim(ctx, shared=None):
    p = shared or small_pattern(ctx)
    backend = ctx.pick(["statevector", "densitymatrix"])
    inp, _ = gen.input_state(ctx, len(p.input_nodes))
    mk = selector(ctx, measured_nodes(p))
    shots = ctx.int(1, 3)
    plain = not ctx.draw(3)
    ctx.probe("sim")

    def run(rng):
        res = []
        for _ in range(shots):
            if plain:  # the components the simulator chooses by itself
                try:
                    sim = PatternSimulator(p, backend, branch_selector=mk())
                    sim.run(**({} if inp is None else {"input_state": inp}), rng=rng)
                except (ValueError, RuntimeError, ZeroDivisionError, FloatingPointError, AssertionError) as e:
                    res.append(type(e).__name__)
                    continue
                res += [default_outcomes(sim, p), sim.backend.state]
                continue
            mm = DefaultMeasureMethod()
            kw = {} if inp is None else {"input_state": inp}
            try:
                st = p.simulate(backend, measure_method=mm, branch_selector=mk(), rng=rng, **kw)
            except (ValueError, RuntimeError, ZeroDivisionError, FloatingPointError, AssertionError) as e:  # an impossible outcome was fixed
                res.append(type(e).__name__)
                continue
            res += [dict(mm.results), st]
        return res

    return f"simulate {backend} x{shots} {pattern_repr(p)}", run


def w_noise(ctx, shared=None):
    p = shared or small_pattern(ctx, 4)
    d = draw_model(ctx)
    model = build_noise(ctx, d)
    ctx.probe("noise")
    plain = not ctx.draw(3)

    def run(rng):
        res = []
        for _ in range(2):
            if plain:
                sim = PatternSimulator(p, "densitymatrix", noise_model=model)
                sim.run(rng=rng)
                res += [default_outcomes(sim, p), sim.backend.state]
                continue
            mm = DefaultMeasureMethod()
            st = p.simulate("densitymatrix", measure_method=mm, noise_model=model, rng=rng)
            res += [dict(mm.results), st]
        return res

    return f"noisy simulation {d} {pattern_repr(p)}", run


def w_tn(ctx, shared=None):
    k = ctx.draw(2)
    og = gen.flow_open_graph(ctx, max_nodes=6, kind="xy")
    f = og.to_pauliflow_or_none()
    if f is None:
        raise Discard
    p = f.to_xzcorrections().to_pattern()
    pr = bool(ctx.draw(2))
    ctx.probe("tensornetwork")

    def run(rng):
        mm = DefaultMeasureMethod()
        tn = p.simulate("tensornetwork", measure_method=mm, branch_selector=RandomBranchSelector(pr_calc=pr), rng=rng)
        return [dict(mm.results), Approx(tn.to_statevector())]

    return f"tensor network {pattern_repr(p)}", run


def w_circuit(ctx, shared=None):
    c = shared or gen.circuit(ctx, max_width=3, max_depth=6, measures=True)
    ctx.probe("circuit")
    mode = ctx.draw(3)

    def run(rng):
        if mode == 0:
            r = c.simulate(rng=rng)
            return [r.state, list(r.classical_measures), rng.random()]
        if mode == 1:
            t = c.transpile()
            return [t.pattern, tuple(t.classical_outputs), t.pattern.max_space(), list(t.pattern.space_list())]
        t = c.transpile()
        return [circuit_to_qasm3(c) if not any(i.kind.name in ("J", "M") for i in c.instruction) else "", str(t.pattern), repr(t.pattern)]

    return f"circuit mode {mode} {circuit_key(c)}", run


STEPS = ["standardize", "shift", "shift_mc", "minimize", "parallelize", "pauli", "remove", "local", "xz", "layers", "extract", "graph"]


def w_rewrite(ctx, shared=None):
    p0 = shared or (gen.general_pattern(ctx, max_nodes=8, max_live=8, states=False, pauli_bias=True) if ctx.draw(2) else small_pattern(ctx, 9))
    steps = [ctx.pick(STEPS) for _ in range(ctx.int(1, 4))]
    ctx.probe("rewrite")

    def run(rng):
        p = p0.copy()
        res = []
        for s in steps:
            try:
                if True:
                    if s == "standardize":
                        p.standardize()
                    elif s == "shift":
                        res.append(sorted(p.shift_signals().items()))
                    elif s == "shift_mc":
                        res.append(sorted(p.shift_signals(method="mc").items()))
                    elif s == "minimize":
                        p = p.minimize_space()
                    elif s == "parallelize":
                        p.parallelize_pattern()
                    elif s == "pauli":
                        p = StandardizedPattern.from_pattern(p.infer_pauli_measurements(copy=True)).perform_pauli_pushing().to_pattern()
                    elif s == "remove":
                        p = p.infer_pauli_measurements(copy=True)
                        p = p.remove_pauli_measurements(copy=True)
                    elif s == "local":
                        p = p.remove_local_clifford_commands(copy=True)
                    elif s == "xz":
                        x = p.to_xzcorrections()
                        res += [[sorted(y) for y in x.partial_order_layers], x.to_pattern(), str(x)]
                    elif s == "layers":
                        res.append([sorted(y) for y in p.partial_order_layers()])
                    elif s == "extract":
                        f = p.to_bloch().to_gflow()
                        res += [sorted((k, sorted(v)) for k, v in f.correction_function.items()), str(f)]
                    elif s == "graph":
                        og = p.to_opengraph()
                        res += [list(og.graph.nodes), list(og.graph.edges), og.measurements, p.max_degree(), p.isolated_nodes(), p.max_space(), list(p.space_list())]
            except (NotImplementedError, ValueError, FlowError, OpenGraphError, TypeError) as e:
                res.append(f"{type(e).__name__}")
                break
            res.append(p)
        return res

    return f"rewrite {steps} {pattern_repr(p0)}", run


def w_flow(ctx, shared=None):
    og = shared or (gen.flow_open_graph(ctx, max_nodes=8, out_cliffords=True) if ctx.draw(2) else gen.open_graph(ctx, max_nodes=7))
    ctx.probe("flow")

    def run(rng):
        res = []
        for name in ("to_pauliflow_or_none", "to_gflow_or_none", "to_causalflow_or_none"):
            o = og if name == "to_pauliflow_or_none" else og.to_bloch()
            f = getattr(o, name)()
            if f is None:
                res.append(None)
                continue
            res += [sorted((k, sorted(v)) for k, v in f.correction_function.items()), [sorted(x) for x in f.partial_order_layers]]
            x = f.to_xzcorrections()
            res += [x.to_pattern(), str(f), str(x)]
        try:
            c = og.to_circuit()
            res.append(c)
        except (OpenGraphError, NotImplementedError, ValueError, FlowError) as e:
            res.append(type(e).__name__)
        return res

    return f"flows of {og_repr(og)}", run


def w_random(ctx, shared=None):
    k = ctx.draw(10)
    n = ctx.int(2, 4)
    ctx.probe("random-object")
    depth = ctx.int(1, 3)
    flags = [bool(ctx.draw(2)) for _ in range(4)]

    def run(rng):
        if k == 0:
            return [ro.rand_circuit(max(n, 3), depth, rng, use_j=flags[0], use_cz=flags[1], use_rzz=flags[2], use_ccx=flags[3])]
        if k == 1:
            return [ro.rand_gate(n, depth, [(i, (i + 1) % n) for i in range(n)], rng, use_rzz=flags[0])]
        if k == 2:
            return [ro.rand_unit(n, rng)]
        if k == 3:
            return [ro.rand_herm(n, rng)]
        if k == 4:
            return [ro.rand_dm(2**depth, rng)]
        if k == 5:
            return [[(complex(d.coef), d.operator) for d in ro.rand_channel_kraus(2, rng, rank=depth)]]
        if k == 6:
            return [[(complex(d.coef), d.operator) for d in ro.rand_pauli_channel_kraus(2, rng, rank=depth)]]
        if k == 7:
            return [ro.rand_state_vector(n, rng)]
        if k == 8:
            return [ro.rand_gauss_cpx_mat(n, rng)]
        return [ro.rand_circuit(max(n, 3), depth, rng, use_ccx=flags[0]).transpile().pattern]

    return f"random object {k} n={n} depth={depth}", run


def w_graphstate(ctx, shared=None):
    n = ctx.int(2, 5)
    g = gen.graph(ctx, n)
    ops = [(ctx.pick(["h", "s", "z", "mx", "my", "mz", "lc"]), ctx.draw(n), ctx.draw(2)) for _ in range(ctx.int(1, 6))]

    def run(rng):
        gs = GraphState(nodes=list(g.nodes), edges=list(g.edges))
        res = []
        for op, v, r in ops:
            if v not in gs.nodes:
                continue
            if op in ("h", "s", "z"):
                getattr(gs, op)(v)
            elif op == "lc":
                gs.local_complement(v)
            else:
                res.append(getattr(gs, "measure_" + op[1])(v, choice=r))
        res += [sorted(gs.edges), [(v, str(d)) for v, d in gs.nodes.items()], gs.to_statevector() if len(gs.nodes) else 0]
        return res

    return f"graph state {ops}", run


WORK = [(w_sim, 4), (w_noise, 3), (w_circuit, 3), (w_rewrite, 4), (w_flow, 3), (w_random, 3), (w_tn, 1), (w_graphstate, 1)]


def draw_workload(ctx):
    w = ctx.weighted(WORK)
    try:
        desc, run = w(ctx)
    except NotImplementedError:
        raise Discard from None
    seed = ctx.npseed()
    return desc, run, seed


def execute(run, seed):
    rng = np.random.default_rng(seed)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = run(rng)
    return serial([*res, rng.bit_generator.state["state"]["state"]])


# ---------------------------------------------------------------- scenarios

_peers = {}


def peer(hs):
    import os

    key = (os.getpid(), hs)
    if key not in _peers:
        for s in HASHSEEDS:
            _peers.setdefault((os.getpid(), s), Peer(s))
    return _peers[key]


HASHSEEDS = (1, 4242)


def job(ctx):
    """Executed by the peer process."""
    desc, run, seed = draw_workload(ctx)
    threaded = ctx.draw(2)
    if not threaded:
        return [execute(run, seed), ctx.pos]
    box = []
    idle = threading.Event()
    others = [threading.Thread(target=idle.wait, daemon=True) for _ in range(3)]
    for t in others:
        t.start()
    t = threading.Thread(target=lambda: box.append(execute(run, seed)))
    t.start()
    t.join()
    idle.set()
    return [box[0], ctx.pos]


def hashseed(ctx):
    """The same seeded work in another process: other hash seed, other addresses, other threads around."""
    desc, run, seed = draw_workload(ctx)
    ctx.draw(2)  # the peer may run it in a thread of its own
    ctx.describe(desc)
    here = execute(run, seed)
    again = execute(run, seed)
    d = differ(again, here)
    ctx.check(d is None, "not-reproducible", lambda: f"a second run with the same source differs: {d}: {desc}")
    hs = ctx.pick(HASHSEEDS)
    used = ctx.choices[:-1]
    there, pos = peer(hs).call("dst.checks.c07", "job", used)
    if there == "peer-exception":
        raise Violation("other-process-fails", f"{desc}: fails under hash seed {hs}: {pos}")
    ctx.fault("hash-seed-change")
    ctx.probe("hash-seed")
    ctx.nontrivial()
    ctx.log(desc, short(str(here)))
    d = differ(there, here)
    ctx.check(d is None, "hash-seed", lambda: f"hash seed {hs} gives another result: {d}: {desc}")


def interleaved(ctx):
    """Concurrent runs with separate sources, any interleaving: each gives what it gives alone."""
    n = ctx.int(2, 3)
    works = []
    if ctx.flag(1, 2):
        # the threads use one shared pattern, circuit or open graph (non-mutating calls only)
        ctx.probe("shared-object")
        k = ctx.draw(4)
        if k == 0:
            shared, ws = small_pattern(ctx, 4), [w_sim, w_noise, w_rewrite]
        elif k == 1:
            shared, ws = gen.circuit(ctx, max_width=3, max_depth=5, measures=True), [w_circuit]
        elif k == 2:
            shared, ws = gen.flow_open_graph(ctx, max_nodes=6, out_cliffords=True), [w_flow]
        else:
            shared, ws = small_pattern(ctx, 4), [w_sim, w_noise]
        for _ in range(n):
            desc, run = ctx.pick(ws)(ctx, shared)
            works.append((desc, run, ctx.npseed()))
    else:
        works = [draw_workload(ctx) for _ in range(n)]
    ctx.describe(" || ".join(w[0] for w in works))
    alone = [execute(run, seed) for _, run, seed in works]
    il = Interleaver(ctx, max_switches=ctx.int(1, 60))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            ts = il.run([lambda run=run, seed=seed: run_plain(run, seed) for _, run, seed in works])
        except Stuck as e:
            raise Violation("deadlock", f"{e}: {ctx.desc}") from None
    ctx.probe("interleaved")
    if il.switches > n:
        ctx.nontrivial()
    ctx.fault("thread-preemption", max(0, il.switches - n))
    ctx.step(il.lines)
    for t, a, w in zip(ts, alone, works):
        if t.exc is not None:
            raise Violation("interference", f"fails when interleaved with other runs: {type(t.exc).__name__}: {t.exc}: {w[0]}")
        d = differ(t.result, a)
        ctx.log(short(str(a)))
        ctx.check(d is None, "interference", lambda: f"interleaved run differs from the run alone: {d}: {w[0]} interleaved with {[x[0] for x in works if x is not w]}")


def run_plain(run, seed):
    rng = np.random.default_rng(seed)
    res = run(rng)
    return serial([*res, rng.bit_generator.state["state"]["state"]])


class Watch:
    """Components supplied by the caller, recording the source they are handed."""

    def __init__(self):
        self.seen = []


class WatchNoise(NoiseModel):
    def __init__(self, w):
        self.w = w

    def input_nodes(self, nodes, rng=None, *, stacklevel=1):
        self.w.seen.append(("input_nodes", rng))
        return []

    def command(self, cmd, rng=None, *, stacklevel=1):
        self.w.seen.append(("command", rng))
        return [cmd]

    def confuse_result(self, cmd, result, rng=None, *, stacklevel=1):
        self.w.seen.append(("confuse_result", rng))
        return result ^ int(rng.integers(2)) if rng is not None else result


class WatchPrepare(DefaultPrepareMethod):
    def __init__(self, w):
        self.w = w

    def prepare(self, backend, cmd, rng=None):
        self.w.seen.append(("prepare", rng))
        super().prepare(backend, cmd, rng)


class WatchSelector(BranchSelector):
    def __init__(self, w):
        self.w = w
        self.inner = RandomBranchSelector()

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        self.w.seen.append(("measure", rng))
        return self.inner.measure(qubit, f_expectation0, rng)


class WatchMeasure(DefaultMeasureMethod):
    def __init__(self, w):
        super().__init__()
        self.w = w

    def measure(self, backend, cmd, noise_model=None, rng=None, *, stacklevel=1):
        self.w.seen.append(("measure_method", rng))
        super().measure(backend, cmd, noise_model=noise_model, rng=rng, stacklevel=stacklevel)


def sources(ctx):
    """With a source supplied, no other one is read: no fallback warning, no global generator, same object everywhere."""
    if ctx.draw(2):
        desc, run, seed = draw_workload(ctx)
        custom = None
    else:
        p = small_pattern(ctx, 4)
        seed = ctx.npseed()
        custom = Watch()
        noisy = ctx.draw(3)
        backend = "densitymatrix" if noisy else ctx.pick(["statevector", "densitymatrix"])
        desc = f"simulate {backend} with caller-supplied components (noise {noisy}) {pattern_repr(p)}"
        ctx.probe("custom-components")
        fixed = {n: ctx.draw(2) for n in ctx.subset(measured_nodes(p), 1, 3)} if noisy == 0 else {}

        def run(rng):
            nm = None
            if noisy == 1:
                nm = WatchNoise(custom)
            elif noisy == 2:
                nm = ComposeNoiseModel([WatchNoise(custom), ComposeNoiseModel([WatchNoise(custom)])])
            sel = WatchSelector(custom)
            if ctx_fixed:
                sel = FixedBranchSelector(dict(fixed), default=sel)
            mm = WatchMeasure(custom)
            try:
                st = p.simulate(backend, noise_model=nm, prepare_method=WatchPrepare(custom), branch_selector=sel, measure_method=mm, rng=rng)
            except (ValueError, RuntimeError, AssertionError):
                if not fixed:
                    raise
                return ["impossible"]  # an impossible outcome was fixed
            return [dict(mm.results), st]

        ctx_fixed = bool(ctx.draw(2))
    ctx.describe(desc)
    rng = np.random.default_rng(seed)
    ensure = _quiet(lambda: ensure_rng())
    before = (random.getstate(), _npstate(), str(ensure.bit_generator.state))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        res = serial(run(rng))
    bad = [str(w.message) for w in ws if "random-number generator" in str(w.message)]
    ctx.probe("source-only")
    ctx.nontrivial()
    ctx.log(desc, short(str(res)))
    ctx.check(not bad, "fallback-source", lambda: f"the implicit source is used although one is supplied: {desc}")
    if "tensor network" not in desc:  # quimb names its indices from its own generator
        ctx.check((random.getstate(), _npstate()) == before[:2], "global-source", lambda: f"a global generator is read although a source is supplied: {desc}")
    ctx.check(str(ensure.bit_generator.state) == before[2], "fallback-source", lambda: f"the implicit source is read although one is supplied: {desc}")
    if custom is not None:
        wrong = [k for k, r in custom.seen if r is not rng]
        ctx.check(not wrong, "source-not-forwarded", lambda: f"{sorted(set(wrong))} not given the supplied source: {desc}")
        if fixed and ctx_fixed:
            asked = [k for k, _ in custom.seen if k == "measure"]
            nm = len(measured_nodes(p))
            ctx.check(res == [["=", "impossible"]] or len(asked) == nm - len(fixed), "selector-consulted", lambda: f"default selector asked {len(asked)} times, {nm - len(fixed)} unfixed outcomes: {desc}")


def _npstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:])


def _quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def default_source(ctx):
    """Without a supplied source each thread reads its own: other threads' draws never touch it."""
    n = ctx.int(2, 3)
    works = []
    for _ in range(n):
        p = small_pattern(ctx, 3)
        k = ctx.draw(3)
        if k == 0:
            works.append((f"simulate {pattern_repr(p)}", lambda p=p: p.simulate("statevector")))
        elif k == 1:
            m = ctx.int(1, 3)
            works.append((f"rand_state_vector({m})", lambda m=m: ro.rand_state_vector(m)))
        else:
            works.append((f"noisy {pattern_repr(p)}", lambda p=p: p.simulate("densitymatrix", noise_model=build_noise(ctx, _DEPOL))))
    rounds = ctx.int(1, 3)
    ctx.describe(" || ".join(w[0] for w in works))
    il = Interleaver(ctx, max_switches=ctx.int(1, 40), max_gap=100)

    def body(f):
        g = ensure_rng()
        states = []
        for _ in range(rounds):
            a = str(g.bit_generator.state)
            mid()
            b = str(g.bit_generator.state)
            states.append(a == b)
            f()
            if ensure_rng() is not g:
                states.append(None)
        return g, states

    def mid():
        # a point where other threads run
        return StandardizedPattern.from_pattern(Pattern(input_nodes=[0])).to_pattern()

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            ts = il.run([lambda f=f: body(f) for _, f in works])
        except Stuck as e:
            raise Violation("deadlock", f"{e}: {ctx.desc}") from None
    ctx.probe("default-source")
    ctx.fault("thread-preemption", max(0, il.switches - n))
    ctx.step(il.lines)
    if il.switches > n:
        ctx.nontrivial()
    gens = []
    for t, w in zip(ts, works):
        if isinstance(t.exc, ValueError):
            continue
        if t.exc is not None:
            raise Violation("interference", f"fails when interleaved: {type(t.exc).__name__}: {t.exc}: {w[0]}")
        g, states = t.result
        ctx.check(None not in states, "default-source", "the implicit source of a thread changes between calls")
        ctx.check(all(states), "default-source", lambda: f"another thread draws from this thread's implicit source: {ctx.desc}")
        gens.append(g)
    for i, g in enumerate(gens):
        for h in gens[:i]:
            ctx.check(g is not h and g.bit_generator is not h.bit_generator, "default-source", "two threads share the implicit source")
            ctx.check(str(g.bit_generator.state["state"]["inc"]) != str(h.bit_generator.state["state"]["inc"]), "default-source", "two threads' implicit sources are the same stream")
    main = _quiet(ensure_rng)
    ctx.check(all(g is not main for g in gens), "default-source", "a thread shares the main thread's implicit source")


from dst.checks.c06 import MDesc  # noqa: E402

_DEPOL = MDesc("depol", p=dict(prepare_error_prob=0.1, x_error_prob=0.0, z_error_prob=0.0, entanglement_error_prob=0.0, measure_channel_prob=0.0, measure_error_prob=0.3))

SCENARIOS = [("hashseed", hashseed, 5), ("interleaved", interleaved, 3), ("sources", sources, 3), ("default_source", default_source, 1)]
