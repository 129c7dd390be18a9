"""C04: every backend follows the measurement-based semantics for every outcome history."""

from __future__ import annotations

import contextlib
import copy
import math
import warnings

import numpy as np

from dst import gen, ref
from dst.core import Discard, TooBig, Violation, close_up_to_phase, fidelity
from dst.gx import (
    BasicStates, ConstBranchSelector, DefaultMeasureMethod, DensityMatrix, DensityMatrixBackend, FixedBranchSelector,
    PatternSimulator, RandomBranchSelector, ScriptSelector, Statevector, StatevectorBackend, measured_nodes, pattern_key, pattern_repr,
)
from dst.seams import poisoned_memory, rng_from_values, scripted_rng

from graphix.opengraph import OpenGraphError
from graphix.sim.tensornet import MBQCTensorNet

LEVEL = "exploration"
QUICK_RUNS = 50000
THOROUGH_RUNS = 600000
REAL = ["graphix.simulator", "graphix.sim.base_backend", "graphix.sim.statevec (compiled kernels)", "graphix.sim.density_matrix",
        "graphix.sim.tensornet", "graphix.branch_selector", "graphix.states", "graphix.measurements", "graphix.clifford"]
STUB = ["random bit source (scripted numpy bit generator)", "outcome histories (scripted branch selector)",
        "content of uninitialised memory (poisoned numpy.empty)"]
RULE = ("random runnable patterns (<=6 nodes) with biased outcome probabilities, all input forms, all backends and capacities; histories of "
        "state operations; adversarial outcome histories and random draws (0, largest, grids); non-trivial = at least one measurement or one operation")
ASSUMPTIONS = ["reference semantics in dst/ref.py", "the tensor network backend is exercised on deterministic patterns with |+> inputs, plus isolated nodes",
               "outcomes of conditional probability below 3e-8 are not forced"]
REQUIRED_PROBES = ("threshold", "wide", "rare-outcome", "biased-measurement", "determined-measurement", "mixed-input", "capacity-growth", "tensornetwork", "random-selector", "low-probability-branch", "impossible-outcome", "tn-ops")

EPS = 1e-5
RARE = 3e-8  # smallest conditional probability forced in runs with directions close to the axes


def reference(cmds, inputs, psi, nref, choose):
    """Lock-step reference run (given command order, normalised after each measurement)."""
    run = ref.RefRun(inputs, psi, nref)
    run.normalise()
    p0s, taken, order = {}, {}, []
    for c in cmds:
        if c.kind.name == "M":
            vec = run.bloch(c)
            p0 = run.p0(vec, c.node)
            r = choose(c.node, p0)
            p0s[c.node], taken[c.node] = p0, r
            order.append(c.node)
            run.measure(c.node, vec, r)
            run.normalise()
        else:
            run.step(c, None)
    return run, p0s, taken, order


def forced(script, eps=EPS):
    """Outcome choice: the scripted one unless its probability is (nearly) zero."""
    def choose(node, p0):
        r = script.get(node, 0)
        if (p0 if r == 0 else 1 - p0) < eps:
            r = 1 - r
        return r
    return choose


def reduced(t, n):
    """Density matrix of the first n axes."""
    m = t.reshape(2**n, -1)
    return m @ m.conj().T


def check_state(ctx, state, run, outputs, what, dm):
    n = len(outputs)
    t = run.tensor(outputs)
    if dm:
        a = np.array(state.rho, dtype=complex)
        e = reduced(t, n)
        ctx.check(a.shape == e.shape and np.allclose(a, e, atol=1e-6), "wrong-state", lambda: f"density matrix differs by {np.abs(a - e).max() if a.shape == e.shape else a.shape}: {what}")
        ctx.check(state.nqubit == n, "wrong-state", lambda: f"nqubit {state.nqubit} != {n}: {what}")
    else:
        a = np.array(state.flatten(), dtype=complex)
        ctx.check(abs(np.linalg.norm(a) - 1) < 1e-6, "not-normalised", lambda: f"norm {np.linalg.norm(a)}: {what}")
        ctx.check(close_up_to_phase(a, t), "wrong-state", lambda: f"state differs, fidelity {fidelity(a, t):.6f}: {what}")
        ctx.check(state.nqubit == n and len(state.psi) == 2**n, "wrong-state", lambda: f"nqubit {state.nqubit} != {n}: {what}")


def mixed_input(ctx, n):
    """(density matrix data, purification tensor, number of reference axes)."""
    k = ctx.int(1, 2)
    v = gen.random_unit_vector(ctx, 2 ** (n + k))
    rho = reduced(v, n)
    rho = (rho + rho.conj().T) / 2
    data = rho if ctx.draw(2) else DensityMatrix(rho)
    return data, v, k


def note_p0(ctx, p0s):
    for p in p0s.values():
        if p < 1e-9 or p > 1 - 1e-9:
            ctx.probe("determined-measurement")
        elif abs(p - 0.5) > 1e-6:
            ctx.probe("biased-measurement")
            if min(p, 1 - p) < 0.02:
                ctx.probe("low-probability-branch")


def nudged(ctx, p):
    """Measurement directions close to, but not on, the axes: outcomes that are rare but possible."""
    from dst.gx import Measurement, Pattern, command
    cmds = []
    for c in p:
        if c.kind.name == "M" and ctx.flag(2, 3):
            a = ctx.pick([0, 0.5, 1, 1.5]) + ctx.pick([1, -1]) * ctx.pick([1e-3, 3e-3, 1e-2, 3e-4, 2e-5])
            f = ctx.pick([Measurement.XY, Measurement.XZ, Measurement.YZ])
            c = command.M(c.node, f(a), set(c.s_domain), set(c.t_domain))
        cmds.append(c)
    q = Pattern(input_nodes=p.input_nodes, cmds=cmds)
    q.reorder_output_nodes(p.output_nodes)
    return q


def pattern_run(ctx):
    p = gen.general_pattern(ctx, max_nodes=7, max_live=5, e_after_c=ctx.flag(1, 2), pauli_bias=ctx.flag(1, 3))
    eps = EPS
    if ctx.flag(1, 4):
        p = nudged(ctx, p)
        eps = RARE
    nin = len(p.input_nodes)
    mn = measured_nodes(p)
    rep = pattern_repr(p)
    ctx.describe(rep)
    key = pattern_key(p)
    dm = ctx.flag(2, 5)
    nref = 0
    if dm and nin and ctx.flag(1, 3):
        inp, v, nref = mixed_input(ctx, nin)
        ctx.probe("mixed-input")
    else:
        inp, v = gen.input_state(ctx, nin)
    script = gen.outcomes(ctx, mn)
    run, p0s, taken, order = reference(list(p), p.input_nodes, v, nref, forced(script, eps))
    if any(taken[m] != script[m] for m in mn):
        ctx.fault("impossible-outcome-requested")
    note_p0(ctx, p0s)
    if any((p0s[m] if taken[m] == 0 else 1 - p0s[m]) < 1e-4 for m in mn):
        ctx.probe("rare-outcome")
        ctx.fault("rare-outcome")
    if mn:
        ctx.nontrivial()
    sel = ScriptSelector(script, eps=eps)
    mm = DefaultMeasureMethod()
    rng = np.random.default_rng(0)
    how = ctx.draw(5)
    poison = ctx.flag(1, 2)
    if poison:
        ctx.fault("poisoned-memory")
    name = "densitymatrix" if dm else "statevector"
    need = ref.space_needed(list(p), nin)
    with poisoned_memory() if poison else contextlib.nullcontext(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if how <= 1:
            kw = {} if inp is None else {"input_state": inp}
            st = p.simulate(name, branch_selector=sel, measure_method=mm, rng=rng, **kw)
            nidx = None
        else:
            if dm:
                be = DensityMatrixBackend(branch_selector=sel)
            elif how == 2:
                be = StatevectorBackend(branch_selector=sel)
                ctx.probe("capacity-growth")
            else:
                cap = ctx.int(0, need + 2)
                if cap < need:
                    ctx.probe("capacity-growth")
                be = StatevectorBackend.with_capacity(cap, branch_selector=sel)
            if how == 4:
                # inputs prepared by the caller
                if nin:
                    be.add_nodes(p.input_nodes, BasicStates.PLUS if inp is None else inp)
                sim = PatternSimulator(p, be, measure_method=mm)
                sim.run(input_state=None, rng=rng)
            else:
                sim = PatternSimulator(p, be, measure_method=mm)
                if inp is None:
                    sim.run(rng=rng)
                else:
                    sim.run(input_state=inp, rng=rng)
            st = be.state
            nidx = list(be.node_index)
    what = f"{name}/{how} with input {inp!r}, outcomes {script}: {rep}"
    ctx.sched(*[taken[m] for m in order])
    ctx.log(rep, name, how, sorted(taken.items()))
    ctx.step(len(list(p)))
    ctx.check(sel.order == order, "measurement-order", lambda: f"measured {sel.order}, expected {order}: {what}")
    for m in mn:
        ctx.check(abs(sel.p0[m] - p0s[m]) < 1e-6, "probability", lambda: f"node {m} offered with probability of 0 = {sel.p0[m]:.8f}, Born rule {p0s[m]:.8f}: {what}")
    ctx.check({m: sel.taken[m] for m in mn} == taken, "probability-zero", lambda: f"outcomes {sel.taken}, expected {taken}: {what}")
    ctx.check(dict(mm.results) == taken, "results-recorded", lambda: f"recorded {mm.results}, outcomes {taken}: {what}")
    if nidx is not None:
        ctx.check(nidx == list(p.output_nodes), "output-order", lambda: f"node index {nidx}, outputs {p.output_nodes}: {what}")
    check_state(ctx, st, run, p.output_nodes, what, dm)
    ctx.check(pattern_key(p) == key, "source-mutated", lambda: f"simulation changed the pattern: {what}")


def wide(ctx):
    """Registers on both sides of the size where the kernels switch to their parallel branch."""
    from dst.gx import CLIFFORDS, Pattern, command
    n = ctx.weighted([(16, 4), (17, 3), (15, 1)])
    labels = ctx.shuffle(range(2 * n))[:n]
    nin = ctx.int(0, 3)
    cmds = []
    basic = (BasicStates.ZERO, BasicStates.ONE, BasicStates.MINUS, BasicStates.PLUS_I)
    for q in labels[nin:]:
        cmds.append(command.N(q, ctx.pick(basic) if ctx.flag(1, 3) else BasicStates.PLUS))
    live, measured = list(labels), []

    def some():
        # first, last or any position
        k = ctx.draw(3)
        return live[0] if k == 0 else live[-1] if k == 1 else ctx.pick(live)

    for _ in range(ctx.int(4, 14)):
        k = ctx.weighted([("E", 6), ("M", 3), ("C", 3), ("X", 1), ("Z", 1)])
        if k == "E":
            a = some()
            b = ctx.pick([q for q in live if q != a])
            cmds.append(command.E((a, b)))
        elif k == "M":
            if len(live) <= n - 4:
                continue
            q = some()
            cmds.append(command.M(q, gen.measurement(ctx), set(ctx.subset(measured)), set(ctx.subset(measured))))
            live.remove(q)
            measured.append(q)
        elif k == "C":
            cmds.append(command.C(some(), ctx.pick(CLIFFORDS)))
        else:
            cmds.append((command.X if k == "X" else command.Z)(some(), set(ctx.subset(measured))))
    p = Pattern(input_nodes=labels[:nin], cmds=cmds)
    if ctx.flag(1, 2):
        p.reorder_output_nodes(ctx.shuffle(live))
    rep = pattern_repr(p)
    ctx.describe(rep)
    inp, v = gen.input_state(ctx, nin)
    script = gen.outcomes(ctx, measured)
    run, p0s, taken, order = reference(list(p), p.input_nodes, v, 0, forced(script))
    note_p0(ctx, p0s)
    sel = ScriptSelector(script, eps=EPS)
    mm = DefaultMeasureMethod()
    kw = {} if inp is None else {"input_state": inp}
    be = StatevectorBackend.with_capacity(n + ctx.draw(2), branch_selector=sel) if ctx.flag(1, 2) else StatevectorBackend(branch_selector=sel)
    sim = PatternSimulator(p, be, measure_method=mm)
    sim.run(rng=np.random.default_rng(0), **kw)
    what = f"{n} qubits, outcomes {taken}: {rep}"
    ctx.log(rep, sorted(taken.items()))
    ctx.sched(n, *[taken[m] for m in order])
    ctx.probe("wide")
    ctx.nontrivial()
    for m in order:
        ctx.check(abs(sel.p0[m] - p0s[m]) < 1e-6, "probability", lambda: f"node {m} offered with probability of 0 = {sel.p0[m]:.8f}, Born rule {p0s[m]:.8f}: {what}")
    ctx.check(dict(mm.results) == taken, "results-recorded", lambda: f"recorded {mm.results}, outcomes {taken}: {what}")
    check_state(ctx, be.state, run, p.output_nodes, what, False)


def impossible(ctx):
    """A fixed outcome of probability zero is refused: no state comes out."""
    p = gen.general_pattern(ctx, max_nodes=6, max_live=4, e_after_c=ctx.flag(1, 2), pauli_bias=True)
    mn = measured_nodes(p)
    if not mn:
        raise Discard
    inp, v = gen.input_state(ctx, len(p.input_nodes))
    script = gen.outcomes(ctx, mn)
    _, p0s, taken, order = reference(list(p), p.input_nodes, v, 0, forced(script))
    bad = [m for m in order if p0s[m] < 1e-9 or p0s[m] > 1 - 1e-9]
    if not bad:
        raise Discard
    m = ctx.pick(bad)
    fixed = {**taken, m: 1 - taken[m]}
    dm = bool(ctx.draw(2))
    sel = FixedBranchSelector(fixed) if ctx.draw(2) else ScriptSelector(fixed, eps=-1.0)
    what = f"node {m} measured with impossible outcome {fixed[m]}, outcomes {fixed}, input {inp!r}: {pattern_repr(p)}"
    ctx.describe(what)
    ctx.fault("impossible-outcome-requested")
    ctx.probe("impossible-outcome")
    ctx.nontrivial()
    ctx.log(what, dm)
    kw = {} if inp is None else {"input_state": inp}
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            st = p.simulate("densitymatrix" if dm else "statevector", branch_selector=sel, rng=np.random.default_rng(0), **kw)
        except (RuntimeError, ValueError, ZeroDivisionError, FloatingPointError, AssertionError):
            return
    raise Violation("impossible-outcome-accepted", f"{'density matrix' if dm else 'state vector'} {st}: {what}")


# ------------------------------------------------------------------ selectors and random draws

def draws(ctx, n):
    k = ctx.draw(5)
    if k == 0:
        vals = [0.0] * n
    elif k == 1:
        vals = [1.0 - 2**-53] * n
    elif k == 2:
        vals = [ctx.pick([0.0, 2**-53, 0.5, 1 - 2**-53]) for _ in range(n)]
    else:
        vals = [ctx.unit() for _ in range(n)]
    if k <= 2:
        ctx.fault("extreme-random-draw", n)
    return vals


def sampling(ctx):
    """Random branch selection fed with adversarial random bits."""
    p = gen.general_pattern(ctx, max_nodes=6, max_live=4, e_after_c=True, pauli_bias=ctx.flag(1, 2), cliffords=ctx.flag(1, 2))
    mn = measured_nodes(p)
    if not mn:
        raise Discard
    ctx.nontrivial()
    rep = pattern_repr(p)
    ctx.describe(rep)
    nin = len(p.input_nodes)
    inp, v = gen.input_state(ctx, nin)
    dm = ctx.flag(1, 4)
    fixed = {m: ctx.draw(2) for m in ctx.subset(mn, 1, 4)} if ctx.flag(1, 2) else None
    vals = draws(ctx, 4 * len(mn))
    rng, bits = rng_from_values(vals)
    mm = DefaultMeasureMethod()
    rs = Recorder()
    if fixed is not None:
        # keep the fixed outcomes possible
        _, p0s, _, _ = reference(list(p), p.input_nodes, v, 0, forced({}))
        fixed = {m: r for m, r in fixed.items() if 0.01 < p0s[m] < 0.99}
        sel = FixedBranchSelector(fixed, default=rs)
    else:
        sel = rs
    ctx.probe("random-selector")
    kw = {} if inp is None else {"input_state": inp}
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            st = p.simulate("densitymatrix" if dm else "statevector", branch_selector=sel, measure_method=mm, rng=rng, **kw)
        except (RuntimeError, ZeroDivisionError):
            rs.check(ctx, rep)
            if fixed or any(min(q) < 1e-12 for q in rs.offered.values()):
                raise Discard from None  # a fixed outcome has become impossible, or rounding made a zero probability 1e-16
            raise
    rs.check(ctx, rep)
    res = dict(mm.results)
    what = f"random draws {vals[:6]}..., fixed {fixed}, outcomes {res}: {rep}"
    ctx.check(not any("random-number generator" in str(w.message) for w in rec), "default-source", lambda: f"the supplied random source was not used: {what}")
    free = [m for m in mn if not fixed or m not in fixed]
    ctx.check(bits.draws >= 1 or not free, "default-source", lambda: f"no draw from the supplied random source: {what}")
    ctx.check(all(type(r) is int and r in (0, 1) or r in (0, 1) for r in res.values()) and set(res) == set(mn), "results-recorded", lambda: what)
    if fixed:
        ctx.check(all(res[m] == r for m, r in fixed.items()), "fixed-outcome", lambda: f"fixed outcomes not obeyed: {what}")
    low = []

    def choose(node, p0):
        r = res[node]
        q = p0 if r == 0 else 1 - p0
        # exact zeros may be represented by rounding errors of order 1e-16 in the amplitudes
        if q < 1e-9:
            low.append(node)
        return r

    run, p0s, taken, order = reference(list(p), p.input_nodes, v, 0, choose)
    note_p0(ctx, p0s)
    ctx.sched(*[res[m] for m in mn])
    ctx.log(rep, vals, sorted(res.items()))
    if low:
        # an outcome of probability zero, offered as about 1e-16 because of rounding, was drawn
        ctx.check(bool(fixed) or any(0 < x < 1e-12 or x > 1 - 1e-12 or x == 0 for x in vals), "probability-zero",
                  lambda: f"outcome of probability zero selected for {low}: {what}")
        raise Discard
    check_state(ctx, st, run, p.output_nodes, what, dm)


class Recorder(RandomBranchSelector):
    """The real random selector; records the offered probability and the selected outcome."""

    def __init__(self):
        super().__init__()
        self.offered = {}

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        p = []

        def f():
            p.append(float(np.real(f_expectation0())))
            return p[-1]

        r = super().measure(qubit, f, rng, stacklevel=stacklevel + 1)
        p0 = p[-1] if p else float(np.real(f_expectation0()))
        self.offered[qubit] = (p0, 1 - p0) if r == 0 else (1 - p0, p0)
        return r

    def check(self, ctx, rep):
        for q, (mine, _) in self.offered.items():
            ctx.check(mine > 0.0, "probability-zero", lambda: f"node {q}: selected an outcome offered with probability {mine}: {rep}")


def threshold(ctx):
    """The set of random draws that select outcome 0 has exactly the probability that was offered (also when it is tiny)."""
    e = ctx.pick([1e-3, 1e-4, 3e-5, 1e-6, 1e-8]) * (1 + ctx.unit())
    p0 = ctx.pick([e, 1 - e, 0.5 + e, 0.5 - e, ctx.unit()])
    nested = ctx.flag(1, 3)

    def pick(u):
        rng, _ = rng_from_values([u, u])
        sel = RandomBranchSelector()
        if nested:
            sel = FixedBranchSelector({1: 1}, default=sel)
        return int(sel.measure(0, lambda: p0, rng))

    lo, hi = 0.0, 1 - 2**-53
    first, last = pick(lo), pick(hi)
    ctx.log(p0, first, last)
    ctx.nontrivial()
    ctx.probe("threshold")
    what = f"probability of outcome 0 = {p0}: outcomes {first} on draw {lo} and {last} on draw {hi}"
    ctx.check(first != last, "frequency", lambda: f"{what}: an outcome is never selected")
    while hi - lo > 1e-15:
        mid = (lo + hi) / 2
        if mid in (lo, hi):
            break
        if pick(mid) == first:
            lo = mid
        else:
            hi = mid
    got = hi if first == 0 else 1 - hi
    ctx.check(abs(got - p0) < 1e-12, "frequency", lambda: f"{what}: outcome 0 is selected with probability {got}")


def frequencies(ctx):
    """Over an even grid of random draws the selector follows the probability it was offered."""
    pr = ctx.pick([0.0, 1.0, 0.5, 0.25, 0.1, 0.9, None])
    p0 = ctx.unit() if pr is None else pr
    n = 64
    kind = ctx.draw(4)
    calls = []
    zeros = 0
    phase = ctx.pick([0.0, 0.5, 0.999])
    q = ctx.int(0, 9)
    if phase == 0.0:
        ctx.fault("extreme-random-draw")
    for k in range(n):
        rng, bits = rng_from_values([(k + phase) / n, 0.5])
        called = []
        f = lambda: (called.append(1), p0)[1]  # noqa: E731
        if kind == 0:
            sel, expect = RandomBranchSelector(), p0
        elif kind == 1:
            sel, expect = RandomBranchSelector(pr_calc=False), 0.5
        elif kind == 2:
            sel, expect = FixedBranchSelector({q + 1: 1}, default=RandomBranchSelector()), p0
        else:
            sel, expect = FixedBranchSelector({q + 1: 1}, default=ConstBranchSelector(1)), 0.0
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            r = sel.measure(q, f, rng)
        ctx.check(not rec, "default-source", lambda: f"{sel}: warning {[str(w.message) for w in rec]}")
        ctx.check(r in (0, 1), "outcome-type", lambda: f"{sel} returned {r!r}")
        if kind in (0, 2):
            ctx.check(not (p0 == 0.0 and r == 0) and not (p0 == 1.0 and r == 1), "probability-zero", lambda: f"{sel} returned {r} with probability of 0 = {p0} on draw {(k + phase) / n}")
        zeros += r == 0
        calls.append(int(r))
    ctx.nontrivial()
    ctx.log(kind, p0, calls)
    ctx.sched(kind, *calls)
    ctx.check(abs(zeros / n - expect) <= 1.5 / n, "frequency", lambda: f"kind {kind}: outcome 0 chosen for {zeros}/{n} of an even grid of draws, probability {expect}")


# ------------------------------------------------------------------ histories of state operations

def rand_op(ctx, k):
    r = np.random.default_rng(ctx.npseed())
    m = r.normal(size=(2**k, 2**k)) + 1j * r.normal(size=(2**k, 2**k))
    if ctx.flag(1, 3):
        return m
    qm, _ = np.linalg.qr(m)
    return qm


class Model:
    """Reference: a pure tensor with n qubit axes first and reference axes last."""

    def __init__(self):
        self.t = np.ones((), dtype=complex)
        self.n = 0

    def add(self, v, k, nref=0):
        # new qubits come last among the qubit axes
        m = np.asarray(v, dtype=complex).reshape((2,) * (k + nref))
        t = np.multiply.outer(self.t, m)
        nr = self.t.ndim - self.n
        t = np.moveaxis(t, range(self.n + nr, self.n + nr + k), range(self.n, self.n + k))
        self.t = t
        self.n += k

    def apply(self, op, qs):
        self.t = ref.applyk(self.t, op, list(qs))

    def rho(self):
        return reduced(self.t, self.n)


def dense_ops(ctx):
    dm = ctx.flag(1, 2)
    poison = ctx.flag(1, 2)
    if poison:
        ctx.fault("poisoned-memory")
    hist = []
    with poisoned_memory() if poison else contextlib.nullcontext():
        _dense_ops(ctx, dm, hist)


def _dense_ops(ctx, dm, hist):
    m = Model()
    if dm:
        st = DensityMatrix(nqubit=0)
    else:
        cap = ctx.draw(4)
        st = Statevector(nqubit=0, max_qubits=cap) if ctx.draw(2) else Statevector(nqubit=0)
    limit = 4 if dm else 6
    nops = ctx.int(1, 14)
    scale = 1.0  # squared norm of the model
    ctx.describe(hist)
    for _ in range(nops):
        n = m.n
        norm2 = float(np.vdot(m.t, m.t).real)
        opts = []
        if not n or n < limit and m.t.ndim < 9:
            opts += [("add", 6)]
        if n >= 1:
            opts += [("single", 4), ("expect", 3), ("project", 3), ("permute", 2), ("copy", 2)]
            if not dm:
                opts += [("grow", 1)]
        if n >= 2:
            opts += [("cz", 5), ("swap", 3), ("multi", 3)]
            if not dm:
                opts += [("expectk", 2)]
        if dm and n >= 1:
            opts += [("fidelity", 2), ("ptrace", 2), ("expect_again", 1)]
        if not dm and n >= 1:
            opts += [("fidelity", 1)]
        k = ctx.weighted(opts)
        if k == "add":
            q = ctx.int(1, min(2, limit - n))
            form = ctx.draw(5 if dm else 4)
            nr = 0
            if form == 0:
                data, v = BasicStates.PLUS, gen._prod([ref.BASIC["PLUS"]] * q)
            elif form == 1:
                data = gen.planar_state(ctx)
                v = gen._prod([ref.state_vec(data)] * q)
            elif form == 2:
                data = [gen.planar_state(ctx) for _ in range(q)]
                v = gen._prod([ref.state_vec(s) for s in data])
            elif form == 3:
                v = gen.random_unit_vector(ctx, 2**q)
                data = Statevector(v) if ctx.draw(2) else v
            else:
                nr = 1
                v = gen.random_unit_vector(ctx, 2 ** (q + 1))
                data = reduced(v, q)
                data = (data + data.conj().T) / 2
            if ctx.draw(2):
                st.add_nodes(q, data)
            else:
                st.tensor(DensityMatrix(data, nqubit=q) if dm else Statevector(data, nqubit=q))
            m.add(v, q, nr)
            hist.append(("add", q, form))
        elif k == "single":
            op = rand_op(ctx, 1)
            q = ctx.draw(n)
            st.evolve_single(op, q)
            m.apply(op, [q])
            hist.append(("single", q))
        elif k == "cz":
            a, b = ctx.shuffle(range(n))[:2]
            if dm and ctx.flag(1, 3):
                st.cnot((a, b))
                m.apply(ref.CNOT4, [a, b])
                hist.append(("cnot", a, b))
            else:
                st.entangle((a, b))
                m.apply(ref.CZ4, [a, b])
                hist.append(("cz", a, b))
        elif k == "swap":
            a, b = ctx.shuffle(range(n))[:2]
            st.swap((a, b))
            m.apply(ref.SWAP4, [a, b])
            hist.append(("swap", a, b))
        elif k == "multi":
            qs = ctx.shuffle(range(n))[: ctx.int(1, min(3, n))]
            op = rand_op(ctx, len(qs))
            st.evolve(op, qs)
            m.apply(op, qs)
            hist.append(("multi", tuple(qs)))
        elif k == "permute":
            perm = ctx.shuffle(range(n))
            st.permute(perm)
            m.t = np.transpose(m.t, list(perm) + list(range(n, m.t.ndim)))
            hist.append(("permute", tuple(perm)))
        elif k in ("expect", "expect_again"):
            q = ctx.draw(n)
            h = rand_op(ctx, 1)
            h = h + h.conj().T
            e = np.vdot(m.t, ref.applyk(m.t, h, [q])) / norm2
            got = st.expectation_single(h, q)
            exp = e if dm else e * norm2  # the state vector form is documented for normalised states only
            ctx.check(abs(got - exp) < 1e-6 * max(1, abs(exp)), "expectation", lambda: f"expectation {got}, expected {exp} of qubit {q} after {hist}")
            if dm:
                # reading an expectation value may rescale but not change the state
                a = np.array(st.rho)
                ctx.check(np.allclose(a / np.trace(a), m.rho() / norm2, atol=1e-6), "wrong-state", lambda: f"expectation_single changed the state after {hist}")
                if abs(np.trace(a) - norm2) > 1e-9 * norm2:
                    m.t = m.t / math.sqrt(norm2)
            hist.append(("expect", q))
        elif k == "expectk":
            qs = ctx.shuffle(range(n))[: ctx.int(1, min(3, n))]
            h = rand_op(ctx, len(qs))
            # Statevector(data=...) requires a normalised state
            if abs(norm2 - 1) > 1e-9:
                continue
            e = np.vdot(m.t, ref.applyk(m.t, h, qs))
            got = st.expectation_value(h, qs)
            ctx.check(abs(got - e) < 1e-6 * max(1, abs(e)), "expectation", lambda: f"expectation {got}, expected {e} of {qs} after {hist}")
            hist.append(("expectk", tuple(qs)))
        elif k == "project":
            q = ctx.draw(n)
            v = ref.eigvec(_unit(ctx), 0)
            t = np.tensordot(np.conj(v), m.t, axes=(0, q))
            nt = np.linalg.norm(t)
            if nt**2 < 1e-6 * norm2 or nt < 1e-6:
                continue
            st.project_qubit(np.outer(v, v.conj()), q)
            m.t = t / nt
            m.n -= 1
            hist.append(("project", q))
        elif k == "ptrace":
            qs = ctx.shuffle(range(n))[: ctx.int(1, n)]
            st.ptrace(qs if len(qs) > 1 or ctx.draw(2) else qs[0])
            keep = [i for i in range(n) if i not in qs]
            m.t = np.transpose(m.t, keep + qs + list(range(n, m.t.ndim)))
            m.n = len(keep)
            hist.append(("ptrace", tuple(qs)))
        elif k == "fidelity":
            v = gen.random_unit_vector(ctx, 2**n)
            other = Statevector(v)
            if dm:
                got = st.fidelity(other)
                e = float(np.real(np.conj(v) @ m.rho() @ v))
            else:
                got = st.fidelity(other)
                e = abs(np.vdot(m.t.reshape(-1), v)) ** 2
            ctx.check(abs(got - e) < 1e-6 * max(1, e), "fidelity", lambda: f"fidelity {got}, expected {e} after {hist}")
            hist.append(("fidelity",))
        elif k == "copy":
            c = ctx.draw(3)
            if dm:
                st = DensityMatrix(st) if c else copy.deepcopy(st)
            elif c == 0:
                st = copy.deepcopy(st)
            else:
                st = Statevector(st) if c == 1 else Statevector(st, max_qubits=n + ctx.draw(3))
            hist.append(("copy", c))
        elif k == "grow":
            st.ensure_capacity(n + ctx.draw(3))
            hist.append(("grow",))
        # keep numbers in range
        ctx.sched(*hist[-1][:1]) if hist else None
        n2 = float(np.vdot(m.t, m.t).real)
        if not 1e-6 < n2 < 1e6:
            break
        ctx.check(st.nqubit == m.n, "wrong-state", lambda: f"nqubit {st.nqubit}, expected {m.n} after {hist}")
        if dm:
            a, e = np.array(st.rho, dtype=complex), m.rho()
        else:
            a, e = np.array(st.flatten(), dtype=complex), m.t.reshape(-1)
            ctx.check(st.max_qubits >= st.nqubit, "capacity", lambda: f"capacity {st.max_qubits} < {st.nqubit} after {hist}")
            if any(h[0] == "project" or h[0] == "add" and h[2] in (1, 2) for h in hist):
                # named states and projections fix the state up to phase
                ctx.check(close_up_to_phase(a, e) and abs(np.linalg.norm(a) - np.linalg.norm(e)) < 1e-6 * max(1, math.sqrt(n2)), "wrong-state", lambda: f"state differs after {hist}")
                m.t = m.t * np.exp(1j * np.angle(np.vdot(e, a)))
                continue
        ctx.check(a.shape == e.shape and np.allclose(a, e, atol=1e-6 * max(1, math.sqrt(n2), n2 if dm else 0)), "wrong-state", lambda: f"state differs after {hist}")
    n2 = float(np.vdot(m.t, m.t).real)
    if not dm and m.n and 1e-6 < n2 < 1e6 and ctx.flag(1, 2):
        # the same amplitudes and probabilities, by name of the basis state
        for lsb in (False, True):
            kw = {"encoding": "LSB"} if lsb else ctx.pick([{}, {"encoding": "MSB"}])
            amp, prob = st.to_dict(**kw), st.to_prob_dict(**kw)
            for i, e in enumerate(m.t.reshape(-1)):
                key = format(i, f"0{m.n}b")
                key = key[::-1] if lsb else key
                ctx.check(abs(amp.get(key, 0) - e) < 1e-6 * max(1, math.sqrt(n2)) and abs(prob.get(key, 0) - abs(e) ** 2) < 1e-6 * max(1, n2), "wrong-readout",
                          lambda: f"to_dict({kw})[{key}] = {amp.get(key)}, to_prob_dict {prob.get(key)}, amplitude {e} after {hist}")
            ctx.check(len(amp) <= 2**m.n and set(amp) == set(prob), "wrong-readout", lambda: f"keys {sorted(amp)} and {sorted(prob)} after {hist}")
    if hist:
        ctx.nontrivial()
    ctx.desc = ("density matrix" if dm else "state vector", hist)
    ctx.log(dm, hist)
    ctx.step(len(hist))


def _unit(ctx):
    if ctx.flag(1, 2):
        return ctx.pick([(1.0, 0, 0), (0, 1.0, 0), (0, 0, 1.0), (-1.0, 0, 0), (0, -1.0, 0), (0, 0, -1.0)])
    r = np.random.default_rng(ctx.npseed()).normal(size=3)
    return tuple(r / np.linalg.norm(r))


# ------------------------------------------------------------------ tensor network

def tensornetwork(ctx):
    """Deterministic patterns with |+> inputs on the tensor-network backend."""
    k = ctx.draw(3)
    if k == 0:
        c = gen.circuit(ctx, max_width=3, max_depth=4, ccx=False, min_live=1)
        p = c.transpile().pattern
    else:
        og = gen.flow_open_graph(ctx, max_nodes=6, out_cliffords=True)
        try:
            p = og.to_pattern()
        except OpenGraphError:
            raise Discard from None
    if not p.output_nodes:
        raise Discard
    if ctx.draw(2):
        p.standardize()
    extra = ctx.draw(3)
    if extra:
        # an isolated measured node: its outcome may be biased or determined
        from dst.gx import CLIFFORDS, command
        q = max(p.nodes()) + 1
        p.add(command.N(q))
        twin = extra == 2 and ctx.flag(1, 2)
        if twin:
            # entangled twice with another node: isolated all the same
            p.add(command.N(q + 1))
            p.add(command.E((q, q + 1)))
        known = measured_nodes(p)
        for _ in range(ctx.draw(3)):
            g = ctx.draw(3)
            p.add(command.C(q, ctx.pick(CLIFFORDS)) if g == 0 and not twin else command.X(q, set(ctx.subset(known))) if g == 1 else command.Z(q, set(ctx.subset(known))))
        if twin:
            p.add(command.E((q + 1, q)))
            p.add(command.M(q + 1, gen.measurement(ctx)))
        p.add(command.M(q, gen.measurement(ctx)))
        if ctx.flag(1, 2):
            p.standardize()
    mn = measured_nodes(p)
    if len(mn) > 10:
        raise TooBig
    rep = pattern_repr(p)
    ctx.describe(rep)
    script = gen.outcomes(ctx, mn)
    prep = ctx.pick(["auto", "sequential", "parallel"])
    if prep == "parallel" and not p.is_standard():
        p.standardize()
    rep = pattern_repr(p)
    nin = len(p.input_nodes)
    v = gen._prod([ref.BASIC["PLUS"]] * nin)
    run, p0s, taken, order = reference(list(p), p.input_nodes, v, 0, forced(script))
    if not extra and any(abs(q - 0.5) > 1e-6 for q in p0s.values()):
        raise Discard
    note_p0(ctx, p0s)
    ctx.probe("tensornetwork")
    if mn:
        ctx.nontrivial()
    sel = ScriptSelector(script, eps=EPS)
    mm = DefaultMeasureMethod()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        st = p.simulate(ctx.pick(["tensornetwork", "mps"]), branch_selector=sel, measure_method=mm, rng=np.random.default_rng(0), graph_prep=prep)
    what = f"tensornetwork/{prep} outcomes {script}: {rep}"
    ctx.sched(prep, *[taken[m] for m in order])
    ctx.log(rep, prep, sorted(taken.items()))
    for m in mn:
        ctx.check(abs(sel.p0[m] - p0s[m]) < 1e-6, "probability", lambda: f"node {m} offered with probability of 0 = {sel.p0[m]:.8f}, Born rule {p0s[m]:.8f}: {what}")
    ctx.check(sel.order == order, "measurement-order", lambda: f"measured {sel.order}, expected {order}: {what}")
    ctx.check(dict(mm.results) == taken, "results-recorded", lambda: f"recorded {mm.results}, outcomes {taken}: {what}")
    t = run.tensor(p.output_nodes)
    a = np.array(st.to_statevector(), dtype=complex)
    ctx.check(close_up_to_phase(a, t), "wrong-state", lambda: f"state differs, fidelity {fidelity(a, t):.6f}: {what}")
    n = len(p.output_nodes)
    op = rand_op(ctx, 1)
    op = op + op.conj().T
    q = ctx.draw(n)
    e = float(np.real(np.vdot(t, ref.applyk(t, op, [q])) / np.vdot(t, t).real))
    got = st.expectation_value(op, [q])
    ctx.check(abs(got - e) < 1e-6 * max(1, abs(e)), "expectation", lambda: f"expectation {got}, expected {e}: {what}")
    b = ctx.draw(2**n)
    amp = abs(t.reshape(-1)[b]) ** 2 / np.vdot(t, t).real
    ctx.check(abs(st.basis_amplitude(b) - amp) < 1e-6, "amplitude", lambda: f"amplitude of {b}: {st.basis_amplitude(b)}, expected {amp}: {what}")


NAMES = {"plus": "PLUS", "minus": "MINUS", "zero": "ZERO", "one": "ONE", "iplus": "PLUS_I", "iminus": "MINUS_I"}


def tn_ops(ctx):
    """Histories of operations applied directly to a tensor network, read out in every way it offers."""
    hist = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            _tn_ops(ctx, hist)
        finally:
            ctx.describe(f"MBQCTensorNet {hist}")


def _tn_ops(ctx, hist):
    n = ctx.int(1, 4)
    nodes = ctx.shuffle(range(12))[:n]
    m = Model()
    scaled = True  # whether the norm of the network is known
    kept = []
    sel = ScriptSelector({v: ctx.draw(2) for v in nodes}, eps=EPS)
    if ctx.flag(1, 3):
        edges = [(a, b) for i, a in enumerate(nodes) for b in nodes[i + 1:] if ctx.flag(1, 2)]
        edges = [e if ctx.flag(1, 2) else e[::-1] for e in edges]
        tn = MBQCTensorNet(sel, graph_nodes=list(nodes), graph_edges=edges, default_output_nodes=list(nodes))
        scaled = False
        for _ in nodes:
            m.add(ref.BASIC["PLUS"], 1)
        for a, b in edges:
            m.apply(np.diag([1, 1, 1, -1]), [nodes.index(a), nodes.index(b)])
        hist.append(("graph", nodes, edges))
    else:
        tn = MBQCTensorNet(sel, default_output_nodes=list(nodes))
        how = ctx.draw(3)
        states = []
        for _ in nodes:
            k = ctx.draw(7)
            states.append(tuple(gen.random_unit_vector(ctx, 2)) if k == 6 else sorted(NAMES)[k])
        if how == 2:
            states = [states[0]] * n
        if how == 0:
            for v, st in zip(nodes, states):
                tn.add_qubit(v, np.array(st) if isinstance(st, tuple) else st)
        else:
            arg = [np.array(st) if isinstance(st, tuple) else st for st in states]
            tn.add_qubits(list(nodes), arg if how == 1 else arg[0] if isinstance(arg[0], str) else arg)
        for st in states:
            m.add(np.array(st) if isinstance(st, tuple) else ref.BASIC[NAMES[st]], 1)
        hist.append(("add", how, nodes, states))
    live = list(nodes)
    for _ in range(ctx.int(1, 6)):
        ctx.step()
        k = ctx.weighted([("single", 3), ("evolve", 4), ("measure", 2), ("expect", 4), ("coefficient", 2), ("norm", 1), ("copy", 1)])
        t = m.t
        n2 = float(np.vdot(t, t).real)
        if not 1e-6 < n2 < 1e6:
            break
        if k == "single":
            v = ctx.pick(live)
            op = rand_op(ctx, 1)
            tn.evolve_single(v, op)
            m.apply(op, [live.index(v)])
            hist.append(("evolve_single", v))
        elif k == "evolve":
            qs = ctx.shuffle(range(len(live)))[: ctx.int(1, min(3, len(live)))]
            op = rand_op(ctx, len(qs))
            dec = ctx.flag(1, 2)
            tn.default_output_nodes = list(live)
            tn.evolve(op if ctx.flag(1, 2) else op.reshape((2,) * (2 * len(qs))), list(qs), decompose=dec)
            m.apply(op, qs)
            hist.append(("evolve", qs, dec))
        elif k == "measure":
            if len(live) == 1:
                continue
            v = ctx.pick(live)
            basis = ctx.pick(["X", "Y", "Z", "vec"])
            forced_outcome = ctx.draw(3)
            if basis == "vec":
                vec = gen.random_unit_vector(ctx, 2)
                want, kw = 0, {}
            else:
                want = forced_outcome if forced_outcome < 2 else sel.outcomes[v]
                kw = {"outcome": forced_outcome} if forced_outcome < 2 else {}
                vec = ref.BASIC[{"X": ("PLUS", "MINUS"), "Y": ("PLUS_I", "MINUS_I"), "Z": ("ZERO", "ONE")}[basis][want]]
            nt = np.tensordot(np.conj(vec), t, axes=(0, live.index(v)))
            if np.vdot(nt, nt).real < 1e-6 * n2:
                continue
            got = tn.measure_single(v, vec if basis == "vec" else basis, **kw)
            ctx.check(got == want, "outcome", lambda: f"measure_single({v}, {basis}, {kw}) gave {got}, expected {want} after {hist}")
            ctx.sched(v, basis, int(got))
            m.t, m.n = nt, m.n - 1
            live.remove(v)
            tn.default_output_nodes = list(live)
            hist.append(("measure", v, basis, want))
        elif k == "expect":
            outs = ctx.shuffle(live) if ctx.flag(1, 2) else list(live)
            qs = ctx.shuffle(range(len(outs)))[: ctx.int(1, min(3, len(outs)))]
            op = rand_op(ctx, len(qs))
            op = op + op.conj().T
            pos = [live.index(outs[q]) for q in qs]
            exp = float(np.vdot(t, ref.applyk(t, op, pos)).real) / n2
            if ctx.flag(1, 2):
                tn.default_output_nodes = list(outs)
                got = tn.expectation_value(op, list(qs))
            else:
                got = tn.expectation_value(op, tuple(qs), output_node_indices=iter(outs) if ctx.flag(1, 3) else list(outs))
            ctx.check(abs(got - exp) < 1e-6 * max(1, abs(exp)), "expectation", lambda: f"expectation {got}, expected {exp} of qubits {qs} among {outs} after {hist}")
            hist.append(("expect", outs, qs))
        elif k == "coefficient":
            outs = ctx.shuffle(live)
            b = ctx.draw(2 ** len(outs))
            exp = abs(np.transpose(t, [live.index(v) for v in outs]).reshape(-1)[b])
            norm = not scaled or ctx.flag(1, 2)
            basis = format(b, f"0{len(outs)}b") if ctx.flag(1, 2) else b
            tn.default_output_nodes = list(outs)
            got = abs(tn.basis_coefficient(basis, normalize=norm) if ctx.flag(1, 2) else tn.basis_coefficient(basis, normalize=norm, indices=list(outs)))
            if norm:
                exp /= math.sqrt(n2)
            ctx.check(abs(got - exp) < 1e-6 * max(1, math.sqrt(n2)), "coefficient", lambda: f"coefficient {got} of {basis} on {outs}, expected {exp} after {hist}")
            got = tn.basis_amplitude(basis)
            exp = abs(np.transpose(t, [live.index(v) for v in outs]).reshape(-1)[b]) ** 2 / n2
            ctx.check(abs(got - exp) < 1e-6, "amplitude", lambda: f"amplitude {got} of {basis} on {outs}, expected {exp} after {hist}")
            hist.append(("coefficient", outs, b))
        elif k == "norm":
            if not scaled:
                continue
            got = tn.norm()
            ctx.check(abs(got - math.sqrt(n2)) < 1e-6 * max(1, math.sqrt(n2)), "norm", lambda: f"norm {got}, expected {math.sqrt(n2)} after {hist}")
            hist.append("norm")
        else:
            kept.append((tn, list(live), t, list(hist)))
            tn = tn.copy(deep=ctx.flag(1, 2))
            hist.append("copy")
    ctx.log(str(hist))
    ctx.nontrivial()
    ctx.probe("tn-ops")
    for old, nodes_, t, h in kept:
        a = np.array(old.to_statevector(list(nodes_)), dtype=complex)
        ctx.check(close_up_to_phase(a, t), "copy-not-independent", lambda: f"the network copied after {h} changed while its copy went through {hist}")
    if np.vdot(m.t, m.t).real < 1e-6:
        return
    outs = ctx.shuffle(live)
    a = np.array(tn.to_statevector(list(outs)), dtype=complex)
    e = np.transpose(m.t, [live.index(v) for v in outs])
    ctx.check(a.shape == (2 ** len(outs),) and close_up_to_phase(a, e), "wrong-state", lambda: f"state on {outs} differs after {hist}")
    tn.default_output_nodes = list(live)
    a = np.array(tn.flatten(), dtype=complex)
    ctx.check(close_up_to_phase(a, m.t), "wrong-state", lambda: f"state on {live} differs after {hist}")


def malformed(ctx):
    """Amplitudes that are not a state of the declared qubits are refused by every dense state, not truncated or rescaled."""
    n = ctx.int(1, 3)
    v = gen.random_unit_vector(ctx, 2**n)
    k = ctx.draw(4)
    nq = n if ctx.draw(2) else None
    if k == 0:  # too many or too few amplitudes
        m = ctx.int(1, 2**n - 1)
        v = np.concatenate([v, np.zeros(m)]) if ctx.draw(2) else gen.random_unit_vector(ctx, 2**n + m)
        if len(v) & (len(v) - 1) == 0:
            nq = n
    elif k == 1:
        v = v * ctx.pick([2.0, 0.5, 1.01])
    elif k == 2:
        nq = n + ctx.pick([1, -1, 2])
    else:
        v = v[: ctx.int(1, 2**n - 1)]
        if len(v) & (len(v) - 1) == 0:
            nq = n
        v = v / max(np.linalg.norm(v), 1e-3)
    data = v if ctx.draw(2) else list(map(complex, v))
    cls = ctx.pick([Statevector, DensityMatrix])
    how = ctx.draw(3)
    ctx.describe(f"{cls.__name__}({len(v)} amplitudes of norm {np.linalg.norm(v)}, nqubit={nq}) via {how}")
    ctx.fault("malformed-state")
    ctx.nontrivial()
    try:
        if how == 0 or nq is None:
            st = cls(data, nqubit=nq)
        else:
            st = cls(nqubit=0)
            st.add_nodes(nq, data)
    except (ValueError, AssertionError) as e:
        ctx.log("refused", type(e).__name__)
        return
    ctx.check(False, "malformed-accepted", lambda: f"accepted as a state of {st.nqubit} qubits: {ctx.desc}")


SCENARIOS = [("malformed", malformed, 5), ("pattern_run", pattern_run, 100), ("wide", wide, 1), ("impossible", impossible, 10), ("sampling", sampling, 40), ("frequencies", frequencies, 10), ("threshold", threshold, 2), ("dense_ops", dense_ops, 50), ("tensornetwork", tensornetwork, 20), ("tn_ops", tn_ops, 15)]
