"""C20: random objects are valid whatever the random source delivers."""

from __future__ import annotations

import numpy as np

from dst import ref
from dst.core import close_up_to_phase
from dst.gx import CLIFFORDS  # noqa: F401
from dst.seams import TOP, scripted_rng

from graphix import random_objects as ro
from graphix.branch_selector import ConstBranchSelector
from graphix.instruction import InstructionKind
from graphix.parameter import Placeholder
from graphix.sim.density_matrix import DensityMatrix
from graphix.sim.statevec import Statevector

LEVEL = "exploration"
QUICK_RUNS = 50000
THOROUGH_RUNS = 1500000
REAL = ["graphix.random_objects", "graphix.channels", "graphix.transpiler.Circuit", "graphix.sim.density_matrix", "graphix.simulator (part of the runs)"]
STUB = ["the random source: every draw decided by the simulation, boundary draws (both ends of the unit interval) injected at drawn positions"]
RULE = ("every generator with drawn sizes, ranks, options and containers; the random source is a seeded stream with boundary draws injected; "
        "non-trivial = size above one; each object is also used (channel on a state, state in a simulation, circuit against its own matrix)")
ASSUMPTIONS = ["documented domain: 1 <= rank <= dimension (density matrices), 1 <= rank <= dimension**2 (channels), at least 2 qubits (3 with CCX) for random circuits"]
REQUIRED_PROBES = ("boundary-draw", "repeat", "herm", "unit", "dm", "gauss", "channel", "pauli-channel", "state", "circuit", "gate", "one-shot-pairs")


def source(ctx, boundary=True):
    """A seeded stream in which some draws take boundary values."""
    stream = np.random.default_rng(ctx.npseed())
    script = {}
    for _ in range(ctx.draw(4) if boundary else 0):
        script[ctx.draw(12)] = ctx.pick([0, TOP, 1, TOP - 1])
    if script.get(0) is not None and ctx.draw(2):
        script[1] = script[0]
    state = {"i": 0, "hit": False}

    def src():
        i = state["i"]
        state["i"] += 1
        v = int(stream.integers(1 << 53))
        if i in script:
            state["hit"] = True
            return script[i]
        return v

    rng, bits = scripted_rng(src)
    return rng, bits, state, f"boundary draws {script}"


def finite(ctx, a, shape, what):
    ctx.check(isinstance(a, np.ndarray) and a.shape == shape, "shape", lambda: f"{what}: shape {getattr(a, 'shape', None)} instead of {shape}")
    ctx.check(bool(np.all(np.isfinite(a))), "not-finite", lambda: f"{what}: {a}")


def s_matrix(ctx):
    rng, bits, st, how = source(ctx)
    kind = ctx.pick(["herm", "unit", "dm", "gauss", "state"])
    n = ctx.int(1, 8)
    what = f"{kind}({n}) with {how}"
    sz = ctx.pick([n, np.int64(n)])
    if kind == "herm":
        a = ro.rand_herm(sz, rng)
        finite(ctx, a, (n, n), what)
        ctx.check(np.allclose(a, a.conj().T, atol=1e-12), "hermitian", lambda: f"{what}: {a}")
    elif kind == "unit":
        a = ro.rand_unit(sz, rng)
        finite(ctx, a, (n, n), what)
        ctx.check(np.allclose(a @ a.conj().T, np.eye(n), atol=1e-8), "unitary", lambda: f"{what}: {a}")
    elif kind == "dm":
        rank = ctx.pick([None, 1, ctx.int(1, n)])
        what = f"rand_dm({n}, rank={rank}) with {how}"
        a = ro.rand_dm(sz, rng, rank) if rank is not None or ctx.draw(2) else ro.rand_dm(sz, rng=rng)
        finite(ctx, a, (n, n), what)
        ev = np.linalg.eigvalsh((a + a.conj().T) / 2)
        ctx.check(np.allclose(a, a.conj().T, atol=1e-9) and abs(np.trace(a) - 1) < 1e-8 and ev.min() > -1e-9, "density", lambda: f"{what}: eigenvalues {ev}, trace {np.trace(a)}")
        ctx.check(int((ev > 1e-9).sum()) <= (rank or n), "rank", lambda: f"{what}: eigenvalues {ev}")
        if not st["hit"]:
            ctx.check(int((ev > 1e-12).sum()) == (rank or n), "rank", lambda: f"{what}: eigenvalues {ev}")
        if n in (1, 2, 4, 8):
            got = DensityMatrix(a)
            ctx.check(np.allclose(np.array(got.rho), a, atol=1e-9), "density-use", lambda: f"{what}: DensityMatrix() holds {got.rho}")
    elif kind == "gauss":
        sig = ctx.pick([None, "ginibre", 1.0, 0.25])
        seed = ctx.npseed()
        a = ro.rand_gauss_cpx_mat(sz, np.random.default_rng(seed), sig)
        one = ro.rand_gauss_cpx_mat(n, np.random.default_rng(seed), 1.0)
        scale = {None: 2**-0.5, "ginibre": (2 * n) ** -0.5}.get(sig, sig)
        finite(ctx, a, (n, n), what)
        ctx.check(np.allclose(a, scale * one, atol=1e-9), "scale", lambda: f"{what} sig={sig}: not the unit matrix scaled by {scale}")
        if n == 8:
            m = float(np.mean(np.abs(one) ** 2))
            ctx.check(0.5 < m < 6 and np.abs(one.imag).max() > 0 and np.abs(one.real).max() > 0, "gauss", lambda: f"{what}: mean square modulus {m}")
    else:
        q = ctx.draw(6)
        n = q + 1
        a = ro.rand_state_vector(q, rng)
        what = f"rand_state_vector({q}) with {how}"
        finite(ctx, a, (2**q,), what)
        ctx.check(abs(np.linalg.norm(a) - 1) < 1e-9 and a.dtype == np.complex128, "norm", lambda: f"{what}: {a}")
        sv = Statevector(a, q) if q else None
        if sv is not None:
            ctx.check(close_up_to_phase(np.array(sv.psi).ravel(), a), "state-use", lambda: f"{what}: Statevector() holds another state")
    ctx.probe(kind)
    done(ctx, st, n > 1, what)


def done(ctx, st, nontrivial, what):
    if st["hit"]:
        ctx.probe("boundary-draw")
        ctx.fault("boundary-draw")
    if nontrivial:
        ctx.nontrivial()
    ctx.describe(what)
    ctx.step()
    ctx.sched(what)


def s_channel(ctx):
    q = ctx.int(1, 2) if ctx.draw(4) else 0
    # a 1x1 Gaussian matrix that is exactly zero cannot be normalised: no boundary draws there
    rng, bits, st, how = source(ctx, boundary=q > 0)
    dim = 2**q
    rank = ctx.pick([None, 1, ctx.int(1, dim**2), dim**2])
    pauli = q > 0 and ctx.flag(1, 2)
    what = f"{'rand_pauli_channel_kraus' if pauli else 'rand_channel_kraus'}({dim}, rank={rank}) with {how}"
    if pauli:
        ch = ro.rand_pauli_channel_kraus(dim, rng, rank)
        ctx.probe("pauli-channel")
    else:
        sig = ctx.pick([None, "ginibre", 0.5])
        ch = ro.rand_channel_kraus(dim, rng, rank, sig)
        ctx.probe("channel")
    kd = list(ch)
    ctx.check(len(kd) == (rank or dim**2), "kraus-count", lambda: f"{what}: {len(kd)} operators")
    ops = [k.coef * k.operator for k in kd]
    for o in ops:
        finite(ctx, np.asarray(o), (dim, dim), what)
    tot = sum(o.conj().T @ o for o in ops)
    ctx.check(np.allclose(tot, np.eye(dim), atol=1e-7), "trace-preserving", lambda: f"{what}: sum K^dag K = {tot}")
    ctx.check(ch.nqubit == q, "nqubit", lambda: f"{what}: nqubit {ch.nqubit}")
    if pauli:
        paulis = [np.eye(1)]
        for _ in range(q):
            paulis = [np.kron(a, b) for a in paulis for b in (ref.I2, ref.PX, ref.PY, ref.PZ)]
        seen = set()
        for o in ops:
            w = [abs(np.trace(p.conj().T @ o)) / dim for p in paulis]
            i = int(np.argmax(w))
            ctx.check(sum(v > 1e-12 for v in w) <= 1, "not-pauli", lambda: f"{what}: {o} is not a multiple of a Pauli")
            ctx.check(w[i] < 1e-12 or i not in seen, "pauli-repeated", lambda: f"{what}: the same Pauli twice")
            seen.add(i)
    else:
        m = np.array([o.ravel() for o in ops])
        sv = np.linalg.svd(m, compute_uv=False)
        if not st["hit"]:
            ctx.check(int((sv > 1e-7).sum()) == (rank or dim**2), "choi-rank", lambda: f"{what}: singular values {sv}")
    if q:
        r = ro.rand_dm(dim, np.random.default_rng(ctx.npseed()))
        dm = DensityMatrix(r)
        dm.apply_channel(ch, list(range(q)))
        want = sum(o @ r @ o.conj().T for o in ops)
        ctx.check(np.allclose(np.array(dm.rho), want, atol=1e-7), "channel-use", lambda: f"{what}: applying it gives another state than its Kraus operators")
    done(ctx, st, dim > 1, what)


ONE = {"RX", "RY", "RZ", "H", "S", "X", "Y", "Z", "J", "I"}


def qubits(i):
    q = []
    if hasattr(i, "controls"):
        q += list(i.controls)
    elif hasattr(i, "control"):
        q.append(i.control)
    if hasattr(i, "targets"):
        q += list(i.targets)
    else:
        q.append(i.target)
    return q


def s_circuit(ctx):
    rng, bits, st, how = source(ctx)
    opt = {k: ctx.flag(1, 2) for k in ("use_j", "use_cz", "use_rzz", "use_ccx")}
    n = ctx.int(3 if opt["use_ccx"] else 2, 4)
    depth = ctx.draw(4)
    kw = {k: v for k, v in opt.items() if v != (k in ("use_j", "use_cz")) or ctx.draw(2)}
    params = [Placeholder(f"p{i}") for i in range(ctx.draw(3))]
    if params:
        kw["parameters"] = ctx.pick([list, tuple])(params)
    what = f"rand_circuit({n}, {depth}, {kw}) with {how}"
    c = ro.rand_circuit(n, depth, rng, **kw)
    ins = list(c.instruction)
    ctx.check(c.width == n, "width", lambda: f"{what}: width {c.width}")
    singles = [0] * n
    for i in ins:
        k = i.kind.name
        qs = qubits(i)
        ctx.check(all(0 <= x < n for x in qs) and len(set(qs)) == len(qs), "targets", lambda: f"{what}: {i}")
        ctx.check(k in ONE | {"CNOT", "CZ", "RZZ", "CCX", "SWAP"}, "kind", lambda: f"{what}: {i}")
        for o, g in (("use_j", "J"), ("use_cz", "CZ"), ("use_rzz", "RZZ"), ("use_ccx", "CCX")):
            ctx.check(opt[o] or k != g, "disabled-gate", lambda: f"{what}: {i} although {o} is false")
        if k in ONE:
            singles[qs[0]] += 1
        a = getattr(i, "angle", None)
        if a is not None and not isinstance(a, (int, float)):
            ctx.check(a in params, "parameter", lambda: f"{what}: {i} uses a parameter that was not given")
    ctx.check(singles == [depth] * n, "layers", lambda: f"{what}: single-qubit gates per qubit {singles}")
    kinds = [i.kind.name for i in ins]
    for o, g in (("use_cz", "CZ"), ("use_rzz", "RZZ"), ("use_ccx", "CCX")):
        if opt[o] and depth:
            ctx.check(g in kinds, "enabled-gate", lambda: f"{what}: no {g}")
    ctx.check("CNOT" in kinds or not depth, "enabled-gate", lambda: f"{what}: no CNOT")
    ctx.check(c.is_parameterized() == any(not isinstance(getattr(i, "angle", 0), (int, float)) for i in ins), "parameterized", lambda: f"{what}")
    use(ctx, c, n, what, params)
    ctx.probe("circuit")
    done(ctx, st, depth > 0, what)


def use(ctx, c, n, what, params=()):
    """The circuit is usable: it runs, and its compiled pattern runs to the same state."""
    if c.is_parameterized():
        return
    r = c.simulate("statevector", branch_selector=ConstBranchSelector(0)).state
    v = np.array(r.psi).ravel()
    ctx.check(abs(np.linalg.norm(v) - 1) < 1e-8, "circuit-use", lambda: f"{what}: norm {np.linalg.norm(v)}")
    if len(list(c.instruction)) > 24 or not ctx.flag(1, 4):
        return
    p = c.transpile().pattern
    p.minimize_space()
    if p.max_space() > 10:
        return
    w = np.array(p.simulate(branch_selector=ConstBranchSelector(ctx.draw(2))).psi).ravel()
    ctx.check(close_up_to_phase(v, w, 1e-6), "circuit-use", lambda: f"{what}: its pattern gives another state")
    ctx.probe("pattern-run")


def s_gate(ctx):
    rng, bits, st, how = source(ctx)
    n = ctx.int(1, 4)
    depth = ctx.int(1, 4)
    pairs = []
    for _ in range(ctx.draw(4) if n > 1 else 0):
        a = ctx.draw(n)
        pairs.append((a, (a + 1 + ctx.draw(n - 1)) % n))
    rzz = ctx.flag(1, 2)
    box = ctx.draw(4)
    arg = [pairs, tuple(pairs), iter(pairs), (x for x in pairs)][box]
    if box > 1:
        ctx.probe("one-shot-pairs")
    what = f"rand_gate({n}, {depth}, {'one-shot ' if box > 1 else ''}{pairs}, use_rzz={rzz}) with {how}"
    c = ro.rand_gate(n, depth, arg, rng, use_rzz=rzz)
    ins = list(c.instruction)
    ctx.check(c.width == n, "width", lambda: f"{what}: width {c.width}")
    two = [tuple(qubits(i)) for i in ins if i.kind.name in ("CNOT", "RZZ")]
    ctx.check([tuple(sorted(t)) for t in two] == [tuple(sorted(t)) for t in pairs * depth], "entanglers", lambda: f"{what}: entangles {two}")
    if not rzz:
        ctx.check(all(i.kind != InstructionKind.RZZ for i in ins) and two == pairs * depth, "entanglers", lambda: f"{what}: {ins}")
    for i in ins:
        if i.kind.name not in ("CNOT", "RZZ"):
            ctx.check(i.kind.name in ("RX", "RZ"), "kind", lambda: f"{what}: {i}")
    seq = [[i.kind.name for i in ins if i.kind.name in ("RX", "RZ") and i.target == v] for v in range(n)]
    ctx.check(all(s == ["RX"] + ["RX", "RZ"] * (depth - 1) + ["RZ"] for s in seq), "layers", lambda: f"{what}: {seq}")
    use(ctx, c, n, what)
    ctx.probe("gate")
    done(ctx, st, n > 1, what)


def s_repeat(ctx):
    """The object is a function of the source, and its draws are fresh: consecutive objects differ."""
    seed = ctx.npseed()
    dim = ctx.pick([2, 4])
    k = ctx.draw(10)
    opt = {"use_rzz": ctx.draw(2) == 1, "use_ccx": ctx.draw(2) == 1}
    mks = [lambda r: ro.rand_herm(dim, r), lambda r: ro.rand_unit(dim, r), lambda r: ro.rand_dm(dim, r), lambda r: ro.rand_gauss_cpx_mat(dim, r),
          lambda r: np.array([x.coef * x.operator for x in ro.rand_channel_kraus(dim, r)]),
          lambda r: np.array([x.coef * x.operator for x in ro.rand_pauli_channel_kraus(dim, r)]), lambda r: ro.rand_state_vector(dim, r),
          lambda r: [str(i) for i in ro.rand_gate(dim, 3, [(0, 1)], r).instruction],
           lambda r: [str(i) for i in ro.rand_circuit(dim + 2, 4, r, **opt).instruction],
           lambda r: [str(i) for i in ro.rand_circuit(4, 4, r, parameters=[Placeholder("a")], **opt).instruction]]
    mk = mks[k]

    def same(a, b):
        return a == b if isinstance(a, list) else a.shape == b.shape and bool(np.array_equal(a, b))

    r1, r2 = np.random.default_rng(seed), np.random.default_rng(seed)
    a1, b1 = mk(r1), mk(r1)
    other = np.random.default_rng(seed + 1)
    for _ in range(ctx.draw(3)):  # what is drawn in between from another source does not matter
        mks[ctx.draw(10)](other)
        ctx.fault("interleaved-draw")
    a2, b2 = mk(r2), mk(r2)
    what = f"generator {k} of dimension {dim}, seed {seed}"
    ctx.check(same(a1, a2) and same(b1, b2), "not-a-function", lambda: f"{what}: two equal sources give different objects")
    ctx.check(not same(a1, b1), "source-not-used", lambda: f"{what}: two consecutive objects are equal")
    ctx.check(r1.bit_generator.state == r2.bit_generator.state, "not-a-function", lambda: f"{what}: two equal sources are left in different states")
    ctx.probe("repeat")
    ctx.nontrivial()
    ctx.describe(what)
    ctx.sched(what)


SCENARIOS = [("matrix", s_matrix, 4), ("channel", s_channel, 3), ("circuit", s_circuit, 2), ("gate", s_gate, 2), ("repeat", s_repeat, 1)]
