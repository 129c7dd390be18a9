"""C10: parallel kernels give the mathematically specified result under every schedule."""

from __future__ import annotations

import math
import os

import numpy as np

from dst import gen, ref
from dst.core import Ctx, Violation
from dst.gx import CLIFFORDS, BasicStates, Statevector
from dst.parsim import Kernels, OutOfBounds, Sim

import numba
import graphix._linalg as _linalg
import graphix.sim.statevec as _statevec
from graphix._linalg import MatGF2, solve_f2_linear_system
from graphix.ops import Ops
from graphix.sim.data import Data  # noqa: F401

LEVEL = "exploration"
QUICK_RUNS = 60000
THOROUGH_RUNS = 2000000
REAL = ["graphix.sim.statevec.Statevector and the Python source of every njit kernel of graphix.sim.statevec and graphix._linalg (simulated scenarios)",
        "the compiled kernels with numba's thread pool, 1..4 threads (compiled scenarios)"]
STUB = ["numba.prange in the simulated scenarios: iterations are dealt to simulated threads, which are preempted at array accesses",
        "the size threshold of the parallel branch in the simulated scenarios (lowered so that small states take it)"]
RULE = ("simulated runs: histories of state-vector or binary-matrix operations on the kernels' own source, every parallel loop dealt to 1..4 simulated "
        "threads in a seeded partition and switched at seeded array accesses, preferring cells that a dry pass found to be shared between iterations. "
        "compiled runs: the compiled kernels, sizes on both sides of the parallel threshold (up to 17 qubits, 90x90 matrices), drawn thread counts and chunk "
        "sizes. Every result is compared with a dense numpy or bit-mask reference. Non-trivial = a parallel loop ran on at least two threads")
ASSUMPTIONS = ["numba's documented parallel-loop semantics (private variables, reductions by augmented assignment, nested prange serial)",
               "element accesses are atomic; memory is sequentially consistent in the simulated scenarios",
               "compiled runs with several threads are real executions: their thread interleaving is not controlled, only their partition is"]
REQUIRED_PROBES = ("sim:loops", "sim:threads>1", "sim:switched", "big:parallel", "small:serial", "threads:1", "threads:4", "chunked", "op:evolve", "op:cz",
                   "op:expect", "op:project", "op:swap", "op:add", "op:tensor", "op:refuse", "gf:mul", "gf:rref", "gf:ref", "gf:rank", "gf:rinv", "gf:null", "gf:solve")

KER = None


def setup(tier):
    global KER
    if KER is None and not os.environ.get("NUMBA_DISABLE_JIT"):
        KER = Kernels([_statevec, _linalg])


def reset():
    if KER is not None:
        KER.restore()


def close(a, b, tol=1e-7):
    return bool(np.allclose(a, b, rtol=0, atol=tol))


# ------------------------------------------------------------------ state vectors

def draw_op(ctx):
    """A 2x2 matrix, not necessarily unitary."""
    k = ctx.draw(5)
    if k == 0:
        return np.array(CLIFFORDS[ctx.draw(24)].matrix, dtype=complex), True
    if k == 1:
        return np.asarray(ctx.pick([Ops.X, Ops.Y, Ops.Z, Ops.H, Ops.S, Ops.I])), True
    if k == 2:
        return ref.rz(gen.angle(ctx)) @ ref.rx(gen.angle(ctx)), True
    if k == 3:  # Hermitian
        r = np.random.default_rng(ctx.npseed())
        m = r.normal(size=(2, 2)) + 1j * r.normal(size=(2, 2))
        return (m + m.conj().T) / 2, False
    r = np.random.default_rng(ctx.npseed())
    return r.normal(size=(2, 2)) + 1j * r.normal(size=(2, 2)), False


def draw_projector(ctx):
    k = ctx.draw(4)
    if k == 0:
        v = np.array([1, 0], dtype=complex) if ctx.draw(2) == 0 else np.array([0, 1], dtype=complex)
    elif k == 1:
        v = np.array([1, ctx.pick([1, -1, 1j, -1j])]) / math.sqrt(2)
    elif k == 2:
        v = ref.eigvec(ref.bloch_vector(ctx.pick(["XY", "XZ", "YZ"]), gen.angle(ctx)), ctx.draw(2))
    else:  # close to |1>: branch 0 is small but not null
        e = ctx.pick([1e-2, 1e-3, 1e-4])
        v = np.array([e, math.sqrt(1 - e * e)], dtype=complex)
    return np.asarray(v, dtype=complex).reshape(2)


def same_ray(a, b, tol=1e-6):
    a, b = np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)
    return a.shape == b.shape and abs(abs(np.vdot(a, b)) - 1) < tol and abs(np.linalg.norm(a) - 1) < tol and abs(np.linalg.norm(b) - 1) < tol


def state_history(ctx, n, nops, max_n, dirty):
    """A history of kernel operations on one Statevector, each checked against the dense reference."""
    psi = gen.random_unit_vector(ctx, 2**n)
    cap = n + ctx.draw(3) if n + 2 <= max_n else n
    sv = Statevector(psi.copy(), nqubit=n, max_qubits=cap)
    psi = psi.reshape((2,) * n)
    ctx.log("n", n, "cap", cap)
    trace = [f"Statevector({n} qubits, capacity {cap})"]
    ctx.describe(trace)
    for _ in range(nops):
        n = psi.ndim
        if dirty and isinstance(getattr(sv, "_psi", None), np.ndarray) and len(sv._psi) > 2**n:
            # a fault: whatever the allocator left in the spare part of the buffer
            sv._psi[2**n:] = ctx.pick([np.nan, 1e300, 7.0 - 3.0j])
            ctx.fault("dirty-spare-memory")
        ops = []
        if n >= 1:
            ops += [("evolve", 4), ("expect", 2)]
        if n >= 2:
            ops += [("cz", 4), ("swap", 1), ("project", 2)]
        if n < max_n:
            ops += [("add", 1)]
        if n + 1 < max_n:
            ops += [("tensor", 1)]
        ops += [("refuse", 1)]
        op = ctx.weighted(ops)
        ctx.probe("op:" + op)
        ctx.step(1)
        if op == "evolve":
            m, unitary = draw_op(ctx)
            q = ctx.draw(n)
            if not unitary:
                w = ref.apply1(psi, m, q)
                nrm = np.linalg.norm(w)
                if nrm < 1e-3:
                    continue
                m = m / nrm
            trace.append(f"evolve_single({m.tolist()}, {q})")
            m0 = m.copy()
            sv.evolve_single(m, q)
            ctx.check(np.array_equal(m, m0), "operator-modified", lambda: f"the operator given to evolve_single was modified\n{trace}")
            psi = ref.apply1(psi, m0, q)
        elif op == "cz":
            a = ctx.draw(n)
            b = ctx.draw(n - 1)
            b += b >= a
            trace.append(f"entangle(({a}, {b}))")
            sv.entangle((a, b))
            psi = ref.apply_cz(psi, a, b)
        elif op == "swap":
            a, b = ctx.draw(n), ctx.draw(n)
            trace.append(f"swap(({a}, {b}))")
            sv.swap((a, b))
            psi = np.swapaxes(psi, a, b)
        elif op == "expect":
            m, _ = draw_op(ctx)
            q = ctx.draw(n)
            trace.append(f"expectation_single({m.tolist()}, {q})")
            got = sv.expectation_single(m, q)
            want = np.vdot(psi, ref.apply1(psi, m, q))
            ctx.check(abs(got - want) < 1e-7, "wrong-expectation", lambda: f"expectation_single gave {got}, reference {want}\n{trace}")
        elif op == "project":
            v = draw_projector(ctx)
            q = ctx.draw(n)
            w = np.tensordot(v.conj(), psi, axes=(0, q))
            p = float(np.vdot(w, w).real)
            # both halves of the projected state must be well away from the documented numerical-zero threshold
            if p < 1e-3 or 0 < p * abs(v[0]) ** 2 < 1e-9:
                continue
            m = np.outer(v, v.conj())
            trace.append(f"project_qubit(projector on {v.tolist()}, {q})")
            sv.project_qubit(m, q)
            psi = w / math.sqrt(p)
            got = np.array(sv.psi)
            ctx.check(got.shape == (2 ** (n - 1),) and same_ray(got, psi), "wrong-projection",
                      lambda: f"project_qubit left another state (overlap {abs(np.vdot(got, psi.reshape(-1))) if got.size == psi.size else None})\n{trace}")
            psi = got.reshape((2,) * (n - 1))  # adopt the phase
        elif op == "refuse":
            bad = ctx.pick([n, -1, n + 1, -n - 1])
            call = ctx.pick(["evolve_single", "expectation_single", "entangle", "project_qubit", "swap"])
            other = ctx.draw(n) if n else 0
            trace.append(f"{call} on qubit {bad}")
            ctx.fault("out-of-range-qubit")
            try:
                if call in ("entangle", "swap"):
                    getattr(sv, call)((bad, other) if ctx.draw(2) else (other, bad))
                else:
                    getattr(sv, call)(np.array([[1, 0], [0, 0]], dtype=complex), bad)
                raise Violation("out-of-range-accepted", f"{call} accepted qubit {bad} of {n}\n{trace}")
            except IndexError:
                pass
        elif op == "add":
            k = ctx.draw(3)
            if k == 0:
                sv.add_nodes(1, BasicStates.PLUS)
                vec = ref.BASIC["PLUS"]
                trace.append("add_nodes(1, PLUS)")
            else:
                s = gen.planar_state(ctx)
                sv.add_nodes(1, s)
                vec = ref.state_vec(s)
                trace.append(f"add_nodes(1, {s})")
            psi = np.multiply.outer(psi, vec)
            got = np.array(sv.psi)
            ctx.check(got.shape == (psi.size,) and same_ray(got, psi), "wrong-state", lambda: f"after {trace[-1]}: another state\n{trace}")
            psi = got.reshape(psi.shape)  # adopt the phase convention of the added state
        else:
            k = 1 + ctx.draw(min(3, max_n - n))
            v = gen.random_unit_vector(ctx, 2**k)
            other = Statevector(v.copy(), nqubit=k, max_qubits=k + ctx.draw(2))
            trace.append(f"tensor({k} qubits)")
            sv.tensor(other)
            ctx.check(np.array_equal(other.psi, v), "operand-modified", lambda: f"tensor changed its argument\n{trace}")
            psi = np.multiply.outer(psi, v.reshape((2,) * k))
        got = np.array(sv.psi)
        ctx.check(sv.nqubit == psi.ndim and got.shape == (psi.size,), "wrong-size", lambda: f"{sv.nqubit} qubits, {got.shape} amplitudes, expected {psi.ndim}\n{trace}")
        ctx.check(close(got, psi.reshape(-1)), "wrong-state",
                  lambda: f"after {trace[-1]}: amplitudes differ by up to {np.max(np.abs(got - psi.reshape(-1)))}\n{trace}")
        psi = np.array(psi)
        nrm = np.linalg.norm(psi)
        if abs(nrm - 1) > 1e-9:
            psi = psi / nrm
        ctx.log(op, [int(round(float(x) * 1e5)) for x in np.concatenate([got.real[:8], got.imag[:8]])])


def s_sim_state(ctx):
    """State-vector kernels' source under the simulated parallel scheduler."""
    n = ctx.int(1, 4)
    sim = Sim(ctx)
    thr = ctx.pick([0, 0, 1, 2, 3, 9])
    KER.install(sim, thr)
    ctx.cleanups.append(KER.restore)
    try:
        state_history(ctx, n, ctx.int(1, 6), 5, dirty=ctx.flag(1, 2))
    except OutOfBounds as e:
        raise Violation("out-of-bounds", f"a kernel left its array: {e}") from e
    finally:
        KER.restore()
        note(ctx, sim)


def note(ctx, sim):
    s = sim.stats
    ctx.probe("sim:loops", s["loops"])
    ctx.probe("sim:conflicting-loops", s["conflicting"])
    ctx.probe("sim:hot-preemptions", s["hot"])
    if s["threads"] > s["loops"]:
        ctx.nontrivial()
        ctx.probe("sim:threads>1")
    if s["switches"] > s["threads"]:
        ctx.probe("sim:switched")
    for k in ("loops", "iterations", "threads", "switches"):
        if s[k]:
            ctx.fault("sim-" + k, s[k]) if k == "switches" else ctx.probe("n:" + k, s[k])


def pool(ctx, force=None):
    t = ctx.pick([1, 4, 2, 3])
    c = ctx.pick([0, 0, 1, 2, 3, 7, 64, 1000])
    numba.set_num_threads(force or t)
    numba.set_parallel_chunksize(c)
    ctx.cleanups.append(lambda: (numba.set_num_threads(4), numba.set_parallel_chunksize(0)))
    ctx.sched("pool", t, c)
    ctx.probe(f"threads:{t}")
    if c:
        ctx.probe("chunked")
        ctx.fault("chunk-size")
    ctx.fault("thread-count")
    return t


def compiled(ctx, history):
    """Run a history on the compiled kernels.  What depends on real thread timing cannot be replayed: such a divergence is
    reported only if it is there on one thread too, or on every one of eight repetitions; the simulated schedules decide the rest."""
    t = pool(ctx)
    try:
        history(ctx, t)
    except Violation:
        choices = list(ctx.choices)

        def fails(force):
            sub = Ctx(choices=choices)
            pool(sub, force)
            try:
                history(sub, t)
            except Violation:
                return True
            return False

        if t == 1 or fails(1) or all(fails(None) for _ in range(8)):
            raise
        ctx.probe("unsteady-thread-divergence")


def s_compiled_state(ctx):
    """Compiled state-vector kernels around and above the parallel threshold."""
    def history(ctx, t):
        n = ctx.weighted([(3, 1), (1, 1), (14, 1), (15, 2), (16, 4), (17, 2)])
        if n >= 16:
            ctx.probe("big:parallel")
            if t > 1:
                ctx.nontrivial()
        else:
            ctx.probe("small:serial")
        state_history(ctx, n, ctx.int(1, 5), min(17, n + 2), dirty=ctx.flag(1, 2))

    compiled(ctx, history)


# ------------------------------------------------------------------ GF(2)

def rows_of(a):
    return [sum(int(b) << j for j, b in enumerate(r)) for r in np.asarray(a)]


def rank_of(rows):
    basis = {}
    for r in rows:
        while r:
            h = r.bit_length()
            if h in basis:
                r ^= basis[h]
            else:
                basis[h] = r
                break
    return len(basis)


def in_span(rows, v):
    return rank_of(rows) == rank_of([*rows, v])


def rref_of(a, ncols):
    """Reference row reduction on the first ncols columns, whole rows moved along (first available pivot row)."""
    rows = [[int(x) for x in r] for r in np.asarray(a)]
    p = 0
    for j in range(ncols):
        i = next((i for i in range(p, len(rows)) if rows[i][j]), None)
        if i is None:
            continue
        rows[p], rows[i] = rows[i], rows[p]
        for k in range(len(rows)):
            if k != p and rows[k][j]:
                rows[k] = [x ^ y for x, y in zip(rows[k], rows[p])]
        p += 1
    return rows, p


def is_ref(a, ncols):
    last = -1
    zero = False
    for r in np.asarray(a)[:, :ncols]:
        nz = np.flatnonzero(r)
        if len(nz) == 0:
            zero = True
            continue
        if zero or nz[0] <= last:
            return False
        last = int(nz[0])
    return True


def draw_matrix(ctx, m, n):
    r = np.random.default_rng(ctx.npseed())
    k = ctx.draw(6)
    if k == 0:
        a = np.eye(m, n, k=int(ctx.draw(3)) - 1, dtype=np.uint8)
    elif k == 1:
        a = r.integers(0, 2, size=(m, n), dtype=np.uint8)
    elif k == 2:
        a = (r.random((m, n)) < 0.15).astype(np.uint8)
    elif k == 3:
        a = (r.random((m, n)) < 0.85).astype(np.uint8)
    elif k == 4:  # rank deficient
        w = ctx.draw(min(m, n) + 1)
        a = ((r.integers(0, 2, size=(m, w)) @ r.integers(0, 2, size=(w, n))) % 2).astype(np.uint8)
    else:
        a = np.zeros((m, n), dtype=np.uint8)
        a[r.permutation(m)[: m // 2]] = 1
    return layout(ctx, a)


def layout(ctx, a):
    """The same values in another memory layout."""
    k = ctx.draw(5)
    ctx.log("layout", k)
    if k == 0:
        return MatGF2(a)
    if k == 1:
        return MatGF2(np.asfortranarray(a))
    if k == 2:
        big = np.zeros((a.shape[0] * 2, a.shape[1] * 3), dtype=np.uint8)
        big[::2, ::3] = a
        return big.view(MatGF2)[::2, ::3]
    if k == 3:
        return MatGF2(np.ascontiguousarray(a.T)).T
    return np.ascontiguousarray(a[::-1]).view(MatGF2)[::-1]


def gf_history(ctx, dim, nops):
    trace = []
    ctx.describe(trace)
    for _ in range(nops):
        m, n = dim(), dim()
        a = draw_matrix(ctx, m, n)
        a0 = np.array(a, dtype=np.uint8)
        op = ctx.pick(["mul", "rref", "ref", "rank", "rinv", "null", "solve", "mul"])
        ctx.probe("gf:" + op)
        ctx.step(1)
        shown = a0.tolist() if a0.size <= 64 else f"<{m}x{n}>"
        trace.append(f"{op} {m}x{n} {shown}")
        res = None
        if op == "mul":
            k = dim()
            b = draw_matrix(ctx, n, k)
            b0 = np.array(b, dtype=np.uint8)
            got = a.mat_mul(b)
            want = (a0.astype(np.int64) @ b0.astype(np.int64)) % 2
            ctx.check(got.shape == want.shape and np.array_equal(got, want), "wrong-product",
                      lambda: f"{shown} times {b0.tolist() if b0.size <= 64 else b0.shape} gave {np.asarray(got).tolist() if got.size <= 64 else 'a wrong product'}")
            ctx.check(np.array_equal(b, b0), "operand-modified", lambda: f"mat_mul changed its argument\n{trace[-1]}")
            res = got
        elif op in ("rref", "ref"):
            ncols = n if ctx.draw(2) == 0 else ctx.draw(n + 1)
            inplace = ctx.draw(2) == 1
            f = a.row_reduction if op == "rref" else a.gauss_elimination
            trace[-1] += f" ncols={ncols} copy={not inplace}"
            got = f(ncols=None if ncols == n and ctx.draw(2) == 0 else ncols, copy=not inplace)
            want, _ = rref_of(a0, ncols)
            if op == "rref":
                wr, _ = rref_of(a0, n) if ncols == n else (want, 0)
                ok = np.array_equal(np.asarray(got)[:, :ncols], np.array(wr, dtype=np.uint8).reshape(m, n)[:, :ncols])
            else:
                ok = is_ref(got, ncols)
            ctx.check(got.shape == (m, n) and ok, "not-reduced", lambda: f"{trace[-1]} gave {np.asarray(got).tolist()}")
            r1, r2 = rows_of(a0), rows_of(got)
            ctx.check(rank_of(r1) == rank_of(r2) == rank_of(r1 + r2), "row-space-changed", lambda: f"{trace[-1]} gave {np.asarray(got).tolist()}")
            if inplace:
                ctx.check(np.array_equal(a, got), "not-in-place", lambda: f"{trace[-1]}: the matrix was not modified to the result", signature="layout")
                a0 = np.array(a)
            res = got
        elif op == "rank":
            got = a.rank()
            ctx.check(int(got) == rank_of(rows_of(a0)), "wrong-rank", lambda: f"{trace[-1]} gave {got}")
            res = int(got)
        elif op == "rinv":
            got = a.right_inverse()
            full = rank_of(rows_of(a0)) == m
            ctx.check((got is not None) == full, "right-inverse-existence", lambda: f"{trace[-1]} gave {got}")
            if got is not None:
                prod = (a0.astype(np.int64) @ np.asarray(got).astype(np.int64)) % 2
                ctx.check(got.shape == (n, m) and np.array_equal(prod, np.eye(m)), "wrong-right-inverse", lambda: f"{trace[-1]} gave {np.asarray(got).tolist()}")
            res = got
        elif op == "null":
            got = a.null_space()
            rk = rank_of(rows_of(a0))
            ctx.check(got.shape == (n - rk, n), "wrong-null-space", lambda: f"{trace[-1]} gave shape {got.shape}, expected {(n - rk, n)}")
            prod = (a0.astype(np.int64) @ np.asarray(got).T.astype(np.int64)) % 2
            ctx.check(not prod.any() and rank_of(rows_of(got)) == n - rk, "wrong-null-space", lambda: f"{trace[-1]} gave {np.asarray(got).tolist()}")
            res = got
        else:
            rref, _ = rref_of(a0, n)
            e = np.array(rref, dtype=np.uint8).reshape(m, n)
            if ctx.draw(2):  # echelon but not reduced
                for i in range(m - 1, 0, -1):
                    if e[i].any() and ctx.draw(2):
                        e[ctx.draw(i)] ^= e[i]
            x = np.random.default_rng(ctx.npseed()).integers(0, 2, size=n, dtype=np.uint8)
            b = ((e.astype(np.int64) @ x) % 2).astype(np.uint8)
            e0, b0 = e.copy(), b.copy()
            e, bb = layout(ctx, e), MatGF2(b)
            got = solve_f2_linear_system(e, bb)
            ctx.check(got.shape == (n,) and np.array_equal((e0.astype(np.int64) @ np.asarray(got)) % 2, b0), "wrong-solution",
                      lambda: f"solve {e0.tolist()} x = {b0.tolist()} gave {np.asarray(got).tolist()}")
            ctx.check(np.array_equal(e, e0) and np.array_equal(bb, b0), "operand-modified", lambda: f"solve changed its arguments\n{e0.tolist()}")
            res = got
        ctx.check(np.array_equal(a, a0), "operand-modified", lambda: f"{trace[-1]}: the matrix was modified")
        ctx.log(op, m, n, res if isinstance(res, int) or res is None else np.asarray(res).tobytes())


def s_sim_gf2(ctx):
    sim = Sim(ctx)
    KER.install(sim, 0)
    ctx.cleanups.append(KER.restore)
    try:
        gf_history(ctx, lambda: ctx.int(0, 5), ctx.int(1, 4))
    except OutOfBounds as e:
        raise Violation("out-of-bounds", f"a kernel left its array: {e}") from e
    finally:
        KER.restore()
        note(ctx, sim)


def s_compiled_gf2(ctx):
    """Compiled binary-matrix kernels."""
    def history(ctx, t):
        big = ctx.flag(1, 3)
        if t > 1:
            ctx.nontrivial()
        gf_history(ctx, (lambda: ctx.pick([40, 1, 64, 90, 33])) if big else (lambda: ctx.int(0, 8)), ctx.int(1, 4))

    compiled(ctx, history)


SCENARIOS = [("sim-state", s_sim_state, 6), ("sim-gf2", s_sim_gf2, 5), ("compiled-state", s_compiled_state, 3), ("compiled-gf2", s_compiled_gf2, 3)]
