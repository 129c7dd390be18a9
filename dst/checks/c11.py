"""C11: exported OpenQASM 3 programs behave as their source; I/O faults surface."""

from __future__ import annotations

import errno
import gc
import io
import math
import sys
import warnings
from fractions import Fraction

import numpy as np

from dst import gen, qasm, ref
from dst.core import Discard, Violation, close_up_to_phase, fidelity
from dst.gx import BasicStates, Circuit, Measurement, Pattern, circuit_repr, command, measured_nodes, pattern_repr
from dst.simdisk import PREFIX, SimDisk, mounted

from graphix.opengraph import OpenGraphError
from graphix.parameter import Placeholder
from graphix.qasm3_exporter import circuit_to_qasm3, circuit_to_qasm3_lines, pattern_to_qasm3, pattern_to_qasm3_lines

LEVEL = "exploration"
QUICK_RUNS = 50000
THOROUGH_RUNS = 900000
REAL = ["graphix.qasm3_exporter", "graphix.pattern.Pattern.to_qasm3", "graphix.pretty_print.angle_to_str", "graphix.clifford (QASM decompositions)",
        "graphix.transpiler (lowering before export)", "Python's buffered and text file layers"]
STUB = ["OpenQASM machine (openqasm3 parser + dst/qasm.py interpreter), outcomes scripted", "disk below the raw write call (dst/simdisk.py)"]
RULE = ("random circuits (all gates, mid-circuit measurements, swaps) and patterns (random, compiled, rewritten, flow-derived) exported and "
        "interpreted on scripted outcome histories; files written through a simulated disk with short writes and failing open/write/close; "
        "non-trivial = at least one gate or measurement, or at least one injected disk fault")
ASSUMPTIONS = ["qubits of an OpenQASM 3 program start in |0>", "angles of magnitude below 60 pi", "patterns of at most 10 nodes"]
REQUIRED_PROBES = ("circuit", "pattern", "measured-circuit", "conditional", "clifford", "refused", "disk-failed", "short-write", "disk-ok", "rzz")


# ---------------------------------------------------------------- circuits

def big_angle(ctx):
    k = ctx.draw(9)
    if k == 0:
        return gen.angle(ctx)
    if k == 1:
        return ctx.pick([1e-5, -1e-5, 3e-9, 1e-13, -2e-7, 123e-6])
    if k == 2:
        return ctx.int(-60, 60) + ctx.pick([0.0, 0.5, 1 / 3, 1e-4, 0.123456789])
    if k == 3:
        return np.float64(ctx.int(-999, 999) / 997.0)
    if k == 4:
        return Fraction(ctx.int(-9, 9), ctx.int(1, 9)).__float__()
    if k == 5:
        return ctx.int(-4, 4)
    if k == 6:
        return ctx.int(-1200, 1200) / ctx.int(990, 1010)
    if k == 7:
        return ctx.int(-5, 5) / 7.0 + ctx.pick([1e-10, 1e-8, -1e-8, 1e-6])
    return -0.0


def retune(ctx, c):
    """Give some rotations of the circuit unusual angles."""
    for i in c.instruction:
        if hasattr(i, "angle") and ctx.flag(1, 3):
            i.angle = big_angle(ctx)
    return c


def circuit(ctx):
    rzz = ctx.flag(1, 5)
    c = gen.circuit(ctx, max_width=4, max_depth=10, measures=ctx.flag(1, 2), ccx=True, rzz=rzz)
    retune(ctx, c)
    ctx.describe(circuit_repr(c))
    n = c.width
    kinds = [i.kind.name for i in c.instruction]
    transpile = not (("J" not in kinds) and not any(i.kind.name == "M" and i.axis.name != "Z" for i in c.instruction) and ctx.flag(1, 2))
    text = circuit_to_qasm3(c, transpile=transpile) if ctx.flag(3, 4) else "\n".join(list(circuit_to_qasm3_lines(c, transpile=transpile)))
    prog = parse(ctx, text)
    for _ in range(ctx.int(1, 2)):
        psi = gen.random_unit_vector(ctx, 2**n).reshape((2,) * n)
        targets = [i.target for i in c.instruction if i.kind.name == "M"]
        out = gen.outcomes(ctx, targets)
        ctx.sched(*[out[t] for t in targets])
        exp, live = ref.circuit_run(c.instruction, n, psi, [out[t] for t in targets])
        how = ctx.draw(4)

        def attempt(gates=None):
            pending = list(targets)

            def choose(label, p0):
                # the k-th measurement of the program stands for the k-th measurement of the circuit
                t = pending.pop(0) if pending else None
                if t is None:
                    raise Violation("extra-measurement", f"the program measures more often than the circuit: {text!r}")
                return out[t]

            m = qasm.Machine(choose, {"q": psi}, gates)
            try:
                m.run(prog)
            except qasm.QasmError as e:
                raise Violation("invalid-program", f"{e}: {text!r} from {circuit_repr(c)}") from None
            if len(m.measured) != len(targets):
                raise Violation("missing-measurement", f"the program measures {len(m.measured)} times, the circuit {len(targets)}: {text!r}")
            t = m.psi
            for q in sorted(targets, reverse=True):
                t = m.project(q, out[q]) if t is m.psi else np.take(t, out[q], axis=q)
            return m, t

        m, got = attempt()
        ctx.step(m.steps)
        bits = m.names.get("b")
        for t in targets:
            ctx.check(bits is not None and t < len(bits[1]) and bits[1][t] == out[t], "classical-bits",
                      lambda: f"bit of qubit {t} is {bits and bits[1]}, outcome {out[t]}: {text!r}")
        same = bool(abs(np.linalg.norm(got) - np.linalg.norm(exp)) < 1e-6 and close_up_to_phase(got, exp, tol=1e-6))
        if not same and "RZZ" in kinds:
            _, alt = attempt({"crz": (1, 2, lambda a: np.diag([np.exp(-0.5j * a), np.exp(0.5j * a), np.exp(0.5j * a), np.exp(-0.5j * a)]))})
            ctx.probe("rzz")
            if close_up_to_phase(alt, exp, tol=1e-6):
                raise Violation("rzz-exported-as-crz", f"RZZ is written as crz, which is a different gate: {text!r} from {circuit_repr(c)}", signature="rzz-as-crz")
        ctx.check(same, "circuit-differs", lambda: f"outcomes {out}: fidelity {fidelity(got, exp):.8f}, norms {np.linalg.norm(got):.6g} {np.linalg.norm(exp):.6g}: {text!r} from {circuit_repr(c)}")
        del how
    ctx.probe("circuit")
    if targets:
        ctx.probe("measured-circuit")
    if kinds:
        ctx.nontrivial()
    ctx.log(text)


def parse(ctx, text):
    ctx.evals += 1
    try:
        return qasm.parse(text)
    except qasm.QasmError as e:
        raise Violation("invalid-program", f"{e}: {text!r}") from None


# ---------------------------------------------------------------- patterns

OKSTATES = [BasicStates.PLUS, BasicStates.ZERO]


def a_pattern(ctx):
    k = ctx.draw(5)
    if k == 0:
        c = retune(ctx, gen.circuit(ctx, max_width=2, max_depth=3, measures=ctx.flag(1, 3), ccx=False))
        p = c.transpile().pattern
    elif k == 1:
        og = gen.flow_open_graph(ctx, max_nodes=7, out_cliffords=True)
        try:
            p = og.to_pattern()
        except OpenGraphError:
            raise Discard from None
    else:
        p = gen.general_pattern(ctx, max_nodes=7, states=False, e_after_c=ctx.flag(1, 2))
        for cmd in p:
            if cmd.kind.name == "N" and ctx.flag(1, 4):
                cmd.state = BasicStates.ZERO
            if cmd.kind.name == "M" and ctx.flag(1, 4):
                cmd.measurement = {"XY": Measurement.XY, "XZ": Measurement.XZ, "YZ": Measurement.YZ}[ctx.pick(gen.PLANES).name](big_angle(ctx))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(ctx.draw(3)):
            r = ctx.draw(6)
            try:
                if r == 0:
                    p.minimize_space()
                elif r == 1:
                    p.standardize()
                elif r == 2:
                    p.shift_signals()
                elif r == 3:
                    p.infer_pauli_measurements()
                elif r == 4:
                    p.infer_pauli_measurements()
                    p.remove_pauli_measurements()
                else:
                    p.perform_pauli_pushing() if hasattr(p, "perform_pauli_pushing") else p.parallelize_pattern() if hasattr(p, "parallelize_pattern") else None
            except NotImplementedError:
                pass
    return p


def run_program(prog, text, p, out, src):
    labels = {}

    def choose(label, p0):
        if label is None or not label.startswith("c") or not label[1:].isdigit():
            raise Violation("extra-measurement", f"measurement into {label}: {text!r}")
        n = int(label[1:])
        labels[n] = out.get(n, 0)
        return labels[n]

    m = qasm.Machine(choose)
    try:
        m.run(prog)
    except qasm.QasmError as e:
        raise Violation("invalid-program", f"{e}: {text!r} from {src}") from None
    return m, labels


def check_pattern_text(ctx, p, text, inp):
    prog = parse(ctx, text)
    src = pattern_repr(p)
    mn = measured_nodes(p)
    for _ in range(ctx.int(1, 2)):
        out = gen.outcomes(ctx, mn)
        ctx.sched(*[out[m] for m in mn])
        psi = np.ones(1, dtype=complex)
        for node in p.input_nodes:
            psi = np.kron(psi, ref.state_vec(inp if not isinstance(inp, dict) else inp[node]))
        psi = psi.reshape((2,) * len(p.input_nodes))
        try:
            exp, _ = ref.pattern_kraus(p, ref.scripted(out), psi=psi, nref=0)
        except ref.RefError as e:
            raise Violation("harness", f"{e}: {src}") from None
        m, labels = run_program(prog, text, p, out, src)
        ctx.step(m.steps)
        ctx.check(labels == out, "classical-bits", lambda: f"the program measures {labels}, the pattern {out}: {text!r} from {src}")
        for n in mn:
            b = m.names.get(f"c{n}")
            ctx.check(b is not None and b[1][0] == out[n], "classical-bits", lambda: f"bit c{n} is {b}, outcome {out[n]}: {text!r} from {src}")
        # state of the output qubits, the measured ones being in the basis state of their outcome
        keep = {}
        for n in [*p.input_nodes, *[c.node for c in p if c.kind.name == "N"]]:
            d = m.names.get(f"q{n}")
            ctx.check(d is not None and d[0] == "qubit", "interface", lambda: f"no qubit q{n}: {text!r}")
            keep[n] = d[1][0]
        ctx.check(len(keep) == m.nq, "interface", lambda: f"{m.nq} qubits declared for nodes {sorted(keep)}: {text!r}")
        t = m.psi
        for n in sorted(mn, key=lambda n: keep[n], reverse=True):
            t = np.take(t, out[n], axis=keep[n])
        live = sorted((keep[n], n) for n in keep if n not in out)
        order = [[n for _, n in live].index(o) for o in p.output_nodes]
        t = t.transpose(order) if order else t
        ne, ng = np.linalg.norm(exp), np.linalg.norm(t)
        ctx.check(abs(ne - ng) < 1e-6, "wrong-weight", lambda: f"branch {out} has weight {ng**2:.6g}, expected {ne**2:.6g}: {text!r} from {src}")
        ctx.check(ne < 1e-6 or close_up_to_phase(t / ne, exp / ne, tol=1e-5), "pattern-differs",
                  lambda: f"branch {out}, input {inp}: fidelity {fidelity(t, exp):.8f}: {text!r} from {src}")


def draw_input(ctx, p):
    k = ctx.draw(3)
    if k == 0:
        return BasicStates.PLUS
    if k == 1:
        return BasicStates.ZERO
    return {n: ctx.pick(OKSTATES) for n in p.input_nodes}


def pattern(ctx):
    p = a_pattern(ctx)
    if len({*p.input_nodes, *[c.node for c in p if c.kind.name == "N"]}) > 10:
        raise Discard
    ctx.describe(pattern_repr(p))
    if any(c.kind.name == "N" and c.state not in OKSTATES for c in p):
        ctx.probe("bad-state")
        expect_refused(ctx, p, BasicStates.PLUS, ValueError)
        return
    inp = draw_input(ctx, p)
    if ctx.draw(2) or isinstance(inp, dict) or inp is not BasicStates.PLUS:
        text = pattern_to_qasm3(p, inp)
    else:
        text = pattern_to_qasm3(p)
    ctx.log(text)
    check_pattern_text(ctx, p, text, inp)
    ctx.probe("pattern")
    ctx.probe("conditional", int("if (" in text))
    ctx.probe("clifford", int(any(c.kind.name == "C" for c in p)))
    if len(p):
        ctx.nontrivial()


def expect_refused(ctx, p, inp, exc):
    disk = SimDisk(lambda op, d: None)
    for f in (lambda: pattern_to_qasm3(p, inp), lambda: list(pattern_to_qasm3_lines(p, inp)), lambda: to_disk(p, inp, disk)):
        try:
            r = f()
        except exc:
            continue
        raise Violation("not-refused", f"export of {pattern_repr(p)} with input {inp} succeeded: {r!r}")
    ctx.evals += 1
    ctx.probe("refused")
    ctx.nontrivial()


def refused(ctx):
    """What OpenQASM 3 cannot express is refused, never exported as something else."""
    k = ctx.draw(4)
    if k == 0:  # circuit with a free parameter
        c = gen.circuit(ctx, max_width=3, max_depth=4, ccx=False, rzz=False)
        q = ctx.draw(c.width)
        getattr(c, ctx.pick(["rx", "ry", "rz", "j"]))(q, Placeholder("a") * ctx.int(1, 3))
        ctx.describe(circuit_repr(c))
        try:
            t = circuit_to_qasm3(c)
        except TypeError:
            ctx.probe("refused")
        else:
            raise Violation("not-refused", f"a circuit with a free parameter was exported: {t!r}")
    elif k == 1:  # circuit needing lowering
        c = gen.circuit(ctx, max_width=3, max_depth=4, ccx=False, rzz=False)
        q = ctx.draw(c.width)
        c.j(q, gen.angle(ctx)) if ctx.draw(2) else c.m(q, ctx.pick(gen.AXES[1:]))
        ctx.describe(circuit_repr(c))
        try:
            t = circuit_to_qasm3(c, transpile=False)
        except ValueError:
            ctx.probe("refused")
        else:
            raise Violation("not-refused", f"{circuit_repr(c)} was exported without lowering: {t!r}")
    else:
        p = a_pattern(ctx)
        ctx.describe(pattern_repr(p))
        if k == 2:
            ms = [c for c in p if c.kind.name == "M"]
            if not ms:
                raise Discard
            c = ctx.pick(ms)
            c.measurement = {"XY": Measurement.XY, "XZ": Measurement.XZ, "YZ": Measurement.YZ}[ctx.pick(gen.PLANES).name](Placeholder("a") + ctx.int(0, 2))
            expect_refused(ctx, p, BasicStates.PLUS, TypeError)
        else:
            ns = [c for c in p if c.kind.name == "N"]
            bad = ctx.pick([s for s in gen.BASICS if s not in OKSTATES])
            if ns and ctx.draw(2):
                ctx.pick(ns).state = bad
                inp = BasicStates.PLUS
            elif p.input_nodes:
                inp = bad if ctx.draw(2) else {n: (bad if n == p.input_nodes[-1] else BasicStates.PLUS) for n in p.input_nodes}
            else:
                raise Discard
            expect_refused(ctx, p, inp, ValueError)
    ctx.nontrivial()


# ---------------------------------------------------------------- disk

ERRNOS = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EROFS, errno.EACCES, errno.EPERM, errno.EAGAIN, errno.EMFILE, errno.ETIMEDOUT]


def to_disk(p, inp, disk, name="out"):
    with mounted(disk):
        if inp is BasicStates.PLUS:
            return p.to_qasm3(PREFIX + name)
        return p.to_qasm3(PREFIX + name, inp)


def disk(ctx):
    """Write through a simulated disk; failing operations must surface, success means a complete file."""
    p = a_pattern(ctx)
    if any(c.kind.name == "N" and c.state not in OKSTATES for c in p):
        raise Discard
    ctx.describe(pattern_repr(p))
    inp = draw_input(ctx, p)
    text = pattern_to_qasm3(p, inp)
    full = text.encode("utf-8")
    mode = ctx.draw(6)
    short = ctx.flag(1, 2)
    state = {"n": 0, "written": 0}
    fail_at = None
    if mode == 1:
        fail_at = ("open", 0)
    elif mode == 2:
        fail_at = ("write", ctx.draw(4))
    elif mode == 3:
        fail_at = ("close", 0)
    elif mode == 4:
        fail_at = ("full", ctx.draw(len(full) + 1))
    elif mode == 5:
        fail_at = (ctx.pick(["fsync", "rename"]), 0)
    err = ctx.pick(ERRNOS)
    counts = {}
    fired = []

    def script(op, detail):
        k = counts[op] = counts.get(op, 0) + 1
        ctx.sched(op, detail if op == "write" else "")
        if fail_at and fail_at[0] == op and k - 1 == fail_at[1]:
            ctx.fault(f"{op}-error")
            fired.append(op)
            return err
        if op == "write":
            if fail_at and fail_at[0] == "full":
                left = fail_at[1] - state["written"]
                if left <= 0:
                    ctx.fault("disk-full")
                    fired.append("full")
                    return errno.ENOSPC
                n = min(detail, left)
                state["written"] += n
                if n < detail:
                    ctx.fault("short-write")
                    ctx.probe("short-write")
                return ("short", n)
            if short and detail > 1 and ctx.flag(1, 2):
                ctx.fault("short-write")
                ctx.probe("short-write")
                return ("short", ctx.int(1, detail - 1))
        return None

    # the locale of the machine decides the default encoding
    enc = ctx.weighted([("utf-8", 5), ("latin-1", 1), ("ascii", 1), ("utf-16", 1)])
    d = SimDisk(script, encoding=enc)
    name = ctx.pick(["out", "out.qasm", "a.b"])
    before = None
    if ctx.flag(1, 2):
        before = b"old content\n" * ctx.int(1, 400)
        for n in (name, name.rsplit(".", 1)[0] + ".qasm", name + ".qasm"):
            d.files[PREFIX + n] = bytearray(before)
    unraisable = []
    hook, sys.unraisablehook = sys.unraisablehook, lambda a: unraisable.append(a.exc_type)
    error = None
    try:
        to_disk(p, inp, d, name)
    except OSError as e:
        error = e
        e.__traceback__ = None
    except UnicodeError as e:
        error = e
        e.__traceback__ = None
    finally:
        with mounted(d):
            gc.collect(0)
        sys.unraisablehook = hook
    ctx.check(not unraisable, "lost-error", lambda: f"errors {unraisable} were dropped while files were finalised: {fail_at} {text!r}")
    leaked = list(d.fds)
    content = d.files.get(PREFIX + name.rsplit(".", 1)[0] + ".qasm", d.files.get(PREFIX + name))
    if error is None:
        ctx.check(not d.failed, "silent-failure", lambda: f"the disk failed ({d.failed}) and the export reported success: {text!r}")
        cands = [bytes(v) for v in d.files.values()]
        ctx.check(full in cands, "incomplete-file",
                  lambda: f"the export reported success and the file holds {bytes(content) if content is not None else None!r} instead of {full!r} (faults {fail_at}, short writes {short})")
        ctx.check(not leaked, "not-closed", lambda: "the export reported success and left the file open")
        ctx.probe("disk-ok")
        if not d.failed and ctx.flag(1, 6):
            check_pattern_text(ctx, p, full.decode(), inp)
    else:
        ctx.check(bool(d.failed) and isinstance(error, OSError), "spurious-failure",
                  lambda: f"the export failed with {error!r} although no disk operation did (default encoding {enc}): {text!r}")
        ctx.check(error.errno == d.failed[0][1] or error.errno in [f[1] for f in d.failed], "wrong-error", lambda: f"{error!r} reported for {d.failed}")
        ctx.probe("disk-failed")
    if d.failed or short:
        ctx.nontrivial()
    ctx.log(repr(error), sorted((k, bytes(v)) for k, v in d.files.items()))


SCENARIOS = [("circuit", circuit, 5), ("pattern", pattern, 7), ("refused", refused, 2), ("disk", disk, 4)]
