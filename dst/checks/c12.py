"""C12: binding parameters commutes with compiling, rewriting and running."""

from __future__ import annotations

import copy
import dataclasses
from fractions import Fraction

import numpy as np

from dst import flowref, gen, ref
from dst.checks import c03
from dst.core import Discard, Violation, close_up_to_phase, fidelity
from dst.gx import (
    Circuit, DensityMatrixBackend, OpenGraph, Pattern, RandomBranchSelector, ScriptSelector, circuit_key, circuit_repr, measured_nodes, og_repr,
    pattern_key, pattern_repr, simulate, vec,
)
from dst.sym import Sym, SymParam

from graphix.flow.exceptions import FlowError, XZCorrectionsError
from graphix.measurements import BlochMeasurement
from graphix.opengraph import OpenGraphError
from graphix.parameter import AffineExpression, Expression, Placeholder, PlaceholderOperationError, with_parameter, with_parameters
from graphix.simulator import DefaultMeasureMethod

LEVEL = "exploration"
QUICK_RUNS = 50000
THOROUGH_RUNS = 1200000
REAL = ["graphix.parameter", "graphix.transpiler", "graphix.pattern", "graphix.optimization", "graphix.opengraph", "graphix.flow.core",
        "graphix.circ_ext", "graphix.measurements", "graphix.sim.density_matrix (symbolic)", "graphix.sim.statevec"]
STUB = ["outcome histories (scripted)", "a parameter type with trigonometry (dst/sym.py, in place of the graphix-symbolic plugin)"]
RULE = ("circuits, patterns and open graphs whose angles are expressions in 1-3 parameters; a history of substitutions (values, renamings, "
        "swaps, single or parallel, in place or copied) interleaved with compilation, 0-4 rewrites and conversions; the result is compared "
        "with the numeric source on scripted outcomes; non-trivial = at least one parametric angle")
ASSUMPTIONS = ["reference semantics in dst/ref.py", "parameters are the built-in Placeholder or a caller-supplied symbolic type"]
REQUIRED_PROBES = ("bind-circuit", "bind-pattern", "bind-og", "bind-flow", "bind-corrections", "rename", "swap", "in-place", "parallel", "refused-run",
                   "extraction", "density-matrix", "placeholder-error")


# ---------------------------------------------------------------- parameters and substitution plans

class Plan:
    """Parameters with final values, and the substitution steps (in order) leading to them."""

    def __init__(self, ctx, sym=False):
        self.sym = sym
        self.n = 0
        self.value = {}
        for _ in range(ctx.int(1, 3)):
            self.fresh(ctx)
        self.initial = dict(self.value)
        self.steps = None

    def fresh(self, ctx):
        p = (SymParam if self.sym else Placeholder)("abcdefgh"[self.n % 8] if self.n < 3 or ctx.flag(3, 4) else "a")
        self.n += 1
        self.value[p] = value(ctx)
        return p

    def make_steps(self, ctx):
        cur = dict(self.initial)
        steps = []
        for _ in range(ctx.int(0, 4)):
            if not cur:
                break
            ps = list(cur)
            k = ctx.draw(5)
            if k <= 1:
                p = ctx.pick(ps)
                steps.append({p: number(ctx, cur.pop(p))})
            elif k == 2:  # p := k q + c
                p = ctx.pick(ps)
                rest = [q for q in ps if q is not p]
                v = cur.pop(p)
                if rest and ctx.draw(2):
                    q = ctx.pick(rest)
                else:
                    q = (SymParam if self.sym else Placeholder)(ctx.pick(["u", "v", p.name]))
                    cur[q] = value(ctx)
                c = ctx.pick([1, -1, 2, 0.5])
                steps.append({p: c * q + (v - c * cur[q])})
                ctx.probe("rename")
            elif k == 3 and len(ps) >= 2:
                p, q = ctx.shuffle(ps)[:2]
                vp, vq = value(ctx), value(ctx)
                c, d = ctx.pick([1, -1, 2]), ctx.pick([1, -1, 0.5])
                step = {p: c * q + (cur[p] - c * vq), q: d * p + (cur[q] - d * vp)}
                cur[p], cur[q] = vp, vq
                steps.append(step)
                ctx.probe("swap")
            elif k == 4:
                sub = [p for p in ps if ctx.draw(2)]
                step = {p: number(ctx, cur.pop(p)) for p in sub}
                if ctx.draw(2):  # a parameter that does not occur
                    step[(SymParam if self.sym else Placeholder)(ps[0].name)] = 0.123
                if step:
                    steps.append(step)
        rest = list(cur)
        if rest:
            if ctx.draw(2):
                steps += [{p: number(ctx, cur[p])} for p in rest]
            else:
                steps.append({p: number(ctx, cur[p]) for p in rest})
        self.steps = steps
        self.done = 0
        return self

    def take(self, ctx):
        """Steps to perform now."""
        k = ctx.draw(3)
        left = len(self.steps) - self.done
        m = 0 if k == 0 else min(left, k)
        out = self.steps[self.done:self.done + m]
        self.done += m
        return out

    def rest(self):
        out = self.steps[self.done:]
        self.done = len(self.steps)
        return out


def value(ctx):
    k = ctx.draw(4)
    if k == 0:
        return ctx.int(-4, 4) * 0.5
    if k == 1:
        return ctx.int(-8, 8) * 0.25
    if k == 2:
        return 0.0
    return ctx.int(-1999, 1999) / 1000.0 + 0.00041


def number(ctx, v):
    k = ctx.draw(4)
    if v == int(v) and k == 1:
        return int(v)
    if k == 2:
        return np.float64(v)
    if k == 3:
        return Fraction(v)
    return float(v)


def expression(ctx, plan, v):
    """An expression in one parameter (several with symbolic parameters) whose final value is returned along."""
    ps = list(plan.initial)
    p = ctx.pick(ps)
    k = ctx.pick([1, -1, 2, 0.5, -0.25, 3])
    form = ctx.draw(5)
    x = plan.initial[p]
    if form == 0:
        return p, x
    if form == 1:
        e, w = k * p, k * x
    elif form == 2:
        c = ctx.int(-4, 4) * 0.25
        e, w = c - p * k, c - x * k
    elif form == 3:
        e, w = (p + 0.5) / 2 + k * p, (x + 0.5) / 2 + k * x
    else:
        c = v - k * x
        e, w = k * p + c, k * x + c
    if plan.sym and ctx.flag(1, 3):
        q = ctx.pick(ps)
        e, w = e + q / 2, w + plan.initial[q] / 2
    return e, w


def symbolise(ctx, plan, v):
    """(symbolic or numeric angle, numeric angle)."""
    if ctx.flag(2, 3):
        e, w = expression(ctx, plan, float(v))
        plan.used = True
        return e, w
    return v, v


def sub(ctx, obj, step, what):
    """Apply one substitution step through one of the offered methods; the source of a copy stays as it was."""
    before = fingerprint(obj)
    inplace = hasattr(obj, "replace_parameter") and ctx.flag(1, 2)
    single = len(step) == 1 and ctx.flag(2, 3)
    if single:
        (p, v), = step.items()
        if inplace:
            r = obj.replace_parameter(p, v)
        else:
            r = getattr(obj, ctx.pick(["with_parameter", "subs"]))(p, v)
    else:
        ctx.probe("parallel")
        r = obj.replace_parameters(step) if inplace else getattr(obj, ctx.pick(["with_parameters", "xreplace"]))(step)
    if inplace:
        ctx.probe("in-place")
        ctx.check(r is obj, "in-place", lambda: f"in-place substitution in {what} returned another object")
    else:
        ctx.check(fingerprint(obj) == before, "source-changed", lambda: f"substitution {step} with a copy changed its source {before}")
    ctx.sched("bind", what, len(step))
    reported(ctx, r, what)
    return r


def fingerprint(o):
    if isinstance(o, Pattern):
        return pattern_key(o)
    if isinstance(o, Circuit):
        return circuit_key(o)
    if isinstance(o, OpenGraph):
        return og_repr(o)
    if hasattr(o, "og"):
        return og_repr(o.og)
    return repr(o)


def angles(o):
    if isinstance(o, Pattern):
        return [c.measurement.angle for c in o if c.kind.name == "M" and hasattr(c.measurement, "plane")]
    if isinstance(o, Circuit):
        return [i.angle for i in o.instruction if hasattr(i, "angle")]
    if isinstance(o, OpenGraph):
        return [m.angle for m in o.measurements.values() if hasattr(m, "plane")]
    if hasattr(o, "og"):
        return angles(o.og)
    return []


def has_free(o):
    return any(isinstance(a, Expression) for a in angles(o))


def reported(ctx, o, what):
    if hasattr(o, "is_parameterized"):
        ctx.check(o.is_parameterized() == has_free(o), "is-parameterized",
                  lambda: f"is_parameterized() is {o.is_parameterized()} for {what} {fingerprint(o)}")


def try_run(ctx, o, what, prob=(1, 4)):
    """With a free parameter, a numeric run is refused."""
    if not has_free(o) or not ctx.flag(*prob):
        return
    before = fingerprint(o)
    if isinstance(o, Pattern):
        backend = ctx.pick(["statevector", "densitymatrix", "tensornetwork"])
        if backend == "densitymatrix" and ref.space_needed(list(o), len(o.input_nodes)) > 5:
            backend = "statevector"
        if backend != "tensornetwork" and ref.space_needed(list(o), len(o.input_nodes)) > 10:
            return

        def run():
            return o.simulate(backend, rng=np.random.default_rng(0))
    elif isinstance(o, Circuit):
        backend = ctx.pick(["statevector", "densitymatrix"])

        def run():
            return o.simulate(backend, rng=np.random.default_rng(0))
    else:
        return
    try:
        r = run()
    except (TypeError, ValueError, NotImplementedError):
        ctx.fault("run-with-free-parameter")
        ctx.probe("refused-run")
    else:
        rho = getattr(getattr(r, "state", r), "rho", None)
        symbolic = rho is not None and rho.dtype == np.object_
        ctx.check(symbolic, "ran-with-free-parameter", lambda: f"{backend} run of {what} {before} succeeded")
    ctx.check(fingerprint(o) == before, "source-changed", lambda: f"refused run changed {before} into {fingerprint(o)}")


# ---------------------------------------------------------------- circuits

def circuits(ctx):
    plan = Plan(ctx)
    plan.used = False
    num = gen.circuit(ctx, max_width=3, max_depth=9, measures=ctx.flag(1, 3))
    sym = Circuit(num.width)
    for i in num.instruction:
        j = copy.copy(i)
        if hasattr(i, "angle"):
            j.angle, i.angle = symbolise(ctx, plan, i.angle)
        sym.add(j) if hasattr(sym, "add") else sym.extend([j])
    plan.make_steps(ctx)
    rep = f"{circuit_repr(sym)} with {plan.steps}"
    ctx.describe(rep)
    if plan.used:
        ctx.nontrivial()
    reported(ctx, sym, "circuit")
    try_run(ctx, sym, "circuit")
    c = sym
    ops = []
    for _ in range(ctx.draw(3)):
        for s in plan.take(ctx):
            c = sub(ctx, c, s, "circuit")
            ctx.probe("bind-circuit")
        k = ctx.draw(3)
        if k == 0:
            c = c.transpile_j_to_rzh()
        elif k == 1:
            c = c.transpile_measurements_to_z_axis()
        else:
            try_run(ctx, c, "circuit")
        ops.append(k)
        reported(ctx, c, "circuit")
    for s in plan.take(ctx):
        c = sub(ctx, c, s, "circuit")
        ctx.probe("bind-circuit")
    n = num.width
    mg = [i for i in num.instruction if i.kind.name == "M"]
    cm = [ctx.draw(2) for _ in mg]
    expected, _ = ref.circuit_run(num.instruction, n, ref.identity_input(n), cm)
    how = ctx.draw(4)
    if how == 0:  # stay with the circuit
        for s in plan.rest():
            c = sub(ctx, c, s, "circuit")
            ctx.probe("bind-circuit")
        done(ctx, c, rep)
        got, _ = ref.circuit_run(c.instruction, n, ref.identity_input(n), cm)
        ctx.check(abs(np.linalg.norm(got) - np.linalg.norm(expected)) < 1e-6, "distribution", lambda: f"bound circuit {circuit_repr(c)} from {rep}")
        if np.linalg.norm(expected) > 1e-6:
            ctx.check(close_up_to_phase(got, expected), "wrong-map", lambda: f"bound circuit {circuit_repr(c)} from {rep}, fidelity {fidelity(got, expected):.6f}")
            if ctx.flag(1, 3):
                sel = ScriptSelector({i.target: b for i, b in zip(mg, cm)})
                res = c.simulate(branch_selector=sel, rng=np.random.default_rng(0))
                if list(res.classical_measures) == cm:
                    e, _ = ref.circuit_run(num.instruction, n, np.full((2,) * n, 2 ** (-n / 2), dtype=complex), cm)
                    ctx.check(close_up_to_phase(vec(res.state), e.reshape(-1)), "wrong-state", lambda: f"simulation of bound circuit {circuit_repr(c)} from {rep}")
        return
    if how == 1:
        f = c.transpile_to_causalflow()
        cls = tuple(f.classical_outputs) if hasattr(f, "classical_outputs") else ()
        flow = f.flow
        for s in plan.take(ctx):
            flow = sub(ctx, flow, s, "flow")
            ctx.probe("bind-flow")
        xz = flow.to_xzcorrections()
        for s in plan.take(ctx):
            xz = sub(ctx, xz, s, "corrections")
            ctx.probe("bind-corrections")
        p = xz.to_pattern()
        p.extend(f.classical_outputs.values())
    else:
        t = c.transpile(transpile_swaps=how == 2)
        p, cls = t.pattern, tuple(t.classical_outputs)
    reported(ctx, p, "pattern")
    for s in plan.rest():
        try_run(ctx, p, "pattern", (1, 6))
        p = sub(ctx, p, s, "pattern")
        ctx.probe("bind-pattern")
    done(ctx, p, rep)
    mn = measured_nodes(p)
    internal = [m for m in mn if m not in cls]
    out = gen.outcomes(ctx, internal)
    out.update(zip(cls, cm))
    got = c03.kraus(p, out) * 2 ** (len(internal) / 2)
    ctx.check(abs(np.linalg.norm(got) - np.linalg.norm(expected)) < 1e-6 * max(1, np.linalg.norm(expected)), "distribution", lambda: f"outcomes {out}: {pattern_repr(p)} from {rep}")
    if np.linalg.norm(expected) > 1e-6:
        ctx.check(close_up_to_phase(got, expected), "wrong-map", lambda: f"outcomes {out}: fidelity {fidelity(got, expected):.6f}: {pattern_repr(p)} from {rep}")
    ctx.log(rep, ops, how)


def done(ctx, o, rep):
    ctx.check(not has_free(o), "parameter-left", lambda: f"after substituting everything: {fingerprint(o)} from {rep}")
    reported(ctx, o, "bound object")
    for a in angles(o):
        ctx.check(isinstance(a, (int, float)), "not-numeric", lambda: f"angle {a!r} of type {type(a).__name__} in {fingerprint(o)} from {rep}")


# ---------------------------------------------------------------- patterns under rewriting

def sym_pattern(ctx, plan, num):
    """Parametric twin of a numeric pattern, and its numeric value."""
    p = num.copy()
    for cn, cs in zip(num, p):
        if cn.kind.name == "M" and hasattr(cn.measurement, "plane"):
            s, v = symbolise(ctx, plan, cn.measurement.angle)
            cs.measurement = BlochMeasurement(s, cn.measurement.plane)
            cn.measurement = BlochMeasurement(v, cn.measurement.plane)
    return p


def rewriting(ctx):
    plan = Plan(ctx)
    plan.used = False
    num, det = c03.source(ctx)
    num = copy.deepcopy(num)
    sym = sym_pattern(ctx, plan, num)
    plan.make_steps(ctx)
    rep = f"{pattern_repr(sym)} with {plan.steps}"
    ctx.describe(rep)
    reported(ctx, sym, "pattern")
    tr = c03.Tracker(sym)
    tr.det = det
    applied = []
    for _ in range(ctx.int(0, 4)):
        for s in plan.take(ctx):
            tr.p = sub(ctx, tr.p, s, "pattern")
            ctx.probe("bind-pattern")
        try_run(ctx, tr.p, "pattern", (1, 8))
        name = ctx.weighted([(n, w) for n, _, w in c03.TRANSFORMS])
        p = tr.p
        saved = (tr.back, tr.exact, tr.removed, tr.plus_inputs)
        before = p.copy()
        try:
            q = c03.FN[name](ctx, tr, p)
        except Discard:
            tr.p = before
            tr.back, tr.exact, tr.removed, tr.plus_inputs = saved
            continue
        except (NotImplementedError, ValueError, FlowError, OpenGraphError, XZCorrectionsError, TypeError) as e:
            if not c03.refusal_ok(name, e, before, det, "blochify" in applied):
                raise
            tr.p = before
            tr.back, tr.exact, tr.removed, tr.plus_inputs = saved
            continue
        applied.append(name)
        ctx.describe(f"{'; '.join(applied)} on {rep}")
        tr.p = q
        reported(ctx, q, f"pattern after {name}")
    for s in plan.rest():
        tr.p = sub(ctx, tr.p, s, "pattern")
        ctx.probe("bind-pattern")
    done(ctx, tr.p, rep)
    if plan.used:
        ctx.nontrivial()
    ctx.sched(*applied)
    c03.compare(ctx, num, tr, det, f"{'; '.join(applied)} on {rep}")
    if det and not tr.plus_inputs and ctx.flag(1, 4) and ref.space_needed(list(tr.p), len(tr.p.input_nodes)) <= 9:
        # the real simulator on the bound pattern
        nin = len(num.input_nodes)
        k0 = c03.with_plus(c03.kraus(num, {}), nin)
        if np.linalg.norm(k0) > 1e-5:
            st, _, _ = simulate(tr.p, gen.outcomes(ctx, measured_nodes(tr.p)))
            ctx.check(close_up_to_phase(vec(st), k0.reshape(-1)), "wrong-state", lambda: f"simulation of {pattern_repr(tr.p)} from {'; '.join(applied)} on {rep}")


# ---------------------------------------------------------------- open graphs, flows, corrections, extraction

def opengraphs(ctx):
    plan = Plan(ctx)
    plan.used = False
    num = gen.flow_open_graph(ctx, max_nodes=7, out_cliffords=ctx.flag(1, 3)) if ctx.flag(3, 4) else gen.open_graph(ctx, max_nodes=6, out_cliffords=ctx.flag(1, 3))
    ms, mnum = {}, {}
    for v, m in num.measurements.items():
        if hasattr(m, "plane"):
            s, w = symbolise(ctx, plan, m.angle)
            ms[v], mnum[v] = BlochMeasurement(s, m.plane), BlochMeasurement(w, m.plane)
        else:
            ms[v] = mnum[v] = m
    num = dataclasses.replace(num, measurements=mnum)
    og = dataclasses.replace(num, measurements=ms)
    plan.make_steps(ctx)
    rep = f"{og_repr(og)} with {plan.steps}"
    ctx.describe(rep)
    if plan.used:
        ctx.nontrivial()
    for s in plan.take(ctx):
        og = sub(ctx, og, s, "open graph")
        ctx.probe("bind-og")
    exp = flowref.postselected(num)
    how = ctx.draw(4)
    kind = ctx.pick(["pauli", "gflow", "causal"])
    find = {"pauli": lambda o: o.to_pauliflow_or_none(), "gflow": lambda o: o.to_bloch().to_gflow_or_none(), "causal": lambda o: o.to_bloch().to_causalflow_or_none()}[kind]
    if how == 3:  # circuit extraction
        try:
            c = og.to_circuit()
        except (OpenGraphError, FlowError, NotImplementedError, ValueError):
            try:
                num.to_circuit()
            except (OpenGraphError, FlowError, NotImplementedError, ValueError):
                ctx.log("no extraction")
                return
            raise Violation("refused-symbolic", f"extraction refused for {rep} and not for the numeric graph") from None
        ctx.probe("extraction")
        reported(ctx, c, "extracted circuit")
        for s in plan.rest():
            try_run(ctx, c, "extracted circuit", (1, 6))
            c = sub(ctx, c, s, "circuit")
            ctx.probe("bind-circuit")
        done(ctx, c, rep)
        got, _ = ref.circuit_run(c.instruction, c.width, ref.identity_input(c.width))
        ctx.check(got.size == exp.size and close_up_to_phase(got.reshape(exp.shape), exp), "wrong-map", lambda: f"extracted circuit {circuit_repr(c)} from {rep}: fidelity {fidelity(got, exp) if got.size == exp.size else 0:.6f}")
        return
    flow = find(og)
    ctx.check((flow is None) == (find(num) is None), "flow-depends-on-parameters", lambda: f"{kind} flow existence differs once bound: {rep}")
    if flow is None:
        ctx.log("no flow")
        return
    obj = flow
    for s in plan.take(ctx):
        obj = sub(ctx, obj, s, "flow")
        ctx.probe("bind-flow")
    ctx.check(type(obj) is type(flow) and obj.correction_function == flow.correction_function and list(obj.partial_order_layers) == list(flow.partial_order_layers),
              "flow-changed", lambda: f"substitution changed the flow of {rep}")
    xz = obj.to_xzcorrections()
    for s in plan.take(ctx):
        xz = sub(ctx, xz, s, "corrections")
        ctx.probe("bind-corrections")
    p = xz.to_pattern(flowref.random_layer_order(ctx, xz.og, xz.partial_order_layers) if ctx.draw(2) else None)
    reported(ctx, p, "pattern")
    for s in plan.rest():
        p = sub(ctx, p, s, "pattern")
        ctx.probe("bind-pattern")
    done(ctx, p, rep)
    en = np.linalg.norm(exp)
    for _ in range(2):
        out = gen.outcomes(ctx, measured_nodes(p))
        got = c03.kraus(p, out)
        ctx.check(abs(np.linalg.norm(got) - en) < 1e-6 * max(1, en), "distribution", lambda: f"branch {out}: {pattern_repr(p)} from {rep}")
        ctx.check(close_up_to_phase(got, exp), "wrong-map", lambda: f"branch {out}: fidelity {fidelity(got, exp):.6f}: {pattern_repr(p)} from {rep}")


# ---------------------------------------------------------------- expressions

NUMS = [0, 1, -1, 2, 0.5, -0.25, 3.0, np.float64(0.75), Fraction(1, 3), np.int64(2), True]


def algebra(ctx):
    """Random arithmetic on parameters followed by a substitution history equals the arithmetic on the values."""
    ps = [Placeholder(n) for n in "aab"[: ctx.int(1, 3)]]
    val = {p: value(ctx) for p in ps}
    exact = [True]  # every coefficient met so far is a float without rounding

    def tree(depth):
        """(expression or number, value, text, parameters with non-zero coefficient, rounding hazard)."""
        k = ctx.draw(9) if depth > 0 else ctx.draw(2)
        if k == 0:
            p = ctx.pick(ps)
            return p, val[p], f"p{ps.index(p)}", {p: 1.0}
        if k == 1:
            x = ctx.pick(NUMS)
            return x, float(x), repr(x), {}
        a, va, ta, ca = tree(depth - 1)
        if k == 2:
            return -a, -va, f"-({ta})", {p: -c for p, c in ca.items()}
        if k in (3, 4):
            x = ctx.pick(NUMS)
            f = float(x)
            exact[0] &= (f * 64).is_integer() and abs(f) < 64
            if k == 3:
                if ctx.draw(2):
                    return a * x, va * f, f"({ta})*{x!r}", {p: c * f for p, c in ca.items() if c * f}
                return x * a, va * f, f"{x!r}*({ta})", {p: c * f for p, c in ca.items() if c * f}
            if f == 0:
                f, x = 2.0, 2
            exact[0] &= abs(f) in (0.25, 0.5, 1, 2, 4)
            return a / x, va / f, f"({ta})/{x!r}", {p: c / f for p, c in ca.items()}
        b, vb, tb, cb = tree(depth - 1)
        sg = 1 if k in (5, 6) else -1
        cc = dict(ca)
        for p, c in cb.items():
            cc[p] = cc.get(p, 0) + sg * c
            if abs(cc[p]) < 1e-12:
                del cc[p]
        if len(set(ca) | set(cb)) > 1:
            ctx.fault("two-parameters")
        return (a + b if sg > 0 else a - b), va + sg * vb, f"({ta}){'+' if sg > 0 else '-'}({tb})", cc

    try:
        e, v, t, coef = tree(ctx.int(1, 5))
    except PlaceholderOperationError:
        ctx.probe("placeholder-error")
        if len(ps) == 1:
            raise Violation("refused", "an affine expression in one parameter was refused") from None
        return
    except ZeroDivisionError:
        raise Discard from None
    ctx.describe(f"{t} at {val}")
    ctx.nontrivial()
    free = isinstance(e, Expression)
    if not free:
        ctx.check(not coef, "parameter-lost", lambda: f"{t} is {e!r} although it depends on its parameters")
    elif exact[0]:
        ctx.check(bool(coef), "parameter-kept", lambda: f"{t} is {e!r}, still parameterised although the parameter cancels")
        if not coef:
            ctx.probe("cancelled")
    try:
        e2, v2, t2, _ = tree(ctx.int(1, 2))
        e3, v3, t3, _ = tree(1)
    except (PlaceholderOperationError, ZeroDivisionError):
        pass
    else:
        for (x, vx, tx), (y, vy, ty) in (((e, v, t), (e2, v2, t2)), ((e2, v2, t2), (e3, v3, t3)), ((e, v, t), (e3, v3, t3))):
            if bool(x == y):
                ctx.check(abs(vx - vy) < 1e-7 * max(1, abs(vx)), "equal", lambda: f"{tx} == {ty}, but their values at {val} are {vx} and {vy}")
    for how in range(4):
        r = e
        if how == 0:
            r = with_parameters(r, {p: number(ctx, val[p]) for p in ps})
        elif how == 1:
            for p in ctx.shuffle(ps):
                r = with_parameter(r, p, number(ctx, val[p]))
        elif how == 2:  # the methods themselves
            if isinstance(r, Expression) and ctx.flag(1, 2):
                r = getattr(r, ctx.pick(["with_parameters", "xreplace"]))({p: number(ctx, val[p]) for p in ps})
            for p in ctx.shuffle(ps):
                if isinstance(r, Expression):
                    r = getattr(r, ctx.pick(["with_parameter", "subs"]))(p, number(ctx, val[p]))
        else:
            q = Placeholder("a")
            for p in ps:
                k = ctx.pick([1, -1, 2])
                r = with_parameter(r, p, k * q + (val[p] - k * 0.7))
            r = with_parameter(r, q, number(ctx, 0.7))
        ctx.check(not isinstance(r, Expression), "parameter-left", lambda: f"{t} with everything bound is {r!r}")
        ctx.check(abs(complex(r) - v) < 1e-9 * max(1, abs(v)) * 100, "wrong-value", lambda: f"{t} at {val} is {r!r}, expected {v}")
    ctx.log(t, str(v))


# ---------------------------------------------------------------- symbolic density matrices

def density(ctx):
    plan = Plan(ctx, sym=True)
    plan.used = False
    num = gen.general_pattern(ctx, max_nodes=4, max_live=2, max_ops=8, states=ctx.flag(1, 3), min_out=1)
    num = copy.deepcopy(num)
    if ref.space_needed(list(num), len(num.input_nodes)) > 2 or not num.output_nodes:
        raise Discard
    sym = sym_pattern(ctx, plan, num)
    plan.make_steps(ctx)
    rep = f"{pattern_repr(sym)} with {plan.steps}"
    ctx.describe(rep)
    if plan.used:
        ctx.nontrivial()
    mm = DefaultMeasureMethod()
    mn = measured_nodes(num)
    out = gen.outcomes(ctx, mn)

    class Sel(ScriptSelector):
        def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
            self.taken[qubit] = out[qubit]
            return out[qubit]

    nin = len(num.input_nodes)
    e = c03.with_plus(c03.kraus(num, out), nin).reshape(-1)
    w = float(np.vdot(e, e).real)
    if w < 1e-4:
        ctx.log("impossible branch")
        return
    for s in plan.take(ctx):
        sym = sub(ctx, sym, s, "pattern")
    st = sym.simulate(DensityMatrixBackend(branch_selector=Sel(), symbolic=True), rng=np.random.default_rng(0), measure_method=mm)
    exp = np.outer(e, e.conj()) / w
    for s in plan.rest():
        before = st.rho.copy()
        inplace = ctx.draw(2)
        single = len(s) == 1 and ctx.draw(2)
        if single:
            (p, v), = s.items()
            r = st.replace_parameter(p, v, copy=not inplace) if ctx.draw(2) else (st.replace_parameter(p, v) if inplace else st.with_parameter(p, v))
        else:
            r = st.replace_parameters(s, copy=not inplace) if ctx.draw(2) else (st.replace_parameters(s) if inplace else st.with_parameters(s))
        if inplace:
            ctx.check(r is st, "in-place", lambda: "in-place substitution in a density matrix returned another object")
        else:
            ctx.check(st.rho.shape == before.shape and all(a is b or a == b for a, b in zip(st.rho.reshape(-1), before.reshape(-1))), "source-changed", lambda: f"substitution with a copy changed the state: {rep}")
        st = r
    ctx.probe("density-matrix")
    got = st.rho
    ctx.check(not any(isinstance(x, Expression) for x in got.reshape(-1)), "parameter-left", lambda: f"{got} after substituting everything: {rep}")
    got = np.asarray(got, dtype=complex)
    ctx.check(np.allclose(got, exp, atol=1e-6), "wrong-state", lambda: f"branch {out}: density matrix {np.round(got, 5).tolist()} expected {np.round(exp, 5).tolist()}: {rep}")


SCENARIOS = [("circuits", circuits, 5), ("rewriting", rewriting, 6), ("opengraphs", opengraphs, 4), ("algebra", algebra, 3), ("density", density, 1)]
