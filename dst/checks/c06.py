"""C06: noise models inject exactly the declared faults."""

from __future__ import annotations

import math

import numpy as np

from dst import gen, ref, refdm
from dst.core import Discard, Violation, close_up_to_phase
from dst.gx import DefaultMeasureMethod, DensityMatrix, Pattern, ScriptSelector, Statevector, command, measured_nodes, pattern_key, pattern_repr, vec
from dst.seams import TOP, scripted_rng

from graphix import channels
from graphix.channels import KrausChannel, KrausData
from graphix.noise_models import ApplyNoise, ComposeNoiseModel, DepolarisingNoiseModel, NoiseModel
from graphix.noise_models.amplitude_damping import AmplitudeDampingNoise, AmplitudeDampingNoiseModel, TwoQubitAmplitudeDampingNoise
from graphix.noise_models.depolarising import DepolarisingNoise, TwoQubitDepolarisingNoise
from graphix.noise_models.noise_model import Noise, NoiselessNoiseModel

LEVEL = "exploration"
QUICK_RUNS = 25000
THOROUGH_RUNS = 600000
REAL = ["graphix.noise_models", "graphix.channels", "graphix.simulator", "graphix.sim.density_matrix", "graphix.sim.base_backend", "graphix.sim.statevec"]
STUB = ["branch selection (scripted outcome histories)", "random bits of readout faults (scripted bit generator)",
        "caller-supplied noise models (scripted fault sites)"]
RULE = ("random patterns (<=5 live nodes) on random inputs under built-in, composed and scripted noise models with random fault sites, domains, "
        "probabilities (0, 1 and between) and readout flips; random channels on random states; non-trivial = at least one fault of non-zero probability")
ASSUMPTIONS = ["reference channels and placements in dst/refdm.py and this file follow the documentation", "at most 5 simultaneous nodes"]
REQUIRED_PROBES = ("depolarising", "damping", "compose", "readout-flip", "correction-noise-fired", "correction-noise-idle", "zero-noise",
                   "injected-unitary", "injected-mixture", "channel", "bad-probability", "flip-feeds-domain")

FIELDS = ["prepare_error_prob", "x_error_prob", "z_error_prob", "entanglement_error_prob", "measure_channel_prob", "measure_error_prob"]


def prob(ctx):
    k = ctx.draw(5)
    if k == 0:
        return 0.0
    if k == 1:
        return 1.0
    if k == 2:
        return ctx.pick([0, 1, 0.5, 0.25, 0.75])
    return ctx.int(1, 999) / 1000.0


class MDesc:
    """Plain description of a noise model."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return f"{self.kind}({ {k: v for k, v in self.__dict__.items() if k != 'kind'} })"


def draw_model(ctx, depth=0):
    k = ctx.draw(5 if depth < 2 else 3)
    if k == 0:
        k2 = ctx.draw(4)
        if k2 == 3:
            return MDesc("noiseless")
    if k <= 2:
        p = {f: 0.0 for f in FIELDS}
        for f in FIELDS:
            if ctx.flag(1, 2):
                p[f] = prob(ctx)
        return MDesc("depol" if k != 1 else "damp", p=p)
    return MDesc("compose", models=[draw_model(ctx, depth + 1) for _ in range(ctx.int(0, 3))])


def build(ctx, d):
    if d.kind == "noiseless":
        return NoiselessNoiseModel()
    if d.kind == "compose":
        ctx.probe("compose")
        return ComposeNoiseModel([build(ctx, m) for m in d.models])
    ctx.probe("depolarising" if d.kind == "depol" else "damping")
    cls = DepolarisingNoiseModel if d.kind == "depol" else AmplitudeDampingNoiseModel
    kw = {f: v for f, v in d.p.items() if v != 0.0}
    return cls(**kw)


def leaves(d):
    if d.kind == "compose":
        return [x for m in d.models for x in leaves(m)]
    return [d]


# fault sites of the reference: list of ("cmd", command) | ("noise", kraus ops, nodes, domain|None)

def ref_sites(d, cmd):
    """Documented placement: after N, E, X and Z; before M; correction noise only when the correction fires."""
    if d.kind == "noiseless" or cmd[0] != "cmd":
        return [cmd]
    one, two = (refdm.depol1, refdm.depol2) if d.kind == "depol" else (refdm.ad1, refdm.ad2)
    c = cmd[1]
    k = c.kind.name
    p = d.p
    if k == "N":
        return [cmd, ("noise", one(p["prepare_error_prob"]), [c.node], None, p["prepare_error_prob"])]
    if k == "E":
        return [cmd, ("noise", two(p["entanglement_error_prob"]), list(c.nodes), None, p["entanglement_error_prob"])]
    if k == "M":
        return [("noise", one(p["measure_channel_prob"]), [c.node], None, p["measure_channel_prob"]), cmd]
    if k == "X":
        return [cmd, ("noise", one(p["x_error_prob"]), [c.node], set(c.domain), p["x_error_prob"])]
    if k == "Z":
        return [cmd, ("noise", one(p["z_error_prob"]), [c.node], set(c.domain), p["z_error_prob"])]
    return [cmd]


def ref_program(d, pattern, with_inputs=True):
    seq = []
    ls = leaves(d)
    if with_inputs:
        for leaf in ls:
            if leaf.kind != "noiseless":
                one = refdm.depol1 if leaf.kind == "depol" else refdm.ad1
                seq += [("noise", one(leaf.p["prepare_error_prob"]), [n], None, leaf.p["prepare_error_prob"]) for n in pattern.input_nodes]
    body = [("cmd", c) for c in pattern]
    for leaf in ls:
        body = [y for x in body for y in ref_sites(leaf, x)]
    return seq + body


def ref_execute(ctx, inputs, rho, program, taken, flips, probes=True):
    """Reference execution; returns (DM, recorded, p0 per node)."""
    dm = refdm.DM(inputs, rho)
    rec, p0 = {}, {}

    def par(dom):
        return sum(rec[v] for v in dom) & 1

    for item in program:
        if item[0] == "noise":
            _, ops, nodes, dom, p = item
            if dom is not None:
                on = par(dom)
                if p and probes:
                    ctx.sched("conditional-noise", nodes, on)
                    ctx.probe("correction-noise-fired" if on else "correction-noise-idle")
                if not on:
                    continue
            if p and probes:
                ctx.faults["channel-fault"] += 1
                ctx.sched("noise", nodes, len(ops))
                ctx.nontrivial()
            dm.kraus(ops, nodes)
            continue
        c = item[1]
        k = c.kind.name
        if k == "N":
            dm.prep(c.node, ref.state_vec(c.state))
        elif k == "E":
            dm.kraus([ref.CZ4], list(c.nodes))
        elif k == "M":
            x, y, z = ref.meas_vector(c.measurement)
            if par(c.s_domain):
                y, z = -y, -z
            if par(c.t_domain):
                x, y = -x, -y
            v = (x, y, z)
            p0[c.node] = dm.p0(c.node, v)
            r = taken[c.node]
            if (p0[c.node] if r == 0 else 1 - p0[c.node]) < 1e-9:
                raise Violation("impossible-outcome", f"outcome {r} of {c.node} taken at probability of 0 being {p0[c.node]}")
            dm.measure(c.node, v, r)
            rec[c.node] = r ^ flips.get(c.node, 0)
        elif k == "X":
            if par(c.domain):
                dm.kraus([ref.PX], [c.node])
        elif k == "Z":
            if par(c.domain):
                dm.kraus([ref.PZ], [c.node])
        elif k == "C":
            dm.kraus([ref.clifford_matrix(c.clifford)], [c.node])
    return dm, rec, p0


def valid(ctx, rho, what):
    ctx.check(abs(np.trace(rho) - 1) < 1e-8, "invalid-state", lambda: f"{what}: trace {np.trace(rho)}")
    ctx.check(np.abs(rho - rho.conj().T).max() < 1e-8, "invalid-state", lambda: f"{what}: not Hermitian")
    ctx.check(np.linalg.eigvalsh((rho + rho.conj().T) / 2).min() > -1e-8, "invalid-state", lambda: f"{what}: not positive")


def draw_pattern(ctx):
    k = ctx.draw(4)
    if k == 0:
        c = gen.circuit(ctx, max_width=2, max_depth=3, ccx=False, measures=True)
        p = c.transpile().pattern
        if p.max_space() > 5:
            p = p.minimize_space()
    elif k == 1:
        og = gen.flow_open_graph(ctx, max_nodes=6)
        f = og.to_gflow_or_none() if False else og.to_pauliflow_or_none()
        if f is None:
            raise Discard
        p = f.to_xzcorrections().to_pattern()
        try:
            p = p.minimize_space()
        except NotImplementedError:
            raise Discard from None
    else:
        p = gen.general_pattern(ctx, max_nodes=6, max_live=4, e_after_c=True)
        if ctx.flag(1, 3):
            cmds = list(p)
            cmds.insert(ctx.draw(len(cmds) + 1), command.T())
            outs = list(p.output_nodes)
            p = Pattern(input_nodes=p.input_nodes, cmds=cmds, output_nodes=outs)
    if ref.space_needed(list(p), len(p.input_nodes)) > 5:
        raise Discard
    return p


def dm_input(ctx, n):
    """(value passed as input_state, reference density matrix)."""
    if n and ctx.flag(1, 4):
        v, w = gen.random_unit_vector(ctx, 2**n), gen.random_unit_vector(ctx, 2**n)
        q = ctx.int(0, 10) / 10
        rho = q * np.outer(v, v.conj()) + (1 - q) * np.outer(w, w.conj())
        return DensityMatrix(rho), rho
    inp, v = gen.input_state(ctx, n)
    return inp, np.outer(v, v.conj())


class Readout:
    """Scripted random bits: the unit draw in force when a given node is measured."""

    def __init__(self, ctx, nodes):
        self.u = {n: (ctx.pick([0, TOP]) if ctx.flag(1, 3) else int(ctx.draw(1 << 20)) << 33) for n in nodes}
        self.now = 0
        self.rng, self.bits = scripted_rng(lambda: self.now)

    def at(self, node):
        self.now = self.u[node]

    def unit(self, node):
        return self.u[node] / float(1 << 53)


def run_real(ctx, p, model, out, inp, readout=None, backend="densitymatrix"):
    rd = readout or Readout(ctx, measured_nodes(p))
    sel = ScriptSelector(out, on_measure=rd.at)
    mm = DefaultMeasureMethod()
    kw = {} if inp is None else {"input_state": inp}
    if model is not None:
        kw["noise_model"] = model
    st = p.simulate(backend, branch_selector=sel, measure_method=mm, rng=rd.rng, **kw)
    return st, dict(mm.results), sel


def compare(ctx, p, what, st, res, sel, dm, rec, p0):
    rho = vec(st)
    valid(ctx, rho, what)
    ctx.check(res == rec, "recorded-outcomes", lambda: f"{what}: recorded {res}, expected {rec} (selected {sel.taken})")
    for n, q in p0.items():
        ctx.check(abs(sel.p0[n] - q) < 1e-7, "outcome-probability", lambda: f"{what}: outcome 0 of {n} offered at {sel.p0[n]:.8f}, expected {q:.8f}")
    exp = dm.order(list(p.output_nodes))
    ctx.check(np.abs(rho - exp).max() < 1e-7, "different-state", lambda: f"{what}: state differs by {np.abs(rho - exp).max():.3g}")


def builtin(ctx):
    """Built-in and composed models against the exact average over fault trajectories."""
    p = draw_pattern(ctx)
    d = draw_model(ctx)
    key = pattern_key(p)
    what = f"{d} on {pattern_repr(p)}"
    ctx.describe(what)
    model = build(ctx, d)
    meas = measured_nodes(p)
    out = gen.outcomes(ctx, meas)
    inp, rho = dm_input(ctx, len(p.input_nodes))
    rd = Readout(ctx, meas)
    flips = {}
    for leaf in leaves(d):
        if leaf.kind != "noiseless":
            for n in meas:
                if abs(rd.unit(n) - leaf.p["measure_error_prob"]) < 1e-9 and rd.u[n] not in (0, TOP):
                    raise Discard
                if rd.unit(n) < leaf.p["measure_error_prob"]:
                    flips[n] = flips.get(n, 0) ^ 1
    nflip = sum(flips.values())
    if nflip:
        ctx.fault("readout-flip", nflip)
        ctx.probe("readout-flip", nflip)
        ctx.nontrivial()
        if any(flips.get(v) for c in p if c.kind.name in "MXZ" for v in (set(c.s_domain) | set(c.t_domain) if c.kind.name == "M" else c.domain)):
            ctx.probe("flip-feeds-domain")
    st, res, sel = run_real(ctx, p, model, out, inp, rd)
    ctx.sched(*[sel.taken[n] for n in sel.order])
    dm, rec, p0 = ref_execute(ctx, p.input_nodes, rho, ref_program(d, p), sel.taken, flips)
    ctx.log(d.kind, sorted(res.items()), np.round(dm.rho, 6).tobytes() and round(float(np.trace(dm.rho @ dm.rho).real), 6))
    compare(ctx, p, what, st, res, sel, dm, rec, p0)
    ctx.check(pattern_key(p) == key, "source-mutated", "simulation with noise changes the pattern")
    if all(not any(leaf.p.values()) for leaf in leaves(d) if leaf.kind != "noiseless"):
        # all probabilities zero: the noiseless result, bit for bit the same history
        ctx.probe("zero-noise")
        ctx.trivial = ctx.trivial and not meas
        st0, res0, sel0 = run_real(ctx, p, None, dict(sel.taken), inp)
        ctx.check(res0 == res and np.abs(vec(st0) - vec(st)).max() < 1e-8, "zero-noise", lambda: f"{what}: zero-probability noise differs from no noise")
        if not isinstance(inp, DensityMatrix):
            st1, res1, _ = run_real(ctx, p, None, dict(sel.taken), inp, backend="statevector")
            v = vec(st1)
            ctx.check(res1 == res and np.abs(np.outer(v, v.conj()) - vec(st)).max() < 1e-7, "zero-noise", lambda: f"{what}: zero-probability noise differs from the state vector")
    if ctx.flag(1, 3):
        # a model may be reused
        st2, res2, sel2 = run_real(ctx, p, model, out, inp, rd)
        ctx.check(res2 == res and np.array_equal(vec(st2), vec(st)), "model-reuse", lambda: f"{what}: second run with the same model differs")


# ------------------------------------------------------------- injected faults

class Fault(Noise):
    """A caller-supplied noise element: a mixture of unitaries."""

    def __init__(self, mixture, n):
        self.mixture = mixture
        self.n = n

    @property
    def nqubits(self):
        return self.n

    def to_krauschannel(self):
        return KrausChannel([KrausData(complex(math.sqrt(w)), u) for w, u in self.mixture])


class Scripted(NoiseModel):
    """Faults scripted per command index; keeps and reuses its own lists."""

    def __init__(self, pre, before, after, flips):
        self.pre, self.before, self.after, self.flips = pre, before, after, flips
        self.i = 0
        self.confused = []

    def input_nodes(self, nodes, rng=None, *, stacklevel=1):
        return self.pre

    def command(self, cmd, rng=None, *, stacklevel=1):
        i = self.i
        self.i += 1
        return [*self.before.get(i, ()), cmd, *self.after.get(i, ())]

    def confuse_result(self, cmd, result, rng=None, *, stacklevel=1):
        self.confused.append(cmd.node)
        return result ^ self.flips.get(cmd.node, 0)


def random_unitary(ctx, dim):
    if dim == 2 and ctx.flag(1, 2):
        return ctx.pick([ref.PX, ref.PZ, ref.PY, ref.H, ref.S])
    if dim == 4 and ctx.flag(1, 2):
        return np.kron(ctx.pick([ref.PX, ref.PZ, ref.I2]), ctx.pick([ref.PY, ref.PZ, ref.H]))
    r = np.random.default_rng(ctx.npseed())
    q, _ = np.linalg.qr(r.normal(size=(dim, dim)) + 1j * r.normal(size=(dim, dim)))
    return q


def injected(ctx):
    """Scripted fault sites, domains and readout flips through a caller-supplied model (optionally composed)."""
    p = draw_pattern(ctx)
    cmds = list(p)
    live = list(p.input_nodes)
    done = []
    mixture = ctx.flag(1, 2)

    def site(live, done):
        n = 2 if len(live) >= 2 and ctx.flag(1, 3) else 1
        nodes = ctx.shuffle(live)[:n]
        if mixture and ctx.flag(1, 2):
            w = ctx.int(1, 9) / 10
            mix = [(w, random_unitary(ctx, 2**n)), (1 - w, random_unitary(ctx, 2**n))]
            ctx.probe("injected-mixture")
        else:
            mix = [(1.0, random_unitary(ctx, 2**n))]
            ctx.probe("injected-unitary")
        dom = set(ctx.subset(done)) if ctx.flag(1, 2) else None
        ctx.fault("injected-fault")
        ops = [math.sqrt(w) * u for w, u in mix]
        return ApplyNoise(noise=Fault(mix, n), nodes=nodes, domain=dom), ("noise", ops, nodes, None if dom is None else set(dom), 1.0)

    pre, before, after, prog = [], {}, {}, []

    def at(dst, i, live, done):
        if live and ctx.flag(1, 5):
            a, r = site(live, done)
            (dst if i is None else dst.setdefault(i, [])).append(a)
            prog.append(r)

    at(pre, None, live, done)
    for i, c in enumerate(cmds):
        at(before, i, live, done)
        prog.append(("cmd", c))
        k = c.kind.name
        if k == "N":
            live.append(c.node)
        elif k == "M":
            live.remove(c.node)
            done.append(c.node)
        at(after, i, live, done)
    flips = {n: 1 for n in done if ctx.flag(1, 3)}
    if flips:
        ctx.fault("readout-flip", len(flips))
        ctx.probe("readout-flip", len(flips))
    npre = len(pre)
    model = Scripted(pre, before, after, flips)
    what = f"scripted faults (before {sorted(before)}, after {sorted(after)}, flips {sorted(flips)}) on {pattern_repr(p)}"
    ctx.describe(what)
    used = model
    if ctx.flag(1, 4):
        used = ComposeNoiseModel(ctx.shuffle([model, NoiselessNoiseModel()]))
    out = gen.outcomes(ctx, done)
    inp, rho = dm_input(ctx, len(p.input_nodes))
    st, res, sel = run_real(ctx, p, used, out, inp)
    ctx.sched(*[sel.taken[n] for n in sel.order])
    dm, rec, p0 = ref_execute(ctx, p.input_nodes, rho, prog, sel.taken, flips)
    ctx.log(sorted(res.items()), round(float(np.trace(dm.rho @ dm.rho).real), 6))
    compare(ctx, p, what, st, res, sel, dm, rec, p0)
    ctx.check(model.confused == done, "readout-once", lambda: f"{what}: readout noise consulted for {model.confused}, measured {done}")
    if before or after or pre or flips:
        ctx.nontrivial()
    ctx.check(len(pre) == npre, "model-mutated", lambda: f"{what}: the simulation changed the noise model's own list of input faults")


# ------------------------------------------------------------- channels

def channel_cases(ctx):
    p = prob(ctx)
    k = ctx.draw(7)
    if k == 0:
        return f"dephasing_channel({p})", lambda: channels.dephasing_channel(p), refdm.pauli_kraus(0, 0, p)
    if k == 1:
        return f"depolarising_channel({p})", lambda: channels.depolarising_channel(p), refdm.depol1(p)
    if k == 2:
        w = [ctx.int(0, 10) for _ in range(4)]
        t = sum(w) or 1
        px, py, pz = (x / t for x in w[:3])
        if px + py + pz > 1:
            raise Discard
        return f"pauli_channel({px}, {py}, {pz})", lambda: channels.pauli_channel(px, py, pz), refdm.pauli_kraus(px, py, pz)
    if k == 3:
        return f"two_qubit_depolarising_channel({p})", lambda: channels.two_qubit_depolarising_channel(p), refdm.depol2(p)
    if k == 4:
        d = refdm.depol1(p)
        return f"two_qubit_depolarising_tensor_channel({p})", lambda: channels.two_qubit_depolarising_tensor_channel(p), [np.kron(a, b) for a in d for b in d]
    if k == 5:
        return f"amplitude_damping_channel({p})", lambda: channels.amplitude_damping_channel(p), refdm.ad1(p)
    return f"two_qubit_amplitude_damping_channel({p})", lambda: channels.two_qubit_amplitude_damping_channel(p), refdm.ad2(p)


def channel(ctx):
    """Every offered channel is trace preserving and acts as documented, wherever it strikes."""
    k = ctx.draw(8)
    if k == 7:
        return bad_channel(ctx)
    if k == 6:
        p = prob(ctx)
        cls, f = ctx.pick([(DepolarisingNoise, refdm.depol1), (TwoQubitDepolarisingNoise, refdm.depol2), (AmplitudeDampingNoise, refdm.ad1), (TwoQubitAmplitudeDampingNoise, refdm.ad2)])
        noise = cls(p)
        name, ops = f"{cls.__name__}({p})", f(p)
        ctx.check(noise.nqubits == (1 if ops[0].shape[0] == 2 else 2), "nqubits", name)
        ch = noise.to_krauschannel()
    elif k == 5:
        n = ctx.int(1, 2)
        m = ctx.int(1, 4**n)
        r = np.random.default_rng(ctx.npseed())
        a = r.normal(size=(m * 2**n, 2**n)) + 1j * r.normal(size=(m * 2**n, 2**n))
        q, _ = np.linalg.qr(a)
        ops = [q[i * 2**n:(i + 1) * 2**n] for i in range(m)]
        cs = [np.exp(1j * r.uniform(0, 6)) * r.uniform(0.5, 2) for _ in range(m)]
        name = f"KrausChannel({m} operators on {n} qubits)"
        ch = KrausChannel([KrausData(complex(c), o / c) for c, o in zip(cs, ops)])
    else:
        name, mk, ops = channel_cases(ctx)
        ch = mk()
    ctx.describe(name)
    ctx.probe("channel")
    ctx.nontrivial()
    n = int(math.log2(ops[0].shape[0]))
    ctx.check(ch.nqubit == n, "nqubits", lambda: f"{name} acts on {ch.nqubit} qubits")
    got = [complex(kd.coef) * np.asarray(kd.operator) for kd in ch]
    tp = sum(g.conj().T @ g for g in got)
    ctx.check(np.abs(tp - np.eye(2**n)).max() < 1e-7, "trace-preserving", lambda: f"{name} is not trace preserving")
    dim = 2**n
    r = np.random.default_rng(ctx.npseed())
    m = r.normal(size=(dim, dim)) + 1j * r.normal(size=(dim, dim))
    ctx.check(np.abs(refdm.apply_kraus(got, m) - refdm.apply_kraus(ops, m)).max() < 1e-7, "channel-action", lambda: f"{name} does not act as documented")
    # on part of a larger state
    tot = ctx.int(n, 4)
    where = ctx.shuffle(list(range(tot)))[:n]
    if isinstance(where, list) and ctx.flag(1, 2):
        where = tuple(where)
    v, w = gen.random_unit_vector(ctx, 2**tot), gen.random_unit_vector(ctx, 2**tot)
    rho = 0.3 * np.outer(v, v.conj()) + 0.7 * np.outer(w, w.conj())
    dm = DensityMatrix(rho)
    dm.apply_channel(ch, where)
    exp = refdm.DM(list(range(tot)), rho)
    exp.kraus(ops, list(where))
    ctx.log(name, list(where), tot)
    ctx.fault("channel-fault")
    ctx.check(np.abs(dm.rho - exp.rho).max() < 1e-7, "channel-action", lambda: f"{name} on qubits {list(where)} of {tot}: state differs")
    valid(ctx, np.array(dm.rho), name)


def bad_channel(ctx):
    """Probabilities outside [0, 1] and channels that lose trace are refused."""
    ctx.probe("bad-probability")
    ctx.nontrivial()
    k = ctx.draw(4)
    if k == 3:
        n = ctx.int(1, 2)
        m = 4**n + ctx.int(1, 3)
        u = random_unitary(ctx, 2**n)
        name, f = f"KrausChannel of {m} operators on {n} qubits", lambda: KrausChannel([KrausData(1 / math.sqrt(m), u) for _ in range(m)])
    elif k == 0:
        q = ctx.pick([-0.1, 1.1, -1e-3, 2, 1.0001])
        cls = ctx.pick([DepolarisingNoise, TwoQubitDepolarisingNoise, AmplitudeDampingNoise, TwoQubitAmplitudeDampingNoise])
        name, f = f"{cls.__name__}({q})", lambda: cls(q)
    elif k == 1:
        q = ctx.pick([0.5, 0.9, 1.2])
        n = ctx.int(1, 2)
        u = random_unitary(ctx, 2**n)
        name, f = f"KrausChannel of norm {q}", lambda: KrausChannel([KrausData(q, u)])
    else:
        px = ctx.int(5, 10) / 10
        name, f = f"pauli_channel({px}, 0.4, 0.3)", lambda: channels.pauli_channel(px, 0.4, 0.3)
    ctx.describe(name)
    ctx.log(name)
    try:
        f()
    except ValueError:
        return
    raise Violation("bad-accepted", f"{name} is accepted")


SCENARIOS = [("builtin", builtin, 5), ("injected", injected, 4), ("channel", channel, 2)]
