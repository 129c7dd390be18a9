"""Independent reference semantics (numpy only): circuits, patterns, noise.

Nothing here calls graphix code; it only reads the plain data of commands and instructions
(kinds, nodes, angles, domains).
"""

from __future__ import annotations

import json
import math
import os

import numpy as np

from dst.core import TooBig

SQ = 1 / math.sqrt(2)
I2 = np.eye(2, dtype=complex)
PX = np.array([[0, 1], [1, 0]], dtype=complex)
PY = np.array([[0, -1j], [1j, 0]], dtype=complex)
PZ = np.array([[1, 0], [0, -1]], dtype=complex)
PAULI = {"I": I2, "X": PX, "Y": PY, "Z": PZ}
H = np.array([[SQ, SQ], [SQ, -SQ]], dtype=complex)
S = np.array([[1, 0], [0, 1j]], dtype=complex)

# ------------------------------------------------------------------ states

BASIC = {
    "PLUS": np.array([SQ, SQ], dtype=complex),
    "MINUS": np.array([SQ, -SQ], dtype=complex),
    "ZERO": np.array([1, 0], dtype=complex),
    "ONE": np.array([0, 1], dtype=complex),
    "PLUS_I": np.array([SQ, 1j * SQ], dtype=complex),
    "MINUS_I": np.array([SQ, -1j * SQ], dtype=complex),
}


def bloch_vector(plane, angle):
    """Unit vector of the +1 eigenstate of a planar measurement; angle in units of pi."""
    c, s = math.cos(math.pi * angle), math.sin(math.pi * angle)
    if plane == "XY":
        return (c, s, 0.0)
    if plane == "YZ":
        return (0.0, s, c)
    if plane == "XZ":
        return (s, 0.0, c)
    raise KeyError(plane)


def eigvec(vec, r):
    """Eigenvector for outcome r (0: along vec, 1: opposite)."""
    x, y, z = vec if r == 0 else tuple(-v for v in vec)
    if z > -0.5:
        a = math.sqrt((1 + z) / 2)
        return np.array([a, (x + 1j * y) / (2 * a)], dtype=complex)
    b = math.sqrt((1 - z) / 2)
    return np.array([(x - 1j * y) / (2 * b), b], dtype=complex)


def meas_vector(m):
    """Bloch vector of a graphix Measurement, from its plain data."""
    if hasattr(m, "plane"):
        return bloch_vector(m.plane.name, float(m.angle))
    sg = 1.0 if m.sign.name == "PLUS" else -1.0
    return {"X": (sg, 0.0, 0.0), "Y": (0.0, sg, 0.0), "Z": (0.0, 0.0, sg)}[m.axis.name]


def state_vec(st):
    """Vector of a single-qubit state object, from its plain data (plane, angle in units of pi)."""
    if hasattr(st, "plane"):
        return eigvec(bloch_vector(st.plane.name, float(st.angle)), 0)
    return np.asarray(st.to_statevector_numpy(), dtype=complex).reshape(-1)


# The 24 single-qubit Cliffords, frozen from the documented table (checked to be a 24-element group).
_CLIFF = {
    k: np.array([complex(*z) for z in v]).reshape(2, 2)
    for k, v in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "clifford_ref.json"))).items()
}


def clifford_matrix(c):
    """Matrix of a graphix Clifford, up to phase, by its table name."""
    return _CLIFF[c.name]


# ------------------------------------------------------------------ tensors

def apply1(psi, u, ax):
    psi = np.tensordot(u, psi, axes=(1, ax))
    return np.moveaxis(psi, 0, ax)


def apply_cz(psi, a, b):
    psi = psi.copy()
    idx = [slice(None)] * psi.ndim
    idx[a] = 1
    idx[b] = 1
    psi[tuple(idx)] *= -1
    return psi


def apply2(psi, u4, a, b):
    """u4 acts on (a, b) with a the most significant."""
    u = u4.reshape(2, 2, 2, 2)
    psi = np.tensordot(u, psi, axes=((2, 3), (a, b)))
    return np.moveaxis(psi, (0, 1), (a, b))


def applyk(psi, u, axes):
    k = len(axes)
    u = np.asarray(u, dtype=complex).reshape((2,) * (2 * k))
    psi = np.tensordot(u, psi, axes=(tuple(range(k, 2 * k)), tuple(axes)))
    return np.moveaxis(psi, tuple(range(k)), tuple(axes))


# ------------------------------------------------------------------ circuits

def rz(a):
    return np.diag([np.exp(-0.5j * math.pi * a), np.exp(0.5j * math.pi * a)])


def rx(a):
    return math.cos(math.pi * a / 2) * I2 - 1j * math.sin(math.pi * a / 2) * PX


def ry(a):
    return math.cos(math.pi * a / 2) * I2 - 1j * math.sin(math.pi * a / 2) * PY


def jmat(a):
    """J(a) = H . diag(1, exp(i pi a))."""
    return H @ np.diag([1, np.exp(1j * math.pi * a)])


CNOT4 = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], dtype=complex)
SWAP4 = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)
CZ4 = np.diag([1, 1, 1, -1]).astype(complex)
CCX8 = np.eye(8, dtype=complex)
CCX8[[6, 7]] = CCX8[[7, 6]]


def gate_unitary(instr):
    """(matrix, qubits) of a graphix instruction (not M), first qubit most significant."""
    k = instr.kind.name
    if k == "CCX":
        return CCX8, (instr.controls[0], instr.controls[1], instr.target)
    if k == "RZZ":
        a = math.pi * float(instr.angle) / 2
        d = np.diag([np.exp(-1j * a), np.exp(1j * a), np.exp(1j * a), np.exp(-1j * a)])
        return d, (instr.control, instr.target)
    if k == "CNOT":
        return CNOT4, (instr.control, instr.target)
    if k == "CZ":
        return CZ4, tuple(instr.targets)
    if k == "SWAP":
        return SWAP4, tuple(instr.targets)
    single = {"H": H, "S": S, "X": PX, "Y": PY, "Z": PZ, "I": I2}
    if k in single:
        return single[k], (instr.target,)
    rot = {"RX": rx, "RY": ry, "RZ": rz, "J": jmat}
    if k in rot:
        return rot[k](float(instr.angle)), (instr.target,)
    raise KeyError(k)


def circuit_run(instrs, width, psi, outcomes=None):
    """Run a circuit on tensor `psi` (first `width` axes are qubits, the rest are reference axes).

    `outcomes`: list of outcomes for the M instructions in gate order.
    Returns (tensor with measured axes removed, remaining qubit list); unnormalised.
    """
    live = list(range(width))
    it = iter(outcomes or ())
    for ins in instrs:
        if ins.kind.name == "M":
            r = next(it)
            ax = live.index(ins.target)
            v = {"X": (1.0, 0, 0), "Y": (0, 1.0, 0), "Z": (0, 0, 1.0)}[ins.axis.name]
            psi = np.tensordot(np.conj(eigvec(v, r)), psi, axes=(0, ax))
            live.remove(ins.target)
        else:
            u, qs = gate_unitary(ins)
            psi = applyk(psi, u, [live.index(q) for q in qs])
    return psi, live


# ------------------------------------------------------------------ patterns

class RefError(Exception):
    pass


class RefRun:
    """Step-by-step reference execution of MBQC commands on a state vector tensor.

    Axes: one per live node (self.nodes), then any number of reference axes.
    """

    def __init__(self, input_nodes, psi=None, nref=0):
        n = len(input_nodes)
        self.nodes = list(input_nodes)
        if psi is None:
            psi = np.ones((), dtype=complex)
            for _ in range(n):
                psi = np.multiply.outer(psi, BASIC["PLUS"])
        self.psi = np.asarray(psi, dtype=complex).reshape((2,) * (n + nref))
        self.out = {}
        self.nmax = n
        self.weights = []

    def ax(self, node):
        try:
            return self.nodes.index(node)
        except ValueError:
            raise RefError(f"node {node} is not live") from None

    def parity(self, domain):
        p = 0
        for d in domain:
            if d not in self.out:
                raise RefError(f"outcome of {d} not known")
            p ^= self.out[d]
        return p

    def prep(self, node, vec):
        if node in self.nodes or node in self.out:
            raise RefError(f"node {node} prepared twice")
        self.psi = np.multiply.outer(np.asarray(vec, dtype=complex), self.psi)
        self.nodes.insert(0, node)
        self.nmax = max(self.nmax, len(self.nodes))

    def entangle(self, a, b):
        if a == b:
            raise RefError("self-entangle")
        self.psi = apply_cz(self.psi, self.ax(a), self.ax(b))

    def gate(self, node, u):
        self.psi = apply1(self.psi, u, self.ax(node))

    def bloch(self, cmd):
        """Bloch vector actually measured, after byproduct X^s Z^t."""
        x, y, z = meas_vector(cmd.measurement)
        if self.parity(cmd.s_domain):
            y, z = -y, -z
        if self.parity(cmd.t_domain):
            x, y = -x, -y
        return (x, y, z)

    def p0(self, vec, node):
        a = self.ax(node)
        n2 = float(np.vdot(self.psi, self.psi).real)
        if n2 < 1e-24:
            return 0.5  # impossible history
        k = np.tensordot(np.conj(eigvec(vec, 0)), self.psi, axes=(0, a))
        return float(np.vdot(k, k).real) / n2

    def measure(self, node, vec, r, record=None):
        a = self.ax(node)
        self.psi = np.tensordot(np.conj(eigvec(vec, r)), self.psi, axes=(0, a))
        del self.nodes[a]
        self.out[node] = r if record is None else record

    def norm2(self):
        return float(np.vdot(self.psi, self.psi).real)

    def normalise(self):
        self.psi = self.psi / math.sqrt(self.norm2())

    def step(self, cmd, choose):
        """Execute one command; `choose(node, p0)` gives the outcome."""
        k = cmd.kind.name
        if k == "N":
            self.prep(cmd.node, state_vec(cmd.state))
        elif k == "E":
            self.entangle(*cmd.nodes)
        elif k == "M":
            vec = self.bloch(cmd)
            p0 = self.p0(vec, cmd.node)
            r = choose(cmd.node, p0)
            self.measure(cmd.node, vec, r)
            self.weights.append(p0 if r == 0 else 1 - p0)
            return r
        elif k == "X":
            if self.parity(cmd.domain):
                self.gate(cmd.node, PX)
            else:
                self.ax(cmd.node)
        elif k == "Z":
            if self.parity(cmd.domain):
                self.gate(cmd.node, PZ)
            else:
                self.ax(cmd.node)
        elif k == "C":
            self.gate(cmd.node, clifford_matrix(cmd.clifford))
        elif k == "T":
            pass
        else:
            raise RefError(f"command {k}")
        return None

    def tensor(self, order):
        """State tensor with axes in `order`, reference axes last."""
        if sorted(order) != sorted(self.nodes):
            raise RefError(f"live nodes {self.nodes} differ from outputs {order}")
        perm = [self.nodes.index(n) for n in order]
        return np.transpose(self.psi, perm + list(range(len(self.nodes), self.psi.ndim)))


def identity_input(n):
    """Tensor of n qubits maximally correlated with n reference axes (unnormalised)."""
    return np.eye(2**n, dtype=complex).reshape((2,) * (2 * n))


def deps_of(cmds, known=()):
    """Causal dependencies of each command: same-node order (CZ commute among themselves) and outcome domains."""
    last = {}  # node -> index of the last non-E command
    since = {}  # node -> E commands since
    meas = {}
    deps = []
    for i, c in enumerate(cmds):
        k = c.kind.name
        d = set()
        if k == "T":
            deps.append(d)
            continue
        nodes = tuple(c.nodes) if k == "E" else (c.node,)
        for n in nodes:
            if n in last:
                d.add(last[n])
            if k != "E":
                d.update(since.get(n, ()))
        if k == "M":
            doms = set(c.s_domain) | set(c.t_domain)
        elif k in ("X", "Z", "S"):
            doms = set(c.domain)
        else:
            doms = set()
        for n in doms:
            if n in meas:
                d.add(meas[n])
            elif n not in known:
                raise RefError(f"outcome of {n} not known")
        for n in nodes:
            if k == "E":
                since.setdefault(n, set()).add(i)
            else:
                last[n] = i
                since[n] = set()
        if k == "M":
            meas[c.node] = i
        deps.append(d)
    return deps


def lazy_order(cmds, known=()):
    """A causally equivalent order that measures as early as possible (keeps the reference state small)."""
    deps = deps_of(cmds, known)
    done = set()
    order = []

    def emit(i):
        stack = [(i, iter(sorted(deps[i])))]
        seen = {i}
        while stack:
            j, it = stack[-1]
            for d in it:
                if d not in done and d not in seen:
                    seen.add(d)
                    stack.append((d, iter(sorted(deps[d]))))
                    break
            else:
                stack.pop()
                if j not in done:
                    done.add(j)
                    order.append(j)

    for i, c in enumerate(cmds):
        if c.kind.name == "M" and i not in done:
            emit(i)
    for i in range(len(cmds)):
        if i not in done:
            emit(i)
    return [cmds[i] for i in order]


def space_needed(cmds, ninputs):
    """Largest number of live nodes when executing in the given order."""
    n = m = ninputs
    for c in cmds:
        if c.kind.name == "N":
            n += 1
        elif c.kind.name == "M":
            n -= 1
        m = max(m, n)
    return m


def check_order(cmds, inputs, known=()):
    """Raise RefError unless every command uses live nodes and known outcomes, in the given order."""
    live = set(inputs)
    used = set(inputs)
    out = set(known)
    for c in cmds:
        k = c.kind.name
        if k == "N":
            if c.node in used:
                raise RefError(f"node {c.node} prepared twice")
            live.add(c.node)
            used.add(c.node)
            continue
        if k == "T":
            continue
        for n in (c.nodes if k == "E" else (c.node,)):
            if n not in live:
                raise RefError(f"{k} on node {n}, which is not live")
        if k == "M":
            doms = set(c.s_domain) | set(c.t_domain)
        elif k in ("X", "Z", "S"):
            doms = set(c.domain)
        else:
            doms = set()
        if not doms <= out:
            raise RefError(f"{k} uses unknown outcomes {sorted(doms - out)}")
        if k == "M":
            live.discard(c.node)
            out.add(c.node)
    return live


MAX_SPACE = 17


def pattern_kraus(pattern, choose, psi=None, nref=None, results=None, commands=None, inputs=None, outputs=None):
    """Run `pattern` in the reference semantics; returns (tensor in output order, RefRun)."""
    inputs = list(pattern.input_nodes if inputs is None else inputs)
    outputs = list(pattern.output_nodes if outputs is None else outputs)
    if psi is None:
        psi = identity_input(len(inputs))
        nref = len(inputs)
    if results is None:
        results = getattr(pattern, "results", None) or {}
    run = RefRun(inputs, psi, nref or 0)
    run.out.update({k: int(v) for k, v in results.items()})
    cmds = list(pattern if commands is None else commands)
    live = check_order(cmds, inputs, results)
    if live != set(outputs) or len(outputs) != len(set(outputs)):
        raise RefError(f"live nodes {sorted(live)} differ from outputs {outputs}")
    cmds = lazy_order(cmds, results)
    if space_needed(cmds, len(inputs)) + (nref or 0) > MAX_SPACE:
        raise TooBig
    for cmd in cmds:
        run.step(cmd, choose)
    return run.tensor(outputs), run


def scripted(outcomes, default=0):
    return lambda node, p0: outcomes.get(node, default)
