"""A small OpenQASM 3 interpreter: the openqasm3 package parses (the official grammar), this module executes.

Independent of graphix.  Qubits start in |0> unless the caller supplies the state of a register.  Every
measurement outcome is decided by the caller.  States are kept unnormalised, so their squared norm is the weight
of the branch.
"""

from __future__ import annotations

import cmath
import math

import numpy as np
import openqasm3
from openqasm3 import ast

from dst import ref


class QasmError(Exception):
    """The program is not valid OpenQASM 3 (or uses something that is not defined)."""


I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.diag([1, -1]).astype(complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)


def _p(a):
    return np.diag([1, cmath.exp(1j * a)])


def _rx(a):
    return math.cos(a / 2) * I2 - 1j * math.sin(a / 2) * X


def _ry(a):
    return math.cos(a / 2) * I2 - 1j * math.sin(a / 2) * Y


def _rz(a):
    return np.diag([cmath.exp(-0.5j * a), cmath.exp(0.5j * a)])


def _u(t, p, l):
    return np.array([[math.cos(t / 2), -cmath.exp(1j * l) * math.sin(t / 2)],
                     [cmath.exp(1j * p) * math.sin(t / 2), cmath.exp(1j * (p + l)) * math.cos(t / 2)]])


def _ctrl(u):
    n = u.shape[0]
    m = np.eye(2 * n, dtype=complex)
    m[n:, n:] = u
    return m


SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)

# name -> (number of parameters, number of qubits, matrix)   [contents of stdgates.inc]
STD = {
    "p": (1, 1, _p), "x": (0, 1, lambda: X), "y": (0, 1, lambda: Y), "z": (0, 1, lambda: Z), "h": (0, 1, lambda: H),
    "s": (0, 1, lambda: _p(math.pi / 2)), "sdg": (0, 1, lambda: _p(-math.pi / 2)), "t": (0, 1, lambda: _p(math.pi / 4)),
    "tdg": (0, 1, lambda: _p(-math.pi / 4)), "sx": (0, 1, lambda: cmath.exp(0.25j * math.pi) * _rx(math.pi / 2)),
    "rx": (1, 1, _rx), "ry": (1, 1, _ry), "rz": (1, 1, _rz), "cx": (0, 2, lambda: _ctrl(X)), "cy": (0, 2, lambda: _ctrl(Y)),
    "cz": (0, 2, lambda: _ctrl(Z)), "cp": (1, 2, lambda a: _ctrl(_p(a))), "crx": (1, 2, lambda a: _ctrl(_rx(a))),
    "cry": (1, 2, lambda a: _ctrl(_ry(a))), "crz": (1, 2, lambda a: _ctrl(_rz(a))), "ch": (0, 2, lambda: _ctrl(H)),
    "swap": (0, 2, lambda: SWAP), "ccx": (0, 3, lambda: _ctrl(_ctrl(X))), "cswap": (0, 3, lambda: _ctrl(SWAP)),
    "cu": (4, 2, lambda t, p, l, g: _ctrl(cmath.exp(1j * g) * _u(t, p, l))), "CX": (0, 2, lambda: _ctrl(X)),
    "phase": (1, 1, _p), "cphase": (1, 2, lambda a: _ctrl(_p(a))), "id": (0, 1, lambda: I2),
    "u1": (1, 1, _p), "u2": (2, 1, lambda p, l: _u(math.pi / 2, p, l)), "u3": (3, 1, _u),
}
CONST = {"pi": math.pi, "π": math.pi, "tau": 2 * math.pi, "τ": 2 * math.pi, "euler": math.e, "ℇ": math.e}
FUN = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "arcsin": math.asin, "arccos": math.acos, "arctan": math.atan,
       "exp": math.exp, "log": math.log, "sqrt": math.sqrt, "floor": math.floor, "ceiling": math.ceil, "mod": math.fmod, "pow": math.pow}


class Machine:
    """Execution of one program on one outcome history."""

    def __init__(self, choose, initial=None, gates=None):
        self.choose = choose          # choose(bit label, conditional probability of 0) -> outcome
        self.initial = initial or {}  # register name -> tensor state of that register (optionally with trailing axes)
        self.psi = np.ones((), dtype=complex)
        self.nq = 0
        self.names = {}               # name -> ("qubit", [indices], isarray) | ("bit", [values], isarray) | ("const", v)
        self.std = False
        self.gatedefs = dict(gates or {})
        self.userdefs = {}
        self.measured = []            # [(label, outcome)] in program order
        self.nref = 0
        self.steps = 0

    # ---- declarations
    def declare(self, name, what):
        if name in self.names or name in CONST or name in self.userdefs or (self.std and name in STD) or name == "U":
            raise QasmError(f"name {name} declared twice")
        self.names[name] = what

    def declare_qubits(self, name, n, isarray):
        if n < 1:
            raise QasmError(f"register {name} of size {n}")
        self.declare(name, ("qubit", list(range(self.nq, self.nq + n)), isarray))
        st = self.initial.get(name)
        if st is None:
            st = np.zeros((2,) * n, dtype=complex)
            st[(0,) * n] = 1
        if self.nq + n > 17:
            raise ref_toobig()
        extra = st.ndim - n
        if extra and (self.nref or self.nq):
            raise QasmError("reference axes only on the first register")
        self.psi = np.tensordot(self.psi, st, axes=0)
        if self.nref:  # keep reference axes last
            k = self.psi.ndim
            order = list(range(self.nq)) + list(range(self.nq + self.nref, k)) + list(range(self.nq, self.nq + self.nref))
            self.psi = self.psi.transpose(order)
        self.nref += extra
        self.nq += n

    # ---- expressions
    def lookup(self, name, env):
        if env and name in env:
            return env[name]
        if name in self.names:
            kind = self.names[name]
            if kind[0] == "const":
                return kind[1]
            if kind[0] == "bit" and not kind[2]:
                if kind[1][0] is None:
                    raise QasmError(f"bit {name} read before it is assigned")
                return kind[1][0]
            if kind[0] == "bit":
                return kind[1]
            raise QasmError(f"{name} is not a value")
        if name in CONST:
            return CONST[name]
        raise QasmError(f"unknown name {name}")

    def ev(self, e, env=None):
        if isinstance(e, (ast.IntegerLiteral, ast.FloatLiteral, ast.BooleanLiteral)):
            return e.value
        if isinstance(e, ast.BitstringLiteral):
            return [(e.value >> i) & 1 for i in range(e.width)]
        if isinstance(e, ast.Identifier):
            return self.lookup(e.name, env)
        if isinstance(e, ast.UnaryExpression):
            v = self.ev(e.expression, env)
            op = e.op.name
            if op == "-":
                return -v
            if op == "!":
                return int(not v)
            if op == "~":
                return 1 - int(v)
        if isinstance(e, ast.BinaryExpression):
            a, b = self.ev(e.lhs, env), self.ev(e.rhs, env)
            op = e.op.name
            if op in "^&|":
                if isinstance(a, float) or isinstance(b, float):
                    raise QasmError(f"operator {op} on floats")
                return int(a) ^ int(b) if op == "^" else int(a) & int(b) if op == "&" else int(a) | int(b)
            f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "**": lambda: a**b, "%": lambda: a % b,
                 "==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b), ">": lambda: int(a > b),
                 "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "&&": lambda: int(bool(a) and bool(b)), "||": lambda: int(bool(a) or bool(b))}
            if op == "/":
                if isinstance(a, int) and isinstance(b, int):
                    return a // b if a * b >= 0 else -((-a) // b)  # integer division truncates
                return a / b
            if op in f:
                return f[op]()
        if isinstance(e, ast.IndexExpression):
            arr = self.ev(e.collection, env)
            i = self.index(e.index, env)
            if not isinstance(arr, list) or not 0 <= i < len(arr):
                raise QasmError("index out of range")
            if arr[i] is None:
                raise QasmError("bit read before it is assigned")
            return arr[i]
        if isinstance(e, ast.FunctionCall) and e.name.name in FUN:
            return FUN[e.name.name](*[self.ev(a, env) for a in e.arguments])
        if isinstance(e, ast.Cast):
            v = self.ev(e.argument, env)
            return int(bool(v)) if isinstance(e.type, (ast.BitType, ast.BoolType)) else float(v) if isinstance(e.type, (ast.FloatType, ast.AngleType)) else int(v)
        raise QasmError(f"unsupported expression {type(e).__name__}")

    def index(self, idx, env=None):
        if not isinstance(idx, list) or len(idx) != 1 or isinstance(idx[0], (ast.RangeDefinition, ast.DiscreteSet)):
            raise QasmError("unsupported index")
        return int(self.ev(idx[0], env))

    # ---- operands
    def qubits(self, q, local=None):
        """List of qubit indices denoted by an operand."""
        if isinstance(q, ast.Identifier):
            if local is not None:
                if q.name not in local:
                    raise QasmError(f"unknown qubit {q.name} in gate body")
                return [local[q.name]]
            d = self.names.get(q.name)
            if d is None or d[0] != "qubit":
                raise QasmError(f"{q.name} is not a qubit")
            return list(d[1])
        d = self.names.get(q.name.name)
        if d is None or d[0] != "qubit" or not d[2]:
            raise QasmError(f"{q.name.name} is not a qubit register")
        i = self.index(q.indices[0])
        if not 0 <= i < len(d[1]):
            raise QasmError(f"index {i} out of range for {q.name.name}")
        return [d[1][i]]

    def bit(self, t):
        if isinstance(t, ast.Identifier):
            d = self.names.get(t.name)
            if d is None or d[0] != "bit" or d[2]:
                raise QasmError(f"{t.name} is not a bit")
            return d[1], 0, t.name
        d = self.names.get(t.name.name)
        if d is None or d[0] != "bit" or not d[2]:
            raise QasmError(f"{t.name.name} is not a bit register")
        i = self.index(t.indices[0])
        if not 0 <= i < len(d[1]):
            raise QasmError(f"index {i} out of range for {t.name.name}")
        return d[1], i, f"{t.name.name}[{i}]"

    # ---- gates
    def gate_matrix(self, name, args):
        """(matrix, number of qubits)."""
        if name in self.gatedefs:
            np_, nq, f = self.gatedefs[name]
        elif name in self.userdefs:
            params, qs, body = self.userdefs[name]
            if len(args) != len(params):
                raise QasmError(f"gate {name} takes {len(params)} parameters")
            sub = Machine(self.choose)
            sub.std, sub.gatedefs, sub.userdefs = self.std, self.gatedefs, self.userdefs
            n = len(qs)
            sub.psi = np.eye(2**n, dtype=complex).reshape((2,) * (2 * n))
            sub.nq, sub.nref = n, n
            env = dict(zip(params, args))
            local = {q: i for i, q in enumerate(qs)}
            for st in body:
                sub.gate_call(st, env, local)
            return sub.psi.reshape(2**n, 2**n), n
        elif name == "U":
            np_, nq, f = 3, 1, _u
        elif self.std and name in STD:
            np_, nq, f = STD[name]
        else:
            raise QasmError(f"unknown gate {name}")
        if len(args) != np_:
            raise QasmError(f"gate {name} takes {np_} parameters, {len(args)} given")
        return f(*args), nq

    def gate_call(self, st, env=None, local=None):
        if isinstance(st, ast.QuantumPhase):
            if st.modifiers or st.qubits:
                raise QasmError("unsupported controlled gphase")
            self.psi = self.psi * cmath.exp(1j * float(self.ev(st.argument, env)))
            return
        if isinstance(st, ast.QuantumBarrier):
            return
        if not isinstance(st, ast.QuantumGate):
            raise QasmError(f"unsupported statement {type(st).__name__} in a gate")
        args = [float(self.ev(a, env)) for a in st.arguments]
        u, n = self.gate_matrix(st.name.name, args)
        for m in reversed(st.modifiers):
            k = m.modifier.name
            if k == "inv":
                u = u.conj().T
            elif k == "ctrl" or k == "negctrl":
                for _ in range(1 if m.argument is None else int(self.ev(m.argument, env))):
                    u = _ctrl(u)
                    n += 1
                    if k == "negctrl":
                        f = np.kron(X, np.eye(2 ** (n - 1)))
                        u = f @ u @ f
            elif k == "pow":
                e = self.ev(m.argument, env)
                if int(e) != e:
                    raise QasmError("unsupported fractional power")
                u = np.linalg.matrix_power(u, int(e))
        ops = [self.qubits(q, local) for q in st.qubits]
        if len(ops) != n:
            raise QasmError(f"gate {st.name.name} acts on {n} qubits, {len(ops)} given")
        width = max(len(o) for o in ops)
        for i in range(width):
            qs = [o[i] if len(o) > 1 else o[0] for o in ops]
            if len(set(qs)) != len(qs):
                raise QasmError(f"gate {st.name.name} applied twice to the same qubit")
            self.psi = ref.applyk(self.psi, u, qs)
            self.steps += 1

    # ---- measurement
    def measure(self, q, label):
        a = np.take(self.psi, 0, axis=q)
        b = np.take(self.psi, 1, axis=q)
        w0, w1 = float(np.vdot(a, a).real), float(np.vdot(b, b).real)
        tot = w0 + w1
        r = self.choose(label, w0 / tot if tot > 0 else 0.0)
        new = np.zeros_like(self.psi)
        sl = [slice(None)] * self.psi.ndim
        sl[q] = r
        new[tuple(sl)] = b if r else a
        self.psi = new
        self.measured.append((label, r))
        self.steps += 1
        return r

    def project(self, q, r):
        """Remove qubit `q` (index) known to be |r>."""
        return np.take(self.psi, r, axis=q)

    # ---- statements
    def run(self, program):
        for st in program.statements:
            self.stmt(st, True)
        return self

    def stmt(self, st, top):
        if isinstance(st, ast.Include):
            if st.filename != "stdgates.inc":
                raise QasmError(f"unknown include {st.filename}")
            for n in STD:
                if n in self.names or n in self.userdefs:
                    raise QasmError(f"name {n} declared twice")
            self.std = True
        elif isinstance(st, ast.QubitDeclaration):
            if not top:
                raise QasmError("qubit declared in a local scope")
            n = 1 if st.size is None else int(self.ev(st.size))
            self.declare_qubits(st.qubit.name, n, st.size is not None)
        elif isinstance(st, ast.ClassicalDeclaration):
            name = st.identifier.name
            if not isinstance(st.type, (ast.BitType, ast.BoolType)):
                raise QasmError(f"unsupported type {type(st.type).__name__}")
            size = getattr(st.type, "size", None)
            n = 1 if size is None else int(self.ev(size))
            if n < 1:
                raise QasmError(f"register {name} of size {n}")
            vals = [None] * n
            init = st.init_expression
            self.declare(name, ("bit", vals, size is not None))
            if isinstance(init, ast.QuantumMeasurement):
                qs = self.qubits(init.qubit)
                if len(qs) != n:
                    raise QasmError("measurement of a register into a register of another size")
                for i, q in enumerate(qs):
                    vals[i] = self.measure(q, name if size is None else f"{name}[{i}]")
            elif init is not None:
                v = self.ev(init)
                if size is not None:
                    if not isinstance(v, list) or len(v) != n:
                        raise QasmError("bad initial value")
                    vals[:] = v
                else:
                    vals[0] = int(bool(v))
        elif isinstance(st, ast.ConstantDeclaration):
            self.declare(st.identifier.name, ("const", self.ev(st.init_expression)))
        elif isinstance(st, (ast.QuantumGate, ast.QuantumPhase, ast.QuantumBarrier)):
            self.gate_call(st)
        elif isinstance(st, ast.QuantumGateDefinition):
            if not top:
                raise QasmError("gate defined in a local scope")
            name = st.name.name
            if name in self.names or (self.std and name in STD) or name in self.userdefs:
                raise QasmError(f"name {name} declared twice")
            self.userdefs[name] = ([a.name for a in st.arguments], [q.name for q in st.qubits], st.body)
        elif isinstance(st, ast.QuantumMeasurementStatement):
            qs = self.qubits(st.measure.qubit)
            if st.target is None:
                for q in qs:
                    self.measure(q, None)
            elif isinstance(st.target, ast.Identifier) and self.names.get(st.target.name, ("", 0, 0))[0] == "bit" and self.names[st.target.name][2]:
                vals = self.names[st.target.name][1]
                if len(vals) != len(qs):
                    raise QasmError("measurement of a register into a register of another size")
                for i, q in enumerate(qs):
                    vals[i] = self.measure(q, f"{st.target.name}[{i}]")
            else:
                vals, i, label = self.bit(st.target)
                if len(qs) != 1:
                    raise QasmError("measurement of a register into a bit")
                vals[i] = self.measure(qs[0], label)
        elif isinstance(st, ast.QuantumReset):
            for q in self.qubits(st.qubits):
                if self.measure(q, None):
                    self.psi = ref.applyk(self.psi, X, [q])
        elif isinstance(st, ast.ClassicalAssignment):
            vals, i, _ = self.bit(st.lvalue)
            v = self.ev(st.rvalue)
            op = st.op.name
            if op == "=":
                vals[i] = int(bool(v))
            elif op == "^=":
                if vals[i] is None:
                    raise QasmError("bit read before it is assigned")
                vals[i] = vals[i] ^ int(bool(v))
            else:
                raise QasmError(f"unsupported assignment {op}")
        elif isinstance(st, ast.BranchingStatement):
            for s in (st.if_block if self.ev(st.condition) else st.else_block):
                self.stmt(s, False)
        else:
            raise QasmError(f"unsupported statement {type(st).__name__}")


def ref_toobig():
    from dst.core import TooBig  # noqa: PLC0415

    return TooBig()


def parse(text):
    """Parse with the official grammar; every syntax error is reported."""
    try:
        prog = openqasm3.parse(text)
    except Exception as e:  # noqa: BLE001
        raise QasmError(f"syntax error: {type(e).__name__}: {e}") from None
    v = prog.version
    if v is not None and not str(v).startswith("3"):
        raise QasmError(f"version {v}")
    return prog


def run(text, choose, initial=None, gates=None):
    return Machine(choose, initial, gates).run(parse(text))
