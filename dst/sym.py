"""A caller-supplied symbolic parameter type with trigonometry (the role played by the graphix-symbolic plugin).

Expressions are polynomial-like trees evaluated lazily; a tree without free variables collapses to a complex number.
"""

from __future__ import annotations

import cmath
import numbers

import numpy as np

from graphix.parameter import ExpressionWithTrigonometry, Parameter


def _num(v):
    return isinstance(v, (numbers.Number, np.generic))


_OPS = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "**": lambda a, b: a**b,
    "neg": lambda a: -a, "cos": cmath.cos, "sin": cmath.sin, "exp": cmath.exp, "conj": lambda a: complex(a).conjugate(), "sqrt": cmath.sqrt,
    "abs": lambda a: abs(complex(a)),
}


class Sym(ExpressionWithTrigonometry):
    def __init__(self, op, args):
        self.op = op
        self.args = args
        self.free = frozenset().union(*[a.free for a in args if isinstance(a, Sym)])

    # -- arithmetic
    def __add__(self, o):
        return mk("+", self, o)

    def __radd__(self, o):
        return mk("+", o, self)

    def __sub__(self, o):
        return mk("-", self, o)

    def __rsub__(self, o):
        return mk("-", o, self)

    def __mul__(self, o):
        return mk("*", self, o)

    def __rmul__(self, o):
        return mk("*", o, self)

    def __truediv__(self, o):
        return mk("/", self, o)

    def __rtruediv__(self, o):
        return mk("/", o, self)

    def __pow__(self, o):
        return mk("**", self, o)

    def __neg__(self):
        return mk("neg", self)

    def __abs__(self):
        return mk("abs", self)

    def cos(self):
        return mk("cos", self)

    def sin(self):
        return mk("sin", self)

    def exp(self):
        return mk("exp", self)

    def sqrt(self):
        return mk("sqrt", self)

    def conjugate(self):
        return mk("conj", self)

    conj = conjugate

    def __eq__(self, o):
        return self is o or (isinstance(o, Sym) and not isinstance(self, SymParam) and not isinstance(o, SymParam) and self.op == o.op and self.args == o.args)

    def __hash__(self):
        return hash((self.op, len(self.args)))

    def __repr__(self):
        return f"{self.op}({', '.join(map(repr, self.args))})"

    def __str__(self):
        return repr(self)

    # -- substitution
    def with_parameters(self, assignment):
        return _subst(self, assignment, {})

    def with_parameter(self, variable, substitute):
        return _subst(self, {variable: substitute}, {})


def _subst(e, assignment, memo):
    if not isinstance(e, Sym):
        return e
    if isinstance(e, SymParam):
        v = assignment.get(e)
        return e if v is None else (complex(v) if _num(v) else v)
    if not any(p in assignment for p in e.free):
        return e
    k = id(e)
    if k not in memo:
        memo[k] = mk(e.op, *[_subst(a, assignment, memo) for a in e.args])
    return memo[k]


def mk(op, *args):
    args = [a if isinstance(a, Sym) else complex(a) if _num(a) else NotImplemented for a in args]
    if any(a is NotImplemented for a in args):
        return NotImplemented
    if not any(isinstance(a, Sym) for a in args):
        return _OPS[op](*args)
    if op == "*" and any(not isinstance(a, Sym) and a == 0 for a in args):
        return 0j
    if op in "+" and not isinstance(args[0], Sym) and args[0] == 0:
        return args[1]
    if op in "+-" and not isinstance(args[1], Sym) and args[1] == 0:
        return args[0]
    if op in ("*", "/") and not isinstance(args[1], Sym) and args[1] == 1:
        return args[0]
    if op == "*" and not isinstance(args[0], Sym) and args[0] == 1:
        return args[1]
    return Sym(op, args)


class SymParam(Sym, Parameter):
    def __init__(self, name):
        self.name = name
        self.op, self.args = "var", []
        self.free = frozenset([self])

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return self.name
