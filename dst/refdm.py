"""Reference density-matrix execution of patterns with noise (numpy only)."""

from __future__ import annotations

import math

import numpy as np

from dst import ref


class DM:
    """rho as a matrix over an ordered list of nodes (first node most significant)."""

    def __init__(self, nodes, rho):
        self.nodes = list(nodes)
        self.rho = np.asarray(rho, dtype=complex)

    @property
    def n(self):
        return len(self.nodes)

    def _t(self):
        return self.rho.reshape((2,) * (2 * self.n))

    def kraus(self, ops, nodes):
        """rho -> sum K rho K^dagger on `nodes` (first most significant)."""
        axes = [self.nodes.index(v) for v in nodes]
        out = np.zeros_like(self.rho)
        t = self._t()
        n = self.n
        for k in ops:
            a = ref.applyk(t, k, axes)
            a = ref.applyk(a, np.conj(k), [n + x for x in axes])
            out += a.reshape(2**n, 2**n)
        self.rho = out

    def prep(self, node, vec):
        self.rho = np.kron(np.outer(vec, np.conj(vec)), self.rho)
        self.nodes.insert(0, node)

    def p0(self, node, vec):
        e = ref.eigvec(vec, 0)
        tr = np.trace(self.rho).real
        ax = self.nodes.index(node)
        t = self._t()
        a = np.tensordot(np.conj(e), t, axes=(0, ax))
        a = np.tensordot(e, a, axes=(0, self.n - 1 + ax))
        return float(np.trace(a.reshape(2 ** (self.n - 1), -1)).real / tr)

    def measure(self, node, vec, r):
        e = ref.eigvec(vec, r)
        ax = self.nodes.index(node)
        t = self._t()
        n = self.n
        a = np.tensordot(np.conj(e), t, axes=(0, ax))
        a = np.tensordot(e, a, axes=(0, n - 1 + ax))
        self.nodes.pop(ax)
        self.rho = a.reshape(2 ** (n - 1), 2 ** (n - 1))
        self.rho = self.rho / np.trace(self.rho).real

    def order(self, nodes):
        perm = [self.nodes.index(v) for v in nodes]
        n = self.n
        t = np.transpose(self._t(), perm + [n + p for p in perm])
        return t.reshape(2**n, 2**n)


PAULIS1 = [ref.I2, ref.PX, ref.PY, ref.PZ]


def pauli_kraus(px, py, pz):
    ps = [max(0.0, 1 - px - py - pz), px, py, pz]
    return [math.sqrt(p) * m for p, m in zip(ps, PAULIS1) if p > 0]


def depol1(p):
    return pauli_kraus(p / 3, p / 3, p / 3)


def depol2(p):
    out = []
    for i, a in enumerate(PAULIS1):
        for j, b in enumerate(PAULIS1):
            w = 1 - p if i == j == 0 else p / 15
            if w > 0:
                out.append(math.sqrt(w) * np.kron(a, b))
    return out


def ad1(g):
    return [np.array([[1, 0], [0, math.sqrt(1 - g)]], dtype=complex), np.array([[0, math.sqrt(g)], [0, 0]], dtype=complex)]


def ad2(g):
    return [np.kron(a, b) for a in ad1(g) for b in ad1(g)]


def apply_kraus(ops, rho):
    return sum(k @ rho @ k.conj().T for k in ops)
