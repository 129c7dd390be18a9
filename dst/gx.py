"""Seams onto the code under test: scripted branch selection, state extraction, simulation wrappers."""

from __future__ import annotations

import numpy as np

import graphix
from graphix import Circuit, OpenGraph, Pattern  # noqa: F401
from graphix import command, instruction  # noqa: F401
from graphix.branch_selector import BranchSelector, ConstBranchSelector, FixedBranchSelector, RandomBranchSelector
from graphix.clifford import Clifford
from graphix.fundamentals import Axis, Plane, Sign
from graphix.measurements import Measurement, PauliMeasurement
from graphix.sim.density_matrix import DensityMatrix, DensityMatrixBackend
from graphix.sim.statevec import Statevector, StatevectorBackend
from graphix.simulator import DefaultMeasureMethod, PatternSimulator
from graphix.states import BasicStates, PlanarState

from dst.core import Discard, Violation

CLIFFORDS = list(Clifford)


class ScriptSelector(BranchSelector):
    """Branch selection decided by the simulation: outcome history scripted per node.

    Impossible outcomes (conditional probability below `eps`) are replaced by the possible one.
    Records the offered conditional probabilities.
    """

    def __init__(self, outcomes=None, default=0, eps=1e-7, on_measure=None):
        self.outcomes = dict(outcomes or {})
        self.default = default
        self.eps = eps
        self.p0 = {}
        self.taken = {}
        self.order = []
        self.on_measure = on_measure

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        if self.on_measure is not None:
            self.on_measure(qubit)
        p = float(np.real(f_expectation0()))
        r = self.outcomes.get(qubit, self.default)
        if callable(r):
            r = r(qubit, p)
        if (p if r == 0 else 1 - p) < self.eps:
            r = 1 - r
        self.p0[qubit] = p
        self.taken[qubit] = r
        self.order.append(qubit)
        return r


class StrictSelector(ScriptSelector):
    """Like ScriptSelector but keeps the scripted outcome whatever its probability."""

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        p = float(np.real(f_expectation0()))
        r = self.outcomes.get(qubit, self.default)
        self.p0[qubit] = p
        self.taken[qubit] = r
        self.order.append(qubit)
        return r


def vec(state):
    """Flat numpy vector (or matrix for a density matrix) of a graphix dense state."""
    if isinstance(state, DensityMatrix):
        return np.array(state.rho, dtype=complex)
    return np.array(state.flatten(), dtype=complex).reshape(-1)


def simulate(pattern, outcomes=None, default=0, input_state=None, backend="statevector", rng=None, **kw):
    """Run the real simulator with scripted outcomes: (vector, results, selector)."""
    sel = ScriptSelector(outcomes, default)
    mm = DefaultMeasureMethod()
    if input_state is not None:
        kw["input_state"] = input_state
    st = pattern.simulate(backend, branch_selector=sel, measure_method=mm,
                          rng=rng or np.random.default_rng(0), **kw)
    return st, dict(mm.results), sel


def pattern_repr(pattern):
    return (f"Pattern(input_nodes={list(pattern.input_nodes)}, output_nodes={list(pattern.output_nodes)}, "
            f"cmds=[{', '.join(map(_c, pattern))}])")


def _c(cmd):
    k = cmd.kind.name
    if k == "N":
        s = getattr(cmd, "state", None)
        return f"N({cmd.node})" if s == BasicStates.PLUS else f"N({cmd.node},{s!r})"
    if k == "E":
        return f"E{tuple(cmd.nodes)}"
    if k == "M":
        return f"M({cmd.node},{cmd.measurement!r},s={sorted(cmd.s_domain)},t={sorted(cmd.t_domain)})"
    if k in "XZS":
        return f"{k}({cmd.node},{sorted(cmd.domain)})"
    if k == "C":
        return f"C({cmd.node},{cmd.clifford!r})"
    return repr(cmd)


def pattern_key(pattern):
    """Plain-data fingerprint of everything a user can observe of a pattern."""
    return (tuple(pattern.input_nodes), tuple(pattern.output_nodes), tuple(_c(c) for c in pattern),
            pattern.n_node)


def circuit_repr(c):
    return f"Circuit({c.width}, {list(c.instruction)!r})"


def circuit_key(c):
    return (c.width, tuple(repr(i) for i in c.instruction), tuple(sorted(c.active_qubits)))


def og_repr(og):
    return (f"OpenGraph(nodes={sorted(og.graph.nodes)}, edges={sorted(map(tuple, map(sorted, og.graph.edges)))}, "
            f"inputs={list(og.input_nodes)}, outputs={list(og.output_nodes)}, "
            f"meas={ {k: og.measurements[k] for k in sorted(og.measurements)} }, "
            f"cliffords={dict(getattr(og, 'output_cliffords', {}) or {})})")


def measured_nodes(pattern):
    return [c.node for c in pattern if c.kind.name == "M"]
