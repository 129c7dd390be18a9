"""Observable contents of graphix objects as plain data (what a user can see through the public interface)."""

from __future__ import annotations

import hashlib

import networkx as nx
import numpy as np

from dst.gx import Circuit, DensityMatrix, OpenGraph, Pattern, PatternSimulator, Statevector, circuit_key, pattern_key

from graphix.channels import KrausChannel
from graphix.flow.core import PauliFlow, XZCorrections
from graphix.graphsim import GraphState
from graphix.noise_models.noise_model import Noise, NoiseModel
from graphix.optimization import StandardizedPattern
from graphix.parameter import Parameter
from graphix.sim.base_backend import DenseStateBackend, NodeIndex
from graphix.sim.tensornet import MBQCTensorNet, TensorNetworkBackend


def arr(x):
    x = np.asarray(x)
    if x.dtype == object:
        return ("obj", x.shape, tuple(str(v) for v in x.ravel()))
    return (x.shape, str(x.dtype), hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest()[:24])


def graph(g):
    return (tuple(sorted(g.nodes)), tuple(sorted(tuple(sorted(e)) for e in g.edges)))


def key(x, depth=0):
    if depth > 12:
        return "..."
    k = lambda y: key(y, depth + 1)  # noqa: E731
    if isinstance(x, Pattern):
        return ("Pattern", *pattern_key(x))
    if isinstance(x, Circuit):
        return ("Circuit", *circuit_key(x))
    if isinstance(x, GraphState):
        return ("GraphState", graph(x), tuple(sorted((n, tuple(sorted(map(str, d.items())))) for n, d in x.nodes.items())))
    if isinstance(x, nx.Graph):
        return ("Graph", graph(x))
    if isinstance(x, OpenGraph):
        return ("OpenGraph", graph(x.graph), tuple(x.input_nodes), tuple(x.output_nodes), k(dict(x.measurements)), k(dict(x.output_cliffords)))
    if isinstance(x, PauliFlow):
        return (type(x).__name__, k(x.og), k(dict(x.correction_function)), k(list(x.partial_order_layers)))
    if isinstance(x, XZCorrections):
        return ("XZ", k(x.og), k(dict(x.x_corrections)), k(dict(x.z_corrections)), k(list(x.partial_order_layers)))
    if isinstance(x, StandardizedPattern):
        return ("Std", tuple(x.input_nodes), tuple(x.output_nodes), k(list(x.n_list)), k(set(x.e_set)), k(list(x.m_list)), k(dict(x.z_dict)),
                k(dict(x.x_dict)), k(dict(x.c_dict)))
    if isinstance(x, Statevector):
        return ("SV", x.nqubit, arr(x.flatten()))
    if isinstance(x, DensityMatrix):
        return ("DM", arr(x.rho))
    if isinstance(x, MBQCTensorNet):
        return ("TN", tuple(x.default_output_nodes or ()), tuple(sorted((tuple(t.inds), tuple(sorted(t.tags)), arr(t.data)) for t in x.tensors)))
    if isinstance(x, TensorNetworkBackend):
        return ("TNB", k(x.state))
    if isinstance(x, DenseStateBackend):
        return ("Backend", k(x.state), tuple(x.node_index))
    if isinstance(x, NodeIndex):
        return ("Index", tuple(x))
    if isinstance(x, PatternSimulator):
        return ("Sim", k(x.backend), k(x.pattern), k(getattr(x.measure_method, "results", None)))
    if isinstance(x, KrausChannel):
        return ("Channel", tuple((complex(d.coef), arr(d.operator)) for d in x))
    if isinstance(x, np.ndarray):
        return ("arr", *arr(x))
    if isinstance(x, np.random.Generator):
        return ("rng", str(x.bit_generator.state))
    if isinstance(x, (NoiseModel, Noise)):
        return (type(x).__name__, k({n: v for n, v in vars(x).items() if not n.startswith("_")}))
    if isinstance(x, Parameter):
        return ("par", str(x))
    if isinstance(x, dict):
        return ("dict", tuple(sorted(((repr(k(a)), k(b)) for a, b in x.items()), key=lambda p: p[0])))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(repr(k(a)) for a in x)))
    if isinstance(x, (list, tuple)):
        return ("seq", tuple(k(a) for a in x))
    if hasattr(x, "kind") and hasattr(x, "__dataclass_fields__"):
        d = {f: getattr(x, f) for f in x.__dataclass_fields__ if hasattr(x, f)}
        d.pop("kind", None)
        return (type(x).__name__, k(d))
    r = repr(x)
    if " at 0x" in r:
        if hasattr(x, "__dataclass_fields__"):
            return (type(x).__name__, k({f: getattr(x, f, None) for f in x.__dataclass_fields__}))
        return type(x).__name__
    return r
