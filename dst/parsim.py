"""Simulated execution of numba kernels: the kernels' own Python source, with every parallel loop under a seeded scheduler.

Each `prange` loop becomes: body -> function of one simulated thread's share of the iterations (numba's privatisation and
reduction rules), iterations dealt to 1..4 simulated threads, threads switched at array accesses.  A dry pass (undone
afterwards) records which iterations touch which memory cells; cells written by one iteration and touched by another are
the places where the scheduler preempts.
"""

from __future__ import annotations

import ast
import functools
import inspect
import operator
import queue
import textwrap
import threading
import types
from dataclasses import dataclass, field

import numpy as np


class OutOfBounds(Exception):
    """A kernel accessed an array out of its bounds (undefined behaviour when compiled)."""


class _Cur(threading.local):
    rec = None
    sim = None
    tid = None


CUR = _Cur()


def _addr_of(arr):
    a = arr.__array_interface__["data"][0]
    return a


def _cells(arr):
    arr = np.asarray(arr)
    base = _addr_of(arr)
    offs = np.zeros(arr.shape, dtype=np.int64)
    for ax, (n, st) in enumerate(zip(arr.shape, arr.strides)):
        sh = [1] * arr.ndim
        sh[ax] = n
        offs = offs + (np.arange(n, dtype=np.int64) * st).reshape(sh)
    return [base + int(o) for o in offs.ravel()]


class Traced(np.ndarray):
    """ndarray whose element accesses are reported to the simulator."""

    def _loc(self, idx):
        """Cell address for a full integer index, else None."""
        if not isinstance(idx, tuple):
            idx = (idx,)
        if len(idx) != self.ndim:
            return None
        a = _addr_of(self)
        for i, n, st in zip(idx, self.shape, self.strides):
            if isinstance(i, (bool, np.bool_)) or not isinstance(i, (int, np.integer)):
                return None
            i = int(i)
            if i < 0:
                i += n  # numba wraps negative indices around
            if not 0 <= i < n:
                raise OutOfBounds(f"index {idx} of an array of shape {self.shape}")
            a += i * st
        return a

    def __getitem__(self, idx):
        loc = self._loc(idx)
        if loc is not None:
            if CUR.rec is not None:
                CUR.rec.access(loc, False)
            return np.ndarray.__getitem__(self.view(np.ndarray), idx)
        return np.ndarray.__getitem__(self, idx)

    def __setitem__(self, idx, val):
        plain = self.view(np.ndarray)
        loc = self._loc(idx)
        if isinstance(val, Traced):
            _touch(val, False)
            val = val.view(np.ndarray)
        if loc is not None:
            if CUR.rec is not None:
                CUR.rec.access(loc, True)
        else:
            sub = plain[idx]
            if CUR.rec is not None and isinstance(sub, np.ndarray):
                for c in _cells(sub):
                    CUR.rec.access(c, True)
        plain[idx] = val

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        for x in inputs:
            if isinstance(x, Traced):
                _touch(x, False)
        plain = [x.view(np.ndarray) if isinstance(x, Traced) else x for x in inputs]
        if out:
            for x in out:
                if isinstance(x, Traced):
                    _touch(x, True)
            kw["out"] = tuple(x.view(np.ndarray) if isinstance(x, Traced) else x for x in out)
        r = getattr(ufunc, method)(*plain, **kw)
        return out[0] if out else r


def _touch(arr, write):
    if CUR.rec is not None:
        for c in _cells(arr):
            CUR.rec.access(c, write)


class _Dry:
    """Access sets per iteration."""

    def __init__(self):
        self.it = None
        self.reads = {}
        self.writes = {}
        self.n = 0

    def access(self, loc, write):
        self.n += 1
        (self.writes if write else self.reads).setdefault(loc, set()).add(self.it)

    def conflicts(self):
        hot = set()
        for loc, ws in self.writes.items():
            if len(ws) > 1 or (self.reads.get(loc, ws) - ws):
                hot.add(loc)
        return hot


class _Live:
    """Accesses of one simulated thread: may hand the baton back before any of them."""

    def __init__(self, yield_, hot, gap):
        self.yield_, self.hot, self.gap = yield_, hot, gap

    def access(self, loc, write):
        self.gap -= 1
        if self.gap <= 0 or (loc in self.hot and self.yield_("hot")):
            self.gap = self.yield_("gap")


class _Thread:
    def __init__(self, tid):
        self.tid = tid
        self.go = threading.Event()
        self.result = self.exc = None
        self.rec = None


@dataclass
class Sim:
    """Per-run simulator state: the scheduler of the parallel loops."""

    ctx: object
    max_threads: int = 4
    max_switches: int = 120
    stats: dict = field(default_factory=lambda: {"loops": 0, "iterations": 0, "threads": 0, "switches": 0, "hot": 0, "conflicting": 0})

    def _deal(self, items):
        ctx = self.ctx
        t = 1 + ctx.draw(self.max_threads)
        mode = ctx.draw(3)
        n = len(items)
        if mode == 0:  # contiguous blocks, as numba's default schedule
            per = -(-n // t) if n else 0
            shares = [items[i * per:(i + 1) * per] for i in range(t)]
        elif mode == 1:  # chunk size c, dealt round robin
            c = 1 + ctx.draw(3)
            shares = [[] for _ in range(t)]
            for k in range(0, n, c):
                shares[(k // c) % t].extend(items[k:k + c])
        else:  # any iteration anywhere
            shares = [[] for _ in range(t)]
            for x in ctx.shuffle(items):
                shares[ctx.draw(t)].append(x)
        return [s for s in shares if s] or [[]]

    def parfor(self, rng, body, red, init):
        """red: reduction kinds; init: their values before the loop.  Returns their values after it."""
        ctx = self.ctx
        items = list(rng)
        ident = tuple(IDENT[k] if k in IDENT else v for k, v in zip(red, init))
        if CUR.rec is not None or CUR.tid is not None:  # nested parallel loop: serial in numba
            out = body(items, ident)
            return _merge(red, init, [out])
        self.stats["loops"] += 1
        self.stats["iterations"] += len(items)
        # dry pass
        dry = _Dry()
        arrays = _snapshot(body)

        def watched():
            for x in items:
                dry.it = x
                yield x

        CUR.rec = dry
        try:
            body(watched(), ident)
        finally:
            CUR.rec = None
        for arr, old in arrays:
            arr[...] = old
        hot = dry.conflicts()
        ctx.step(dry.n)
        if hot:
            self.stats["conflicting"] += 1
        shares = self._deal(items)
        self.stats["threads"] += len(shares)
        ctx.sched("parfor", len(items), [len(s) for s in shares])
        if len(shares) == 1:
            outs = [body(shares[0], ident)]
        else:
            outs = self._interleave(body, ident, shares, hot)
        if len(outs) > 1 and red:
            outs = ctx.shuffle(outs)
        return _merge(red, init, outs)

    def _interleave(self, body, ident, shares, hot):
        ctx = self.ctx
        back = queue.Queue()
        threads = [_Thread(i) for i in range(len(shares))]
        left = [self.max_switches]

        def gap():
            if left[0] <= 0:
                return 1 << 60
            return ctx.int(1, (2, 8, 30, 200)[ctx.draw(4)])

        def run(t):
            t.go.wait()
            t.go.clear()

            def yield_(why):
                if why == "hot":
                    if left[0] <= 0:
                        return False
                    self.stats["hot"] += 1
                    return ctx.draw(2) == 1
                back.put((t.tid, False))
                t.go.wait()
                t.go.clear()
                return gap()

            t.rec = CUR.rec = _Live(yield_, hot, gap())
            CUR.tid = t.tid
            CUR.sim = self
            try:
                with np.errstate(all="ignore"):
                    t.result = body(shares[t.tid], ident)
            except BaseException as e:  # noqa: BLE001
                t.exc = e
            back.put((t.tid, True))

        alive = set()
        for t in threads:
            threading.Thread(target=run, args=(t,), daemon=True).start()
            alive.add(t.tid)
        last = None
        while alive:
            order = sorted(alive)
            if last in alive:
                order.remove(last)
                order.insert(0, last)
            tid = order[ctx.draw(len(order))] if left[0] > 0 else order[0]
            if tid != last:
                left[0] -= 1
                self.stats["switches"] += 1
                ctx.sched("to", tid)
            last = tid
            threads[tid].go.set()
            got, fin = back.get(timeout=60)
            if fin:
                alive.discard(got)
        for t in threads:
            if t.exc is not None:
                raise t.exc
        return [t.result for t in threads]


IDENT = {"+": 0, "-": 0, "*": 1, "^": 0, "|": 0, "&": -1}
FOLD = {"+": operator.add, "-": operator.add, "*": operator.mul, "^": operator.xor, "|": operator.or_, "&": operator.and_, "max": max, "min": min}


def _merge(red, init, outs):
    vals = list(init)
    for out in outs:
        for k, kind in enumerate(red):
            vals[k] = FOLD[kind](vals[k], out[k])
    return tuple(vals)


def _snapshot(body):
    """Every array reachable from the loop body, with a copy of its contents."""
    seen, out = set(), []
    for cell in body.__closure__ or ():
        try:
            v = cell.cell_contents
        except ValueError:
            continue
        vs = v if isinstance(v, (tuple, list)) else [v]
        for x in vs:
            if isinstance(x, np.ndarray) and id(x) not in seen:
                seen.add(id(x))
                p = x.view(np.ndarray)
                out.append((p, p.copy()))
    return out


# ---------------------------------------------------------------------------------------------
# source transformation

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.BitXor: "^", ast.BitOr: "|", ast.BitAnd: "&"}


def _is_prange(node):
    return isinstance(node, ast.Call) and ((isinstance(node.func, ast.Attribute) and node.func.attr == "prange")
                                           or (isinstance(node.func, ast.Name) and node.func.id == "prange"))


def _assigned(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
    return out


def _reductions(body):
    """{name: kind} of `x op= e`, `x = x op e`, `x = max(x, e)` statements."""
    red = {}
    for n in body:
        for x in ast.walk(n):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                red.setdefault(x.target.id, BINOPS.get(type(x.op), "?"))
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                name, v = x.targets[0].id, x.value
                if isinstance(v, ast.BinOp) and type(v.op) in BINOPS:
                    for side in (v.left, v.right):
                        if isinstance(side, ast.Name) and side.id == name:
                            red.setdefault(name, BINOPS[type(v.op)])
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("max", "min"):
                    if any(isinstance(a, ast.Name) and a.id == name for a in v.args):
                        red.setdefault(name, v.func.id)
    return red


class _Rewrite(ast.NodeTransformer):
    def __init__(self, fn):
        self.n = 0
        self.fn = fn
        self.params = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        self.stores = [(x.id, x.lineno) for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]

    def visit_For(self, node):
        if not _is_prange(node.iter):
            return self.generic_visit(node)
        self.n += 1
        k = self.n
        inside = _assigned(node.body)
        outer = self.params | {v for v, line in self.stores if not node.lineno <= line <= node.end_lineno}
        assigned_first = {t.id for st in node.body if isinstance(st, ast.Assign) for t in st.targets if isinstance(t, ast.Name)
                          and not any(isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(st.value))}
        red = {v: c for v, c in _reductions(node.body).items() if v in outer and v in inside and v not in assigned_first and c != "?"}
        names = sorted(red)
        fname = f"__pf_{k}"
        pre = [ast.Assign(targets=[ast.Name(v, ast.Store())], value=ast.Subscript(ast.Name("__red", ast.Load()), ast.Constant(i), ast.Load()))
               for i, v in enumerate(names)]
        loop = ast.For(target=node.target, iter=ast.Name("__chunk", ast.Load()), body=node.body, orelse=[])
        ret = ast.Return(ast.Tuple([ast.Name(v, ast.Load()) for v in names], ast.Load()))
        fn = ast.FunctionDef(name=fname, args=ast.arguments(posonlyargs=[], args=[ast.arg("__chunk"), ast.arg("__red")], kwonlyargs=[],
                                                            kw_defaults=[], defaults=[]), body=[*pre, loop, ret], decorator_list=[], type_params=[])
        rng = ast.Call(func=ast.Name("range", ast.Load()), args=node.iter.args, keywords=[])
        call = ast.Call(func=ast.Name("__parfor", ast.Load()), keywords=[], args=[
            rng, ast.Name(fname, ast.Load()), ast.Tuple([ast.Constant(red[v]) for v in names], ast.Load()),
            ast.Tuple([ast.Name(v, ast.Load()) for v in names], ast.Load())])
        if names:
            last = ast.Assign(targets=[ast.Tuple([ast.Name(v, ast.Store()) for v in names], ast.Store())], value=call)
        else:
            last = ast.Expr(call)
        return [fn, last]


def _parfor(rng, body, red, init):
    return CUR.sim.parfor(rng, body, red, init)


class _NpShim:
    """numpy as seen by a kernel: fresh arrays are traced."""

    def __getattr__(self, name):
        f = getattr(np, name)
        if isinstance(f, np.ufunc) or isinstance(f, type) or not callable(f):
            return f

        @functools.wraps(f)
        def g(*a, **kw):
            for x in a:
                if isinstance(x, Traced):
                    _touch(x, False)
            r = f(*[x.view(np.ndarray) if isinstance(x, Traced) else x for x in a], **kw)
            return r.view(Traced) if isinstance(r, np.ndarray) else r

        return g


class _NbShim:
    prange = range

    def __init__(self, real):
        self.__dict__["real"] = real

    def __getattr__(self, name):
        return getattr(self.real, name)


class Kernels:
    """The simulated kernels of some modules, swappable for the compiled ones."""

    def __init__(self, modules):
        import numba as nb
        from numba.core.dispatcher import Dispatcher
        self.modules = modules
        self.real = {}
        self.sim = {}
        self.parallel = []
        self.globals = {}
        self.threshold = {}
        shim_np, shim_nb = _NpShim(), _NbShim(nb)
        for mod in modules:
            g = dict(vars(mod))
            for k, v in list(g.items()):
                if v is np:
                    g[k] = shim_np
                elif v is nb:
                    g[k] = shim_nb
                elif v is nb.prange:
                    g[k] = range
            g["__parfor"] = _parfor
            self.globals[mod] = g
        for mod in modules:
            for name, v in vars(mod).items():
                if isinstance(v, Dispatcher):
                    self.real[mod, name] = v
                    if id(v) not in self.sim:
                        self.sim[id(v)] = self._build(mod, v)
        for mod in modules:
            for (m, name), v in self.real.items():
                if m is mod:
                    self.globals[mod][name] = self.sim[id(v)].inner
            # the size from which a kernel takes its parallel branch: a module-level integer named in a parallel kernel
            names = {n for d in self.parallel for n in d.py_func.__code__.co_names if d.py_func.__module__ == mod.__name__}
            for n in sorted(names):
                if isinstance(vars(mod).get(n), int) and not isinstance(vars(mod)[n], bool):
                    self.threshold[mod, n] = vars(mod)[n]

    def _build(self, mod, disp):
        par = bool(disp.targetoptions.get("parallel"))
        py = disp.py_func
        home = next((m for m in self.modules if m.__name__ == py.__module__), mod)
        src = textwrap.dedent(inspect.getsource(py))
        tree = ast.parse(src)
        fn = tree.body[0]
        fn.decorator_list = []
        fn.returns = None
        for a in fn.args.args + fn.args.kwonlyargs:
            a.annotation = None
        if par:
            self.parallel.append(disp)
            rw = _Rewrite(fn)
            fn.body = [y for x in fn.body for y in _flat(rw.visit(x))]
        ast.fix_missing_locations(tree)
        code = compile(tree, py.__code__.co_filename, "exec")
        ns = {}
        exec(code, self.globals[home], ns)  # noqa: S102
        f = ns[py.__name__]
        f = types.FunctionType(f.__code__, self.globals[home], f.__name__, py.__defaults__, f.__closure__)

        def outer(*a, **kw):
            a = [x.view(Traced) if isinstance(x, np.ndarray) else x for x in a]
            kw = {k: (x.view(Traced) if isinstance(x, np.ndarray) else x) for k, x in kw.items()}
            with np.errstate(all="ignore"):
                r = f(*a, **kw)
            return r.view(np.ndarray) if isinstance(r, np.ndarray) else r

        outer.inner = f
        return outer

    def install(self, sim, threshold):
        CUR.sim = sim
        CUR.rec = CUR.tid = None
        for (mod, name), v in self.real.items():
            setattr(mod, name, self.sim[id(v)])
        for (mod, name) in self.threshold:
            self.globals[mod][name] = threshold

    def restore(self):
        CUR.sim = CUR.rec = None
        for (mod, name), v in self.real.items():
            setattr(mod, name, v)


def _flat(x):
    return x if isinstance(x, list) else [x]
