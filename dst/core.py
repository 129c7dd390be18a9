"""Deterministic-simulation core: choice streams, event log, shrinking, replay.

One run of a scenario is a pure function of (scenario, choice stream, code under test).  The choice
stream is either drawn from a PRNG seeded from VERIF_SEED (search) or read back from a replay file.
Logging never draws from the stream and never reads a clock.
"""

from __future__ import annotations

import contextlib
import hashlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter

REPO = "/repo"
_NULL = open(os.devnull, "w")  # noqa: SIM115


class Violation(Exception):
    """The property is broken.  `klass` identifies the violation class kept during minimisation."""

    def __init__(self, klass, message, **details):
        super().__init__(f"[{klass}] {message}")
        self.klass = klass
        self.message = message
        self.details = details


class Discard(Exception):
    """The drawn case does not satisfy the scenario's precondition."""


class RunTimeout(BaseException):
    """The run exceeded its wall-clock cap."""


class TooBig(Exception):
    """The case needs more memory than a run may use."""


class ChoicesExhausted(Exception):
    """Too many draws in one run."""


class Ctx:
    """Context of one simulated run."""

    MAX_DRAWS = 60000

    def __init__(self, seed=None, choices=None, keep_events=False):
        self.rnd = random.Random(seed) if choices is None else None
        self.replay = choices
        self.pos = 0
        self.choices = []
        self.hash = hashlib.sha256()
        self.events = [] if keep_events else None
        self.nevents = 0
        self.faults = Counter()
        self.probes = Counter()
        self.steps = 0  # simulated time: executed simulator events
        self.schedule = hashlib.sha256()
        self.nsched = 0
        self.evals = 0  # oracle evaluations
        self.trivial = True
        self.desc = None
        self.cleanups = []

    # -- choices ------------------------------------------------------------
    def draw(self, n, label=None):
        """Integer in [0, n).  0 must be the simplest alternative."""
        if n <= 1:
            return 0
        if self.pos >= self.MAX_DRAWS:
            raise ChoicesExhausted
        if self.replay is None:
            v = self.rnd.randrange(n)
        else:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            if v >= n:
                v = n - 1
            elif v < 0:
                v = 0
        self.pos += 1
        self.choices.append(v)
        return v

    def int(self, lo, hi, label=None):
        return lo + self.draw(hi - lo + 1, label)

    def pick(self, seq, label=None):
        return seq[self.draw(len(seq), label)]

    def flag(self, num, den, label=None):
        """True with probability num/den; False is the simple alternative."""
        return self.draw(den, label) >= den - num

    def weighted(self, pairs, label=None):
        """pairs: [(item, weight)], first is simplest."""
        tot = sum(w for _, w in pairs)
        v = self.draw(tot, label)
        for item, w in pairs:
            if v < w:
                return item
            v -= w
        return pairs[-1][0]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.flag(num, den)]

    def unit(self):
        """Float in [0,1) with 2**20 resolution."""
        return self.draw(1 << 20) / float(1 << 20)

    def npseed(self):
        return self.draw(1 << 30)

    # -- observation ----------------------------------------------------------
    def log(self, *event):
        s = "|".join(_fmt(e) for e in event)
        self.hash.update(s.encode())
        self.nevents += 1
        if self.events is not None and len(self.events) < 4000:
            self.events.append(s if len(s) < 600 else s[:600] + "...")

    def sched(self, *event):
        """Record a scheduling decision (interleaving measure)."""
        s = "|".join(_fmt(e) for e in event)
        self.schedule.update(s.encode())
        self.nsched += 1
        self.steps += 1
        self.log("sched", s)

    def step(self, n=1):
        self.steps += n

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.log("fault", kind)

    def probe(self, name, n=1):
        self.probes[name] += n

    def describe(self, obj):
        """A human-readable description of the case (for samples and replay files)."""
        self.desc = obj

    def nontrivial(self):
        self.trivial = False

    def check(self, cond, klass, message, **details):
        self.evals += 1
        if not cond:
            raise Violation(klass, message() if callable(message) else message, **details)

    def digest(self):
        return self.hash.hexdigest()[:24]


def _fmt(e):
    if isinstance(e, float):
        return repr(e)
    if isinstance(e, (str, int, bool)):
        return str(e)
    if isinstance(e, bytes):
        return hashlib.sha256(e).hexdigest()[:16]
    if isinstance(e, (set, frozenset)):
        return "{" + ",".join(sorted(map(_fmt, e))) + "}"
    if isinstance(e, (list, tuple)):
        return "(" + ",".join(map(_fmt, e)) + ")"
    if isinstance(e, dict):
        return "{" + ",".join(sorted(f"{_fmt(k)}:{_fmt(v)}" for k, v in e.items())) + "}"
    return repr(e)


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:8], "big")


# ---------------------------------------------------------------------------
# running one case

class Outcome:
    __slots__ = ("status", "klass", "message", "tb", "ctx", "details")

    def __init__(self, status, ctx, klass=None, message=None, tb=None, details=None):
        self.status, self.ctx, self.klass, self.message, self.tb = status, ctx, klass, message, tb
        self.details = details or {}


def _alarm(signum, frame):
    raise RunTimeout


def classify_exception(exc):
    """A non-Violation exception that passed through code under test is a violation; else a harness error."""
    tb = exc.__traceback__
    frames = traceback.extract_tb(tb)
    # innermost harness-or-repo frame decides: if the exception was raised below a graphix frame, graphix raised it.
    repo_frames = [f for f in frames if f.filename.startswith(REPO + "/graphix")]
    if not repo_frames:
        return None
    # a harness callback called from graphix that fails by itself is a harness error
    idx_repo = max(i for i, f in enumerate(frames) if f.filename.startswith(REPO + "/graphix"))
    idx_harn = [i for i, f in enumerate(frames) if f.filename.startswith(os.path.dirname(os.path.abspath(__file__)))]
    if idx_harn and max(idx_harn) > idx_repo:
        return None
    last = repo_frames[-1]
    return f"unexpected-exception:{type(exc).__name__}:{os.path.basename(last.filename)}"


def run_case(scenario, ctx, cap=90):
    """Run `scenario(ctx)`; returns an Outcome."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(cap)
    try:
        try:
            with contextlib.redirect_stdout(_NULL):
                scenario(ctx)
            signal.alarm(0)
            return Outcome("ok", ctx)
        except Violation as v:
            signal.alarm(0)
            return Outcome("violation", ctx, v.klass, v.message, traceback.format_exc(limit=-6), v.details)
        except Discard:
            signal.alarm(0)
            return Outcome("discard", ctx)
        except (ChoicesExhausted, TooBig):
            signal.alarm(0)
            return Outcome("discard", ctx)
        except RunTimeout:
            return Outcome("timeout", ctx, "no-progress", f"run did not finish within {cap} s", traceback.format_exc(limit=-8))
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:  # noqa: BLE001
            signal.alarm(0)
            k = classify_exception(e)
            if k is not None:
                return Outcome("violation", ctx, k, f"{type(e).__name__}: {e}", traceback.format_exc(limit=-10))
            return Outcome("harness-error", ctx, "harness", f"{type(e).__name__}: {e}", traceback.format_exc())
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        for c in reversed(ctx.cleanups):
            try:
                c()
            except Exception:  # noqa: BLE001
                pass


# ---------------------------------------------------------------------------
# minimisation

def shrink(scenario, choices, klass, budget_s=40.0, max_tries=3000):
    """Minimise a choice stream while the same violation class persists."""
    t0 = time.monotonic()
    tries = 0
    best = list(choices)

    def fails(cand):
        nonlocal tries, best
        if time.monotonic() - t0 > budget_s or tries >= max_tries:
            return False
        tries += 1
        out = run_case(scenario, Ctx(choices=cand), cap=30)
        if out.status == "violation" and out.klass == klass:
            used = out.ctx.choices
            # canonical form: what was actually consumed
            if _smaller(used, best):
                best = used
            return True
        return False

    def _smaller(a, b):
        return (len(a), sum(a)) < (len(b), sum(b))

    improved = True
    while improved and time.monotonic() - t0 < budget_s and tries < max_tries:
        improved = False
        # truncate
        for frac in (0.25, 0.5, 0.75, 0.9):
            n = int(len(best) * frac)
            if n < len(best) and fails(best[:n]):
                improved = True
                break
        # delete chunks
        for size in (32, 16, 8, 4, 3, 2, 1):
            i = len(best) - size
            while i >= 0:
                cand = best[:i] + best[i + size:]
                before = list(best)
                if fails(cand) and best != before:
                    improved = True
                    i = min(i, len(best)) - 1
                else:
                    i -= max(1, size // 2)
                if time.monotonic() - t0 > budget_s:
                    return best, tries
        # zero / lower values
        i = 0
        while i < len(best):
            v = best[i]
            if v:
                for nv in (0, v // 2, v - 1):
                    if nv < v:
                        before = list(best)
                        if fails(best[:i] + [nv] + best[i + 1:]) and best != before:
                            improved = True
                            break
            i += 1
            if time.monotonic() - t0 > budget_s:
                return best, tries
    return best, tries


# ---------------------------------------------------------------------------
# Comparisons

def deg(x):
    return x


def close_up_to_phase(a, b, tol=1e-6):
    """Normalised comparison of two arrays as rays."""
    import numpy as np

    a = np.asarray(a).reshape(-1)
    b = np.asarray(b).reshape(-1)
    if a.shape != b.shape:
        return False
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if not (math.isfinite(na) and math.isfinite(nb)) or na < 1e-12 or nb < 1e-12:
        return False
    return abs(abs(np.vdot(a, b)) / (na * nb) - 1.0) < tol


def fidelity(a, b):
    import numpy as np

    a = np.asarray(a).reshape(-1)
    b = np.asarray(b).reshape(-1)
    if a.shape != b.shape:
        return float("nan")
    return float(abs(np.vdot(a, b)) / max(1e-300, np.linalg.norm(a) * np.linalg.norm(b)))


def dumps(o):
    return json.dumps(o, indent=1, default=str)


def eprint(*a):
    print(*a, file=sys.stderr, flush=True)
