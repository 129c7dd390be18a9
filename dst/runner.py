"""Seeded search over simulated runs: forked workers, minimisation, replay files, evidence."""

from __future__ import annotations

import importlib
import json
import mmap
import os
import pickle
import selectors
import signal
import struct
import sys
import time
import traceback
from collections import Counter

from dst.core import Ctx, Outcome, derive_seed, eprint, run_case, shrink
import random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY_DIR = os.path.join(VERIF, "evidence", "replays")


def load(prop):
    return importlib.import_module(f"dst.checks.{prop.lower()}")


def load_known():
    """Lines `known: {json}` of known_findings.txt; `fixed: ...` lines are records only and suppress nothing."""
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                out.append(json.loads(line[len("known:"):]))
    return out


class Matcher:
    """Known findings of one property: a violation is known only if class and signature are listed."""

    def __init__(self, prop):
        self.items = [k for k in load_known() if k.get("property") == prop]

    def match(self, out):
        sig = out.details.get("signature")
        for k in self.items:
            if k["klass"] == out.klass and sig is not None and k["signature"] == sig:
                return k["id"]
        return None


def pick_scenario(mod, rs):
    tot = sum(w for _, _, w in mod.SCENARIOS)
    v = rs.randrange(tot)
    for name, fn, w in mod.SCENARIOS:
        if v < w:
            return name, fn
        v -= w
    raise AssertionError


def run_index(mod, prop, seed, idx, cap=90):
    rs = random.Random(derive_seed("scenario", prop, seed, idx))
    name, fn = pick_scenario(mod, rs)
    ctx = Ctx(seed=derive_seed("run", prop, seed, idx))
    return name, fn, run_case(fn, ctx, cap=cap)


def reset_globals(mod):
    f = getattr(mod, "reset", None)
    if f:
        f()


# --------------------------------------------------------------------------- worker

def worker(prop, mod, seed, w, nw, nruns, deadline, wfd, shm, quick):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    matcher = Matcher(prop)
    st = dict(
        runs=0, ok=0, discards=0, nontrivial=set(), scheds=set(), faults=Counter(), probes=Counter(), steps=0,
        evals=0, scen=Counter(), samples={}, known=Counter(), draws=0, truncated=False, fault_runs=0,
    )

    def send(msg):
        data = pickle.dumps(msg)
        os.write(wfd, struct.pack("<Q", len(data)))
        mv = memoryview(data)
        while mv:
            n = os.write(wfd, mv[:65536])
            mv = mv[n:]

    idx = w
    while idx < nruns:
        if time.monotonic() > deadline:
            st["truncated"] = True
            break
        struct.pack_into("<q", shm, 8 * w, idx)
        name, fn, out = run_index(mod, prop, seed, idx)
        if out.status == "timeout":
            name, fn, out = run_index(mod, prop, seed, idx, cap=240)
            if out.status == "timeout":
                out.status = "violation"
        ctx = out.ctx
        st["runs"] += 1
        st["scen"][name] += 1
        st["steps"] += ctx.steps
        st["evals"] += ctx.evals
        st["draws"] += ctx.pos
        st["faults"].update(ctx.faults)
        if ctx.faults:
            st["fault_runs"] += 1
        st["probes"].update(ctx.probes)
        if out.status == "discard":
            st["discards"] += 1
        elif out.status == "ok":
            st["ok"] += 1
            h = ctx.hash.digest()[:8]
            if not ctx.trivial:
                st["nontrivial"].add(h)
            if ctx.nsched:
                st["scheds"].add(ctx.schedule.digest()[:8])
            if ctx.desc is not None and not ctx.trivial and name not in st["samples"]:
                st["samples"][name] = dict(run=idx, scenario=name, case=str(ctx.desc)[:1200])
        elif out.status == "violation":
            k = matcher.match(out)
            if k is not None:
                st["known"][k] += 1
                idx += nw
                continue
            choices = list(ctx.choices)
            rec = dict(idx=idx, w=w, nw=nw, scenario=name, klass=out.klass, message=out.message, tb=out.tb,
                       choices=choices, shrunk=None, tries=0)
            send(("found", dict(idx=idx, scenario=name, klass=out.klass, message=out.message)))
            if out.klass != "no-progress":
                try:
                    best, tries = shrink(fn, choices, out.klass, budget_s=float(os.environ.get("DST_SHRINK_S") or (40 if quick else 120)))
                    rec["shrunk"], rec["tries"] = best, tries
                except Exception:  # noqa: BLE001
                    rec["shrink_error"] = traceback.format_exc()
            send(("violation", rec))
            break
        else:
            send(("harness", dict(idx=idx, scenario=name, message=out.message, tb=out.tb)))
            break
        idx += nw
    struct.pack_into("<q", shm, 8 * w, -2)
    send(("stats", st))
    os.close(wfd)
    sys.stdout.flush()
    os._exit(0)


# --------------------------------------------------------------------------- isolated re-execution

def in_fork(fn, timeout=400):
    """Run fn() in a fresh fork of the (clean) parent; returns its pickled result or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            res = fn()
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    sel = selectors.DefaultSelector()
    sel.register(r, selectors.EVENT_READ)
    t0 = time.monotonic()
    while True:
        if not sel.select(timeout=max(0.1, timeout - (time.monotonic() - t0))):
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
        if time.monotonic() - t0 > timeout:
            os.kill(pid, signal.SIGKILL)
            break
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def replay_choices(mod, scenario, choices, keep=True):
    fn = {n: f for n, f, _ in mod.SCENARIOS}[scenario]
    ctx = Ctx(choices=list(choices), keep_events=keep)
    out = run_case(fn, ctx, cap=240)
    return dict(status=out.status, klass=out.klass, message=out.message, tb=out.tb, digest=ctx.digest(),
                events=ctx.events, faults=dict(ctx.faults), desc=str(ctx.desc), used=ctx.choices)


def replay_prefix(mod, prop, seed, indices):
    """Re-execute run indices in sequence (state carried across runs); report the last one."""
    out = None
    for i in indices:
        name, fn, out = run_index(mod, prop, seed, i, cap=240)
    return dict(status=out.status, klass=out.klass, message=out.message, tb=out.tb, digest=out.ctx.digest(),
                events=None, faults=dict(out.ctx.faults), desc=str(out.ctx.desc), used=out.ctx.choices)


def finalize_violation(prop, mod, seed, rec):
    """Confirm in a clean fork, write the replay file; returns its path."""
    os.makedirs(REPLAY_DIR, exist_ok=True)
    klass = rec["klass"]
    body = None
    for cand in (rec.get("shrunk"), rec["choices"]):
        if cand is None:
            continue
        r = in_fork(lambda: replay_choices(mod, rec["scenario"], cand))
        if r and r["status"] in ("violation", "timeout") and r["klass"] == klass:
            body = dict(kind="choices", choices=cand, **_rfields(r))
            break
    if body is None:
        # state carried over from earlier runs in the same process: replay as a sequence of runs
        allidx = list(range(rec["w"], rec["idx"] + 1, rec["nw"]))
        for k in (2, 4, 8, 16, 32, 64, 10**9):
            idxs = allidx[-k:]
            r = in_fork(lambda: replay_prefix(mod, prop, seed, idxs), timeout=600)
            if r and r["status"] in ("violation", "timeout") and r["klass"] == klass:
                body = dict(kind="runs", runs=idxs, **_rfields(r))
                break
            if k >= len(allidx):
                break
    if body is None:
        return None
    body = dict(property=prop, scenario=rec["scenario"], seed=seed, run=rec["idx"], klass=klass,
                minimisation_tries=rec["tries"], original_length=len(rec["choices"]), **body)
    name = f"{prop}-{seed}-{rec['idx']}.json"
    path = os.path.join(REPLAY_DIR, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def _rfields(r):
    return dict(message=r["message"], traceback=r["tb"], digest=r["digest"], faults=r["faults"], case=r["desc"],
                events=r["events"])


# --------------------------------------------------------------------------- main entry

def run_property(prop, tier, seed, workers=8, runs=None, cap_s=None):
    t_start = time.monotonic()
    mod = load(prop)
    quick = tier == "quick"
    nruns = runs or (mod.QUICK_RUNS if quick else mod.THOROUGH_RUNS)
    cap_s = cap_s or (getattr(mod, "QUICK_CAP", 420) if quick else getattr(mod, "THOROUGH_CAP", 3000))
    setup = getattr(mod, "setup", None)
    if setup:
        setup(tier)
    t_import = time.monotonic() - t_start
    deadline = time.monotonic() + cap_s
    shm = mmap.mmap(-1, 8 * 64)
    for i in range(64):
        struct.pack_into("<q", shm, 8 * i, -1)
    sel = selectors.DefaultSelector()
    procs = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(workers):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                worker(prop, mod, seed, w, workers, nruns, deadline, wfd, shm, quick)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                os._exit(70)
        os.close(wfd)
        procs[r] = dict(pid=pid, w=w, buf=b"", done=False)
        sel.register(r, selectors.EVENT_READ)
    agg = None
    violations = []
    harness = []
    found_at = None
    crashed = []
    t_explore0 = time.monotonic()
    hard = deadline + 420
    while procs:
        ev = sel.select(timeout=1.0)
        now = time.monotonic()
        for key, _ in ev:
            r = key.fd
            p = procs[r]
            b = os.read(r, 1 << 20)
            if b:
                p["buf"] += b
                while len(p["buf"]) >= 8:
                    (n,) = struct.unpack("<Q", p["buf"][:8])
                    if len(p["buf"]) < 8 + n:
                        break
                    kind, msg = pickle.loads(p["buf"][8:8 + n])
                    p["buf"] = p["buf"][8 + n:]
                    if kind == "stats":
                        agg = merge(agg, msg)
                        p["done"] = True
                    elif kind == "violation":
                        violations.append(msg)
                    elif kind == "found":
                        eprint(f"[{prop}] candidate violation in run {msg['idx']} ({msg['scenario']}): [{msg['klass']}] {msg['message'][:300]}")
                        found_at = found_at or now
                    elif kind == "harness":
                        harness.append(msg)
                        found_at = found_at or now
            else:
                sel.unregister(r)
                os.close(r)
                _, status = os.waitpid(p["pid"], 0)
                if not p["done"]:
                    (idx,) = struct.unpack_from("<q", shm, 8 * p["w"])
                    crashed.append((p["w"], idx, status))
                del procs[r]
        if violations or (found_at and now - found_at > 200) or now > hard:
            # one unlisted violation is enough: stop the others
            for r, p in list(procs.items()):
                try:
                    os.kill(p["pid"], signal.SIGKILL)
                except ProcessLookupError:
                    pass
                sel.unregister(r)
                os.close(r)
                os.waitpid(p["pid"], 0)
                del procs[r]
            break
    t_explore = time.monotonic() - t_explore0
    rc = 0
    if now > hard:
        harness.append(dict(idx=-1, scenario="-", message="workers did not stop in time", tb=""))
    for w, idx, status in crashed:
        if violations:
            break
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
        if sig in (signal.SIGKILL,) or idx < 0 or sig is None:
            harness.append(dict(idx=idx, scenario="-", message=f"worker {w} died (status {status})", tb=""))
            continue
        r = in_fork(lambda: replay_prefix(mod, prop, seed, [idx]))
        if r is None:
            path = os.path.join(REPLAY_DIR, f"{prop}-{seed}-{idx}.json")
            os.makedirs(REPLAY_DIR, exist_ok=True)
            json.dump(dict(property=prop, scenario="-", seed=seed, run=idx, klass="process-crash", kind="runs",
                           runs=[idx], message=f"process killed by signal {sig}"), open(path, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  process killed by signal {sig} in run {idx}")
            rc = 1
        else:
            harness.append(dict(idx=idx, scenario="-", message=f"worker {w} died (signal {sig}), not reproducible", tb=""))
    path = None
    unconfirmed = 0
    for rec in violations:
        path = finalize_violation(prop, mod, seed, rec)
        if path:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  scenario={rec['scenario']} run={rec['idx']} class={rec['klass']}")
            body = json.load(open(path))
            print(f"  {body['message'][:2000]}")
            print(f"  case: {body.get('case', '')[:3000]}")
            rc = 1
            break
        unconfirmed += 1
        harness.append(dict(idx=rec["idx"], scenario=rec["scenario"],
                            message=f"violation did not replay: [{rec['klass']}] {rec['message']}", tb=rec["tb"]))
    if rc == 0 and harness:
        for h in harness[:3]:
            eprint(f"HARNESS ERROR property={prop} run={h['idx']} scenario={h['scenario']}: {h['message']}\n{h['tb']}")
        rc = 3
    agg = agg or dict(runs=0, ok=0, discards=0, nontrivial=set(), scheds=set(), faults=Counter(), probes=Counter(),
                      steps=0, evals=0, scen=Counter(), samples={}, known=Counter(), draws=0, truncated=True, fault_runs=0)
    known_ids = {k["id"]: k for k in Matcher(prop).items}
    # listed findings are reported every time, from their own reproduction
    known_check = getattr(mod, "known_findings", None)
    reported = set(agg["known"])
    if known_check and known_ids:
        reported |= set(known_check(known_ids) or ())
    for kid in sorted(reported):
        k = known_ids.get(kid)
        if k:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    wall = time.monotonic() - t_start
    if rc == 0 and agg["ok"] == 0:
        eprint(f"HARNESS ERROR property={prop}: no run completed")
        rc = 3
    min_probe = getattr(mod, "REQUIRED_PROBES", ())
    missing = [p for p in min_probe if not agg["probes"].get(p)]
    if rc == 0 and missing and not agg["truncated"] and nruns >= mod.QUICK_RUNS:
        eprint(f"HARNESS ERROR property={prop}: probes never hit: {missing}")
        rc = 3
    write_evidence(prop, mod, tier, seed, agg, wall, t_explore, t_import, 1 if rc == 1 else 0, workers)
    print(f"[{prop}] tier={tier} seed={seed} runs={agg['runs']} ok={agg['ok']} discards={agg['discards']} "
          f"nontrivial={len(agg['nontrivial'])} schedules={len(agg['scheds'])} evals={agg['evals']} "
          f"faults={sum(agg['faults'].values())} wall={wall:.1f}s explore={t_explore:.1f}s rc={rc}")
    return rc


def merge(a, b):
    if a is None:
        return b
    for k in ("runs", "ok", "discards", "steps", "evals", "draws", "fault_runs"):
        a[k] += b[k]
    for k in ("nontrivial", "scheds"):
        a[k] |= b[k]
    for k in ("faults", "probes", "scen", "known"):
        a[k].update(b[k])
    for k, v in b["samples"].items():
        a["samples"].setdefault(k, v)
    a["truncated"] |= b["truncated"]
    return a


def write_evidence(prop, mod, tier, seed, agg, wall, explore, t_import, nviol, workers):
    samples = list(agg["samples"].values())[:8]
    cov = dict(
        evaluations=agg["runs"],
        distinct_nontrivial=len(agg["nontrivial"]),
        rule=mod.RULE,
        samples=samples or ["(no completed non-trivial run)"],
        oracle_evaluations=agg["evals"],
        runs_discarded_by_precondition=agg["discards"],
        runs_by_scenario=dict(agg["scen"]),
        seeds_per_hour=round(agg["runs"] / max(explore, 1e-9) * 3600),
        runs_per_hour=round(agg["runs"] / max(explore, 1e-9) * 3600),
        simulated_time_events=agg["steps"],
        faults_injected=dict(agg["faults"]),
        runs_with_faults=agg["fault_runs"],
        distinct_interleavings=len(agg["scheds"]),
        distinct_interleavings_measure="distinct sequences of scheduler decisions (hash of the decision log of a run)",
        probes_hit=dict(agg["probes"]),
        random_decisions=agg["draws"],
        components_real=mod.REAL,
        components_stub=mod.STUB,
        workers=workers,
        truncated_by_time_cap=agg["truncated"],
        import_s=round(t_import, 1),
        explore_s=round(explore, 1),
        known_findings_hit=dict(agg["known"]),
        exhaustive=False,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov, assumptions=mod.ASSUMPTIONS,
              wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))


def replay_file(path):
    body = json.load(open(path))
    prop = body["property"]
    mod = load(prop)
    setup = getattr(mod, "setup", None)
    if setup:
        setup("quick")
    if body["kind"] == "choices":
        r = in_fork(lambda: replay_choices(mod, body["scenario"], body["choices"]))
    else:
        r = in_fork(lambda: replay_prefix(mod, prop, body["seed"], body["runs"]))
    if r is None and body["klass"] == "process-crash":
        print(f"VIOLATION property={prop} replay={path}\n  process crash reproduced")
        return 1
    if r and r["status"] in ("violation", "timeout") and r["klass"] == body["klass"]:
        same = r["digest"] == body.get("digest")
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  class={r['klass']} event-log {'identical' if same else 'DIFFERS'} ({r['digest']})")
        print(f"  {r['message']}\n  case: {r['desc']}\n{r['tb']}")
        return 1
    print(f"replay of {path}: not reproduced: {r and (r['status'], r['klass'], r['message'], r['tb'])}")
    return 0 if r and r["status"] == "ok" else 3


def digests(prop, seed, indices, workers):
    """Determinism self-test support: event-log digests of the given run indices."""
    mod = load(prop)
    setup = getattr(mod, "setup", None)
    if setup:
        setup("quick")

    def job(w):
        res = {}
        for i in indices[w::workers]:
            name, _, out = run_index(mod, prop, seed, i)
            res[i] = (name, out.status, out.klass, out.ctx.digest(), out.ctx.schedule.hexdigest()[:16])
        return res

    out = {}
    for w in range(workers):
        out.update(in_fork(lambda: job(w), timeout=3000) or {})
    return out
