"""Case runner: seeded cases, monitors, verdicts, evidence and replays."""
import collections
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


class Violation(Exception):
    """The property is broken by the observed execution."""


class Known(Exception):
    """The observed failure is a listed known finding."""


class CaseTimeout(Exception):
    pass


class Family:
    """A family of cases: ``fn(ctx)`` builds one case from ctx.rng, drives the
    real code and checks what it observes."""

    def __init__(self, fn, quick, thorough, name=None):
        self.fn, self.quick, self.thorough = fn, quick, thorough
        self.name = name or fn.__name__

    def count(self, tier):
        return self.quick if tier == "quick" else self.thorough


def _plain(x):
    if isinstance(x, np.ndarray):
        return x.tolist() if x.size <= 40 else "array%s %s" % (x.shape, x.dtype)
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x][:40]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:200]


class Ctx:
    def __init__(self, prop, family, index, seed, tier):
        self.prop, self.family, self.index, self.tier = prop, family, index, tier
        digest = hashlib.sha256(
            ("%s|%s|%d|%d" % (prop, family, index, seed)).encode()).digest()
        self.rng = np.random.default_rng(int.from_bytes(digest[:8], "little"))
        self.events = collections.Counter()
        self.keys = set()
        self.sample = {}
        self.maxima = {}
        self.stdout = ""

    # -- what was observed -------------------------------------------------
    def key(self, *parts):
        """Register one distinct non-trivial case (identified by content)."""
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            if isinstance(p, np.ndarray):
                h.update(np.ascontiguousarray(p).tobytes())
                h.update(str(p.shape).encode())
            else:
                h.update(repr(p).encode())
        self.keys.add(h.hexdigest())

    def note(self, **kw):
        self.sample.update({k: _plain(v) for k, v in kw.items()})

    def event(self, name, n=1):
        self.events[name] += n

    def high(self, name, value):
        value = float(value)
        if np.isfinite(value):
            self.maxima[name] = max(self.maxima.get(name, -np.inf), value)

    # -- driving the code under test ---------------------------------------
    def call(self, label, fn, *args, **kwargs):
        """Call the real code; an exception on a valid input is a violation."""
        out = io.StringIO()
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(out):
                warnings.simplefilter("ignore")
                res = fn(*args, **kwargs)
        except (CaseTimeout, Violation, Known, MemoryError):
            raise
        except Exception as exc:
            raise Violation("%s raised %s: %s" % (label, type(exc).__name__,
                                                  str(exc)[:300])) from exc
        self.events["calls"] += 1
        self.stdout = out.getvalue()
        return res

    def raises(self, exc_type, label, fn, *args, **kwargs):
        """The call must be refused with exc_type."""
        self.events["refusals expected"] += 1
        try:
            with warnings.catch_warnings(), \
                    contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                res = fn(*args, **kwargs)
        except exc_type:
            return
        except (CaseTimeout, MemoryError):
            raise
        except Exception as exc:
            raise Violation("%s raised %s (%s) instead of %s" % (
                label, type(exc).__name__, str(exc)[:200], exc_type.__name__))
        raise Violation("%s was accepted (returned %s) instead of raising %s"
                        % (label, repr(res)[:120], exc_type.__name__))

    # -- oracles -----------------------------------------------------------
    def ok(self, cond, msg, **detail):
        self.events["comparisons"] += 1
        if not bool(cond):
            raise Violation(msg + "".join(
                " %s=%s" % (k, str(_plain(v))[:400]) for k, v in detail.items()))

    def close(self, got, want, msg, tol=1e-9, scale=None):
        """max|got-want| <= tol*scale (scale defaults to max|want|)."""
        self.events["comparisons"] += 1
        if hasattr(got, "toarray"):
            got = got.toarray()
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation("%s: shape %s instead of %s" % (msg, got.shape, want.shape))
        if got.size == 0:
            return
        if got.dtype == object:
            raise Violation("%s: object array" % msg)
        if scale is None:
            scale = np.abs(want).max()
        err = np.abs(got - want)
        worst = err.max()
        if not worst <= tol*scale:
            pos = np.unravel_index(np.nanargmax(np.where(np.isnan(err), np.inf, err)), err.shape)
            raise Violation("%s: differs by %.3g (allowed %.3g) at %s: got %s, expected %s" % (
                msg, worst, tol*scale, tuple(int(i) for i in pos), got[pos], want[pos]))
        if scale > 0:
            self.high("largest relative deviation seen", worst/scale)


    def each(self, got, want, msg, allowed):
        """|got-want| <= allowed, entry by entry (each entry measured by what went into it)."""
        self.events["comparisons"] += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation("%s: shape %s instead of %s" % (msg, got.shape, want.shape))
        allowed = np.broadcast_to(np.asarray(allowed, float).reshape(
            np.shape(allowed) + (1,)*(got.ndim - np.ndim(allowed))), got.shape)
        err = np.abs(got - want)
        bad = ~(err <= allowed)
        if bad.any():
            pos = tuple(int(i) for i in np.argwhere(bad)[0])
            raise Violation("%s: differs by %.3g (allowed %.3g) at %s: got %s, expected %s" % (
                msg, err[pos], allowed[pos], pos, got[pos], want[pos]))


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(prop, families, fam, index, seed, tier, limit):
    ctx = Ctx(prop, fam, index, seed, tier)
    res = {"family": fam, "index": index, "status": "ok", "msg": ""}
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    cwd = os.getcwd()
    cpu = time.process_time()
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            families[fam].fn(ctx)
    except Violation as exc:
        res.update(status="violation", msg=str(exc))
        if exc.__cause__ is not None:
            res["trace"] = "".join(traceback.format_exception(exc.__cause__))[-3000:]
    except Known as exc:
        res.update(status="known", msg=str(exc))
    except CaseTimeout:
        busy = time.process_time() - cpu
        res.update(status="timeout", msg="case exceeded %d s" % limit, trace=traceback.format_exc()[-3000:])
        if busy > 0.8*limit:
            # (on a correct tree the longest case takes a small part of this)
            res.update(status="violation", msg="a call does not come back: %d s of processor time" % busy)
        elif busy < 0.05*limit:
            res["blocked"] = True
    except MemoryError:
        res.update(status="error", msg="out of memory")
    except Exception as exc:
        # The cases are valid inputs and the harness is silent on a correct
        # tree: what breaks the oracle here is a malformed result.
        res.update(status="violation",
                   msg="result could not be used: %s: %s" % (type(exc).__name__, str(exc)[:300]),
                   trace=traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
    res.update(events=dict(ctx.events), keys=sorted(ctx.keys), sample=ctx.sample,
               maxima=ctx.maxima)
    return res


_STATE = {}


def _work(task):
    fam, index = task
    if time.time() > _STATE["deadline"]:
        return {"family": fam, "index": index, "status": "skipped", "msg": "",
                "events": {}, "keys": [], "sample": {}, "maxima": {}}
    args = (_STATE["prop"], _STATE["families"], fam, index, _STATE["seed"], _STATE["tier"], _STATE["limit"])
    res = run_case(*args)
    if res.get("blocked"):                     # waiting for something: once more, to be sure
        res = run_case(*args)
        if res.get("blocked"):
            res.update(status="violation", msg="a call does not come back: it waits without working")
    return res


def _serve(conn):
    """worker: tasks in, one result each out"""
    while True:
        chunk = conn.recv()
        if chunk is None:
            os._exit(0)
        for t in chunk:
            conn.send(_work(t))


def _empty(task, status, msg):
    return {"family": task[0], "index": task[1], "status": status, "msg": msg, "events": {}, "keys": [],
            "sample": {}, "maxima": {}}


def pooled(order, jobs, limit):
    """results of all tasks from worker processes; one that dies or hangs is a result too"""
    ctxm = mp.get_context("fork")
    chunk = max(1, min(8, len(order)//(jobs*8)))
    todo = collections.deque(order[i:i + chunk] for i in range(0, len(order), chunk))
    retried, workers = set(), {}

    def start():
        here, there = ctxm.Pipe()
        p = ctxm.Process(target=_serve, args=(there,), daemon=True)
        p.start()
        there.close()
        workers[here] = [p, collections.deque(), time.time()]
        feed(here)

    def feed(conn):
        w = workers[conn]
        if todo:
            c = todo.popleft()
            w[1].extend(c)
            w[2] = time.time()
            conn.send(c)
        else:
            conn.send(None)
            w[0].join()
            conn.close()
            del workers[conn]

    try:
        for _ in range(min(jobs, len(todo))):
            start()
        while workers:
            ready = mp.connection.wait(list(workers), timeout=20)
            for conn in ready:
                w = workers[conn]
                try:
                    r = conn.recv()
                except (EOFError, OSError):    # the process is gone
                    w[0].join()
                    code, task = w[0].exitcode, w[1].popleft()
                    if w[1]:
                        todo.append(list(w[1]))
                    del workers[conn]
                    conn.close()
                    if code is not None and -code in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE,
                                                      signal.SIGILL):
                        yield _empty(task, "violation", "the process dies: " + signal.Signals(-code).name)
                    elif task in retried:
                        yield _empty(task, "error", "worker process ended with %s, twice" % code)
                    else:
                        retried.add(task)
                        todo.append([task])
                    if todo:
                        start()
                    continue
                w[1].popleft()
                w[2] = time.time()
                yield r
                if not w[1]:
                    feed(conn)
            for conn, w in list(workers.items()):
                if time.time() - w[2] > 2*limit + 60:       # not even the alarm gets through
                    task = w[1].popleft()
                    if w[1]:
                        todo.append(list(w[1]))
                    w[0].kill()
                    w[0].join()
                    del workers[conn]
                    conn.close()
                    yield _empty(task, "violation", "a call does not come back (compiled code, %d s)" % (2*limit + 60))
                    if todo:
                        start()
    finally:
        for w in workers.values():
            w[0].kill()
            w[0].join()


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER") or "quick",
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--family")
    ap.add_argument("--index", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    args = ap.parse_args(argv)
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop, tier = args.prop, args.tier

    mod = importlib.import_module("checks." + prop.lower())
    import solidspy
    where = os.path.realpath(solidspy.__file__)
    if not where.startswith(REPO + os.sep):
        print("ERROR: solidspy imported from %s, not from %s" % (where, REPO))
        return 2
    families = {f.name: f for f in mod.FAMILIES}
    limit = 150 if tier == "quick" else 300

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        seed, tier = rep["seed"], rep["tier"]
        _STATE.update(prop=prop, families=families, seed=seed, tier=tier, limit=limit, deadline=start + 3000)
        res = next(iter(list(pooled([(rep["family"], rep["index"])], 1, limit))))
        print(json.dumps({k: res[k] for k in ("status", "msg", "sample")}, indent=1)[:4000])
        print(res.get("trace", ""))
        if res["status"] == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1
        return 0 if res["status"] in ("ok", "known") else 2

    tasks = []
    for f in families.values():
        if args.family and f.name != args.family:
            continue
        n = max(1, int(round(f.count(tier)*args.scale)))
        idx = range(n) if args.index is None else [args.index]
        tasks.append([(f.name, i) for i in idx])
    # interleave the families so that every one is reached early
    order = []
    longest = max(len(t) for t in tasks)
    for k, t in enumerate(tasks):
        order += [((i + 0.5)/len(t), k, x) for i, x in enumerate(t)]
    order = [x for _, _, x in sorted(order, key=lambda z: z[:2])]

    _STATE.update(prop=prop, families=families, seed=seed, tier=tier, limit=limit,
                  deadline=start + (600 if tier == "quick" else 2400))
    results, bad = [], []
    for r in pooled(order, max(1, args.jobs), limit):
        results.append(r)
        if r["status"] == "violation":
            bad.append(r)
            if len(bad) >= 5:
                break

    events, keys, per_family, maxima = collections.Counter(), set(), {}, {}
    samples, known, other = [], [], []
    for r in results:
        pf = per_family.setdefault(r["family"], collections.Counter())
        pf[r["status"]] += 1
        events.update(r["events"])
        keys.update(r["keys"])
        for k, v in r["maxima"].items():
            maxima[k] = max(maxima.get(k, -np.inf), v)
        if r["sample"] and pf["sampled"] < 2:
            pf["sampled"] += 1
            samples.append({"family": r["family"], "index": r["index"], **r["sample"]})
        if r["status"] == "known":
            known.append(r)
        if r["status"] in ("timeout", "error"):
            other.append(r)
    done = [r for r in results if r["status"] in ("ok", "known", "violation")]
    missing = [f for f in per_family if not (per_family[f]["ok"] + per_family[f]["known"]
                                             + per_family[f]["violation"])]
    for pf in per_family.values():
        pf.pop("sampled", None)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(done), "distinct_nontrivial": len(keys),
            "rule": mod.RULE, "samples": samples[:12],
            "cases_per_family": {k: dict(v) for k, v in per_family.items()},
            "events_observed": dict(events),
            "extremes": {k: float("%.4g" % v) for k, v in maxima.items()}},
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - start, 2), "violations": len(bad)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not args.family:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct, %d comparisons, %d calls, %.1f s" % (
        prop, tier, seed, len(done), len(keys), events["comparisons"], events["calls"],
        time.time() - start))
    for r in known[:1]:
        print("KNOWN-FINDING: property=%s %s" % (prop, r["msg"]))
    if bad:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for r in bad[:3]:
            path = os.path.join("replays", "%s-%s-%d.json" % (prop, r["family"], r["index"]))
            with open(os.path.join(HERE, path), "w") as f:
                json.dump({"property": prop, "family": r["family"], "index": r["index"],
                           "seed": seed, "tier": tier, "message": r["msg"],
                           "trace": r.get("trace", ""), "sample": r["sample"]}, f, indent=1)
            print("  %s[%d]: %s" % (r["family"], r["index"], r["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if other or missing or not done or not keys or not events["comparisons"]:
        for r in other[:3]:
            print("INCONCLUSIVE %s[%d]: %s" % (r["family"], r["index"], r["msg"]))
        print("INCONCLUSIVE: families without a completed case: %s" % (missing,))
        return 2
    return 0
