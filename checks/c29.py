"""C29 purity, independence of results, history, threads and processes."""
import contextlib
import io
import json
import os
import pickle
import subprocess
import sys
import tempfile
import threading
from collections import Counter
import warnings
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import solidspy.postprocesor as pos
import solidspy.preprocesor as pre
import solidspy.femutil as fem
import solidspy.gaussutil as gau
import solidspy.solutil as sol
from vlib.core import HERE, REPO, Family, Violation
from vlib import alike, gen, model
from vlib.calls import Call, arrays, catalogue, copy_args, differ, flat, spoil

RULE = ("a case is a random history of ~120 calls over the whole interface; arguments are snapshotted, results "
        "overwritten by the caller, arguments modified in place, calls repeated in other orders, in 6 threads "
        "(1 us switch interval) and in fresh processes; distinct = history")
ASSUMPTIONS = ["boundary_conditions is documented to modify and return its node table",
               "repeated results equal to 1e-9 (bitwise in practice)"]
TOL = 1e-9


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def run(call, what=""):
    try:
        with quiet():
            return call.run()
    except Exception as exc:
        raise Violation("%s%s raised %s: %s" % (call.label, what, type(exc).__name__, str(exc)[:200])) from exc


def outcome(call):
    try:
        with quiet():
            return call.run()
    except Exception as exc:
        return type(exc).__name__


def state():
    """process-wide settings a call has no business changing"""
    return {"random": pickle.dumps(np.random.get_state()), "errors": dict(np.geterr()), "cwd": os.getcwd(),
            "print": {k: repr(v) for k, v in np.get_printoptions().items()},
            "rc": {k: repr(v) for k, v in matplotlib.rcParams.items() if k != "backend"},
            "env": dict(os.environ), "path": list(sys.path), "threads": threading.active_count()}


def purity(ctx):
    """arguments untouched, results independent of arguments and of each other"""
    rng = ctx.rng
    calls = catalogue(rng)
    before = state()
    for c in calls:
        keep = copy_args((c.args, c.kwargs))
        first = run(c)
        for i, (a, b) in enumerate(zip(c.args, keep[0])):
            if i not in c.changes:
                d = differ(a, b)
                ctx.ok(d is None, "%s changed its argument %d: %s" % (c.label, i, d))
        ctx.ok(differ(c.kwargs, keep[1]) is None, "%s changed a keyword argument" % c.label)
        want = copy_args(list(flat(first)))
        snap = {p: v for p, v in want}

        def same(x, why):
            got = list(flat(x))
            bad = differ([v for _, v in got], [v for _, v in want], TOL)
            ctx.ok(bad is None, "%s: %s: %s" % (c.label, why, bad))
        # results do not share memory with the arguments
        if not c.tied:
            for r in arrays(first):
                for a in arrays([c.args, c.kwargs]):
                    if r.flags.writeable and a.flags.writeable and np.shares_memory(r, a):
                        ctx.ok(False, "%s: the result is tied to an argument" % c.label)
            ctx.events["comparisons"] += 1
        # the caller may do anything with the result
        fresh = Call(c.fn, *copy_args(keep[0]), **copy_args(keep[1]))
        if not c.tied:
            second = run(fresh, " the second time")
            same(second, "called twice")
            n = spoil(first)
            same(second, "changed by overwriting another result")
            ctx.event("buffers overwritten", n)
        third = run(Call(c.fn, *copy_args(keep[0]), **copy_args(keep[1])), " after its results were overwritten")
        same(third, "differs after the caller overwrote earlier results")
        # the same objects with other contents
        big = [a for a in arrays([fresh.args]) if a.dtype.kind == "f" and a.flags.writeable and a.size and a.ndim]
        if big and not c.changes and c.fn.__name__ not in ("DME", "eqcounter", "complete_disp"):
            a = big[int(rng.integers(len(big)))]
            if a.ndim == 2 and a.shape[1] > 2 and np.array_equal(a[:, 0], np.round(a[:, 0])):
                a[:, 1:3] *= 1.25                 # a table of numbered rows
            elif not np.array_equal(a, np.round(a)) or c.fn.__module__.endswith(("uelutil", "femutil")):
                a *= 1.25
            inplace = outcome(fresh)          # the new contents may be refused, but then always
            alone = outcome(Call(c.fn, *copy_args(fresh.args), **copy_args(fresh.kwargs)))
            d = differ(inplace, alone, TOL)
            ctx.ok(d is None, "%s remembers the earlier contents of its argument: %s" % (c.label, d))
            ctx.event("in-place modifications")
        ctx.event("calls to " + c.label)
    after = state()
    for k in before:
        ctx.ok(before[k] == after[k], "the calls changed the process's %s" % k)
    ctx.key(*[c.label for c in calls], [str(v)[:200] for c in calls for _, v in flat(c.args)])
    ctx.note(calls=len(calls), functions=len({c.label for c in calls}))


def disturb(rng):
    """something else happens in between: refused calls, plots, other models"""
    k = int(rng.integers(6))
    with quiet():
        try:
            if k == 0:
                sol.static_sol([[1.0]], [1.0])
            elif k == 1:
                fem.eletype(99)
            elif k == 2:
                gau.gauss_1d(1)
            elif k == 3:
                fem.jacoper(np.array([[-1., 1, 0], [-1, 0, 1]]), np.zeros((3, 2)))
            elif k == 4:
                x, y, els = pre.rect_grid(1, 1, 2, 2)
                pos.plot_node_field(x, np.column_stack([np.arange(9), x, y]), els)
                plt.close("all")
            else:
                for c in catalogue(rng, 10):
                    spoil(c.run())
        except Exception:
            pass


def history(ctx):
    """the same calls in different orders, with disturbances"""
    rng = ctx.rng
    calls = catalogue(rng)
    res = [copy_args(list(flat(run(c.clone())))) for c in calls]
    for turn in range(2):
        order = rng.permutation(len(calls)) if turn else np.arange(len(calls))[::-1]
        for i in order:
            if rng.random() < 0.15:
                disturb(rng)
            out = run(calls[i].clone())
            d = differ([v for _, v in flat(out)], [v for _, v in res[i]], TOL)
            ctx.ok(d is None, "%s gave another answer in another history: %s" % (calls[i].label, d))
            if rng.random() < 0.5 and not calls[i].tied:
                spoil(out)
    ctx.event("calls repeated", 2*len(calls))
    ctx.key([c.label for c in calls], [str(v)[:100] for r in res for _, v in r])
    ctx.note(calls=len(calls))


def threads(ctx):
    rng = ctx.rng
    calls = [c for c in catalogue(rng)]
    res = [copy_args([v for _, v in flat(run(c.clone()))]) for c in calls]
    bad, done = [], []
    old = sys.getswitchinterval()
    n = 6
    go = threading.Barrier(n)
    orders = [np.random.default_rng(int(rng.integers(2**31))).permutation(len(calls)) for _ in range(n)]
    shared = rng.random() < 0.5                # same argument objects in all threads

    def work(k):
        go.wait()
        for i in orders[k]:
            c = calls[i] if shared and not calls[i].changes else calls[i].clone()
            try:
                out = c.run()
            except Exception as exc:
                bad.append("%s raised %s: %s in a thread" % (c.label, type(exc).__name__, str(exc)[:100]))
                return
            d = differ([v for _, v in flat(out)], res[i], TOL)
            if d:
                bad.append("%s gave another answer in concurrent threads: %s" % (c.label, d))
                return
            done.append(1)
            if not shared and not c.tied:
                spoil(out)
    try:
        sys.setswitchinterval(1e-6)
        with quiet():
            ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
            [t.start() for t in ts]
            [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    ctx.ok(not bad, bad[0] if bad else "")
    ctx.event("calls in threads", len(done))
    ctx.events["comparisons"] += len(done)
    ctx.key([c.label for c in calls], orders[0])
    ctx.note(calls=len(calls), threads=n, shared_arguments=bool(shared))


def fresh(ctx):
    """the same calls in a fresh process and another order"""
    rng = ctx.rng
    calls = catalogue(rng)
    res = [copy_args([v for _, v in flat(run(c.clone()))]) for c in calls]
    order = rng.permutation(len(calls))
    with tempfile.TemporaryDirectory() as d:
        a, b = os.path.join(d, "in"), os.path.join(d, "out")
        with open(a, "wb") as f:
            pickle.dump([(calls[i].fn, copy_args(calls[i].args), copy_args(calls[i].kwargs)) for i in order], f)
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 999))))
        r = subprocess.run([sys.executable, "-m", "vlib.calls", a, b], cwd=HERE, env=env, capture_output=True,
                           text=True, timeout=140)
        if r.returncode:
            raise Violation("the calls fail in a fresh process: %s" % r.stderr[-300:])
        with open(b, "rb") as f:
            out = pickle.load(f)
    for i, o in zip(order, out):
        dd = differ([v for _, v in o], res[i], TOL)
        ctx.ok(dd is None, "%s gave another answer in a fresh process: %s" % (calls[i].label, dd))
    ctx.event("calls in fresh processes", len(calls))
    ctx.key([c.label for c in calls], order)
    ctx.note(calls=len(calls))


def lookalikes(ctx):
    """calls that differ in little, in two fresh processes: forwards in the same buffers, backwards in new ones"""
    rng = ctx.rng
    calls = catalogue(rng)
    many = Counter(c.label for c in calls)
    groups = []
    for c in calls:
        v = alike.group(rng, c, 8 if many[c.label] == 1 else 3)
        groups.append([c.fn, v, list(range(len(v)))])
    ways = [(groups, [int(i) for i in rng.permutation(len(groups))], True),
            ([(fn, v, seq[-2::-1] + seq[-1:]) for fn, v, seq in groups], [int(i) for i in rng.permutation(len(groups))], False)]
    res = []
    with tempfile.TemporaryDirectory() as d:
        for k, way in enumerate(ways):
            a, b = os.path.join(d, "in%d" % k), os.path.join(d, "out%d" % k)
            with open(a, "wb") as f:
                pickle.dump(way, f)
            r = subprocess.run([sys.executable, "-m", "vlib.alike", a, b], cwd=HERE, capture_output=True, text=True,
                               timeout=140)
            if r.returncode:
                raise Violation("the calls fail in a fresh process: %s" % r.stderr[-300:])
            with open(b, "rb") as f:
                res.append(pickle.load(f))
    told = 0
    for g, c in enumerate(calls):
        n = len(groups[g][1])
        tol = TOL if c.label in alike.TAME else 1e-10
        for k in range(n):
            x, y = res[0][g, k], res[1][g, k]
            ctx.ok([p for p, _ in x] == [p for p, _ in y], "%s: outcome depends on which similar calls came before" % c.label)
            dd = differ([v for _, v in x], [v for _, v in y], tol)
            ctx.ok(dd is None, "%s: the answer depends on which similar calls came before (variant %d of %d): %s"
                   % (c.label, k, n, dd))
            z = res[0][g, 0]
            told += ([(p, type(v)) for p, v in x] != [(p, type(v)) for p, v in z]
                     or differ([v for _, v in x], [v for _, v in z], 3*tol) is not None)
    ctx.event("calls that look alike", sum(len(v) for _, v, _ in groups))
    ctx.event("look-alikes with distinguishable answers", told)
    ctx.key([c.label for c in calls], told)
    ctx.note(calls=len(calls), distinguishable=told)


def settings(ctx):
    """every call in a fresh process, which keeps its settings, streams, files and the functions of other modules"""
    with tempfile.TemporaryDirectory() as d:
        r = subprocess.run([sys.executable, "-m", "vlib.settings", str(int(ctx.rng.integers(2**31))), d], cwd=HERE,
                           capture_output=True, text=True, timeout=140)
    ctx.ok(r.returncode == 0, "the calls fail in a fresh process: %s" % r.stderr[-300:])
    log = json.loads(r.stdout.splitlines()[-1])
    ctx.ok(not log["bad"], log["bad"][0] if log["bad"] else "")
    ctx.event("calls judged for process-wide settings", log["calls"])
    ctx.events["comparisons"] += log["calls"]*28
    ctx.key("settings", ctx.rng.random())
    ctx.note(calls=log["calls"], functions=log["labels"])


ODD = [np.nan, np.inf, -np.inf, -0.0, 0.0, -1.0, 1e300, 1e-300, -1e-12]


def odd(ctx):
    """arguments holding unusual numbers: whatever comes of it, they stay as they were"""
    rng = ctx.rng
    calls = catalogue(rng, 60)
    before = state()
    for c in calls:
        if c.changes:
            continue
        mine = c.clone()
        bufs = [a for a in arrays([mine.args, list(mine.kwargs.values())]) if a.dtype.kind in "fc" and a.flags.writeable and a.size]
        if not bufs:
            continue
        for a in bufs:
            if rng.random() < 0.6:
                for _ in range(int(rng.integers(1, 3))):
                    at = tuple(int(rng.integers(k)) for k in a.shape)
                    if a.ndim == 2 and at[1] == 0 and np.array_equal(a[:, 0], np.round(a[:, 0])):
                        continue                   # a column of numbers of rows
                    a[at] = -a[at] if rng.random() < 0.3 else ODD[int(rng.integers(len(ODD)))]
        keep = copy_args((mine.args, mine.kwargs))
        first = outcome(mine)
        d = differ((mine.args, mine.kwargs), keep)
        ctx.ok(d is None, "%s changed its unusual argument: %s" % (c.label, d))
        zeros = [np.signbit(a).tobytes() for a in arrays([mine.args]) if a.dtype.kind == "f"]
        ctx.ok(zeros == [np.signbit(a).tobytes() for a in arrays([keep[0]]) if a.dtype.kind == "f"],
               "%s changed a sign in its unusual argument" % c.label)
        again = outcome(Call(c.fn, *copy_args(keep[0]), **copy_args(keep[1])))
        d = differ(again, first, TOL)
        ctx.ok(d is None, "%s gave two answers for the same unusual argument: %s" % (c.label, d))
        ctx.event("refused" if isinstance(first, str) else "answered")
    after = state()
    for k in before:
        ctx.ok(before[k] == after[k], "calls with unusual arguments changed the process's %s" % k)
    ctx.key([c.label for c in calls], [str(v)[:100] for c in calls for _, v in flat(c.args)])
    ctx.note(calls=len(calls))


FAMILIES = [Family(settings, 8, 150), Family(odd, 16, 300), Family(purity, 40, 800), Family(history, 24, 400), Family(threads, 12, 200), Family(fresh, 12, 150), Family(lookalikes, 24, 300)]
