"""C34 failures are reported and leave inputs, files and later calls as they were."""
import contextlib
import gc
import io
import os
import sys
import tempfile
import warnings
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.preprocesor as pre
from solidspy.solids_GUI import solids_GUI, solids_auto
from checks.c22 import write
from checks.c29 import state
from checks.c32 import dialog, fingerprint
from vlib.core import REPO, CaseTimeout, Family, Violation
from vlib import gen, model
from vlib.calls import Call, catalogue, copy_args, differ, flat

RULE = ("a case is a set of calls cut short at a random executed line (interrupt, lack of memory, failure of a "
        "called routine), or fed files that cannot be read, targets that cannot be written, tables that refer to "
        "missing rows; what reaches the caller is judged, then arguments, files, process state and the answers of "
        "the same calls afterwards are compared with what they were; distinct = (call, place)")
ASSUMPTIONS = ["boundary_conditions may have set some of its constraints when it is interrupted",
               "lines of the library are the places where a call can be cut short",
               "references beyond the tables are judged, negative ones are not"]
LIB = os.path.join(REPO, "solidspy") + os.sep
TOL = 1e-9


class Cut(Exception):
    """failure of something the library calls"""


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


class tracer:
    """counts executed lines of the library; raises at the given one"""

    def __init__(self, at=None, exc=None):
        self.at, self.exc, self.n, self.where = at, exc, 0, None

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at:
                self.where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise self.exc
        return self._local

    def _enter(self, frame, event, arg):
        return self._local if frame.f_code.co_filename.startswith(LIB) else None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._enter)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


def kind(rng):
    k = int(rng.integers(4))
    return [KeyboardInterrupt("cut"), MemoryError("cut"), Cut("cut"), OSError(28, "cut")][k]


def descriptors():
    gc.collect()
    return len(os.listdir("/proc/self/fd"))


def cut_short(ctx, label, fn, rng, lines=None, at=None):
    """run fn and cut it short. Returns (outcome or None, place)"""
    if lines is None:
        with quiet(), tracer() as t:
            fn()
        lines = t.n
    if not lines:
        return None, None
    exc = kind(rng)
    if at is not None and rng.random() < 0.6:
        exc = KeyboardInterrupt("cut")
    if at is None:
        at = int(rng.integers(1, lines + 1)) if rng.random() < 0.8 else int(gen.pick(rng, 1, 2, lines))
    out = "nothing"
    try:
        with quiet(), tracer(min(at, lines), exc) as t:
            out = fn()
    except CaseTimeout:
        raise
    except BaseException as got:
        if t.where is not None:
            ctx.event("%s reached the caller" % type(exc).__name__)
            if isinstance(exc, KeyboardInterrupt):
                ctx.ok(isinstance(got, KeyboardInterrupt), "%s: an interrupt at %s became %s"
                       % (label, t.where, type(got).__name__))
        elif isinstance(got, Exception):
            raise Violation("%s raised %s: %s" % (label, type(got).__name__, got)) from got
        else:
            raise
        del got
        return None, t.where
    if t.where is not None:
        ctx.ok(not isinstance(exc, KeyboardInterrupt), "%s: an interrupt at %s was swallowed" % (label, t.where))
        ctx.event("failures handled inside")
    return (out,), t.where


def calls(ctx):
    """any call of the interface, cut short in its middle"""
    rng = ctx.rng
    todo = catalogue(rng, 40)
    res = []
    for c in todo:
        try:
            with quiet():
                res.append(copy_args(list(flat(c.clone().run()))))
        except Exception as exc:
            raise Violation("%s raised %s: %s" % (c.label, type(exc).__name__, exc)) from exc
    before = state()
    places = []

    def same(c, i, out, why):
        d = differ([v for _, v in flat(out)], [v for _, v in res[i]], TOL)
        ctx.ok(d is None, "%s: %s: %s" % (c.label, why, d))
    for i, c in enumerate(todo):
        mine = c.clone()
        keep = copy_args((mine.args, mine.kwargs))
        out, where = cut_short(ctx, c.label, lambda: c.clone().run() if c.changes else mine.run(), rng)
        if out is not None:
            same(c, i, out[0], "wrong answer after a failure at %s inside" % where)
        ctx.ok(differ((mine.args, mine.kwargs), keep) is None, "%s cut short at %s changed its arguments" % (c.label, where))
        with quiet():
            try:
                again = mine.run()
            except Exception as exc:
                raise Violation("%s fails after it was cut short at %s: %s" % (c.label, where, exc)) from exc
        same(c, i, again, "another answer after it was cut short at %s" % where)
        places.append((c.label, where))
    for i in rng.permutation(len(todo))[:20]:    # everything else still works
        with quiet():
            out = todo[int(i)].clone().run()
        same(todo[int(i)], int(i), out, "another answer after other calls were cut short")
    after = state()
    for k in before:
        ctx.ok(before[k] == after[k], "calls cut short leave the process's %s changed" % k)
    ctx.event("calls cut short", len(places))
    for p in places:
        ctx.key(p)
    ctx.note(calls=len(places), places=[str(p) for p in places[:10]])


def files(ctx):
    """routines that use files, cut short"""
    rng = ctx.rng
    which = ["echomod", "readin", "solids_GUI", "plots", "dialog", "solids_GUI with plots"][ctx.index % 6]
    m = model.continuum(rng, size=(2, 1))
    home = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        base = os.path.realpath(tmp)
        job = os.path.join(base, "job")
        os.mkdir(job)
        write(rng, job, m)
        os.chdir(base)
        try:
            tabs = pre.readin(job)
            keep = [t.copy() for t in tabs]
            d = m.data()
            F = rng.normal(size=(m.n, 2))
            if which == "echomod":
                fn = lambda: pre.echomod(*tabs, folder=job)
                mine = {"job/" + f for f in ("KNODES.txt", "KMATES.txt", "KELEMS.txt", "KLOADS.txt")}
            elif which == "readin":
                fn, mine = (lambda: pre.readin(job)), set()
            elif which == "solids_GUI":
                fn, mine = (lambda: solids_GUI(plot_contours=False, folder=job, compute_strains=True)), set()
            elif which == "plots":
                fn = lambda: pos.plot_node_field(F, d["nodes"], d["elements"], savefigs=True, filename=["a.png", "b.png"])
                mine = {"a.png", "b.png"}
            elif which == "dialog":
                fn, mine = (lambda: pre.readin(folder=pre.initial_params())), set()
            else:
                fn, mine = (lambda: solids_GUI(folder=job)), set()
            ask = dialog(gen.pick(rng, "dialog", "missing", "fails"), job, job) if which == "dialog" \
                else contextlib.nullcontext()
            with ask:
                with quiet(), tracer() as t:
                    want = copy_args(list(flat(fn())))
                for f in mine:
                    ctx.ok(os.path.exists(f), "%s did not write %s" % (which, f))
                plt.close("all")
                before, st, fds = fingerprint(base), state(), descriptors()
                # every line of a short routine, some of a long one
                turns = range(1, t.n + 1) if t.n <= 30 else [None]*4
                for turn in turns:
                    out, where = cut_short(ctx, which, fn, rng, t.n, turn)
                    after = fingerprint(base)
                    for f in set(before) | set(after):
                        ctx.ok(f in mine or before.get(f) == after.get(f), "%s cut short at %s changed %s" % (which, where, f))
                    ctx.ok(all(np.array_equal(a, b) for a, b in zip(tabs, keep)), "%s cut short at %s changed its tables"
                           % (which, where))
                    if out is not None:
                        bad = differ([v for _, v in flat(out[0])], [v for _, v in want], TOL)
                        ctx.ok(bad is None, "%s: wrong answer after a failure at %s inside: %s" % (which, where, bad))
                    plt.close("all")
                    with quiet():
                        try:
                            again = fn()
                        except Exception as exc:
                            raise Violation("%s fails after it was cut short at %s: %s" % (which, where, exc)) from exc
                    bad = differ([v for _, v in flat(again)], [v for _, v in want], TOL)
                    ctx.ok(bad is None, "%s: another answer after it was cut short at %s: %s" % (which, where, bad))
                    done = fingerprint(base)
                    for f in set(before) | set(done):
                        ctx.ok(before.get(f, [])[2:] == done.get(f, [])[2:] if f.endswith(".txt") else f in done,
                               "%s after it was cut short at %s: %s is not what it should be" % (which, where, f))
                    ctx.key(which, where)
                    ctx.event("calls cut short")
                    plt.close("all")
            now = state()
            for k in st:
                ctx.ok(st[k] == now[k], "%s cut short leaves the process's %s changed" % (which, k))
            ctx.ok(descriptors() <= fds, "%s cut short leaves files open" % which)
        finally:
            os.chdir(home)
    ctx.note(routine=which, last_place=where)


def damage(rng, folder):
    """make one file of the model unreadable. Returns a description"""
    name = gen.pick(rng, "nodes.txt", "mater.txt", "eles.txt", "loads.txt")
    path = os.path.join(folder, name)
    k = gen.pick(rng, "missing", "ragged", "ragged", "word", "word", "folder", "binary", "commas", "fraction", "narrow")
    if k == "narrow":                          # a column is missing everywhere
        if name in ("mater.txt", "loads.txt"):  # (which columns of these are read is not judged)
            name, path = "nodes.txt", os.path.join(folder, "nodes.txt")
        rows = [ln.split() for ln in open(path).read().splitlines() if ln.strip() and not ln.startswith("#")]
        with open(path, "w") as f:
            f.write("\n".join(" ".join(r[:-1]) for r in rows) + "\n")
        return "columns missing in %s" % name
    if k == "fraction":
        name, path = "eles.txt", os.path.join(folder, "eles.txt")
    rows = [ln for ln in open(path).read().splitlines() if ln.strip() and not ln.startswith("#")]
    i = int(rng.integers(len(rows)))
    parts = rows[i].split()
    j = int(rng.integers(len(parts)))
    if k == "missing":
        os.remove(path)
        return "%s missing" % name
    if k == "folder":
        os.remove(path)
        os.mkdir(path)
        return "%s is a folder" % name
    if k == "ragged" and len(rows) < 2:
        k = "word"
    if k == "ragged":
        parts = parts[:-1] if rng.random() < 0.5 and len(parts) > 1 else parts + ["7"]
    elif k == "word":
        parts[j] = gen.pick(rng, "x", "1.5.2", "--1", "1e", "O", "1_0x", "node")
    elif k == "binary":
        parts[j] = "\x00\x01"
    elif k == "fraction":
        parts[j] = parts[j] + ".5"
    sep = "," if k == "commas" else " "
    if k == "commas" and len(parts) == 1:
        parts.append("2")
    rows[i] = sep.join(parts)
    with open(path, "w") as f:
        f.write("\n".join(rows) + "\n")
    return "%s in row %d of %s" % (k, i, name)


def refused(ctx, what, fn, folder=None):
    """the call must raise, leaving the files alone"""
    before = fingerprint(folder) if folder else None
    try:
        with quiet():
            out = fn()
    except CaseTimeout:
        raise
    except Exception as exc:
        ctx.event("refused with " + type(exc).__name__)
    else:
        raise Violation("%s: accepted (returned %s)" % (what, repr(out)[:150]))
    ctx.events["comparisons"] += 1
    if folder:
        ctx.ok(fingerprint(folder) == before, "%s: files changed" % what)


def unreadable(ctx):
    rng = ctx.rng
    m, what = model.any_model(rng, ("continuum", "truss"))
    with tempfile.TemporaryDirectory() as tmp:
        good, job = os.path.join(tmp, "good"), os.path.join(tmp, "job")
        for f in (good, job):
            os.mkdir(f)
            write(rng, f, m)
        want = [t.copy() for t in ctx.call("readin", pre.readin, good)]
        U = ctx.call("solids_GUI", solids_GUI, plot_contours=False, folder=good)
        if rng.random() < 0.5:                   # it was readable a moment ago
            ctx.call("readin", pre.readin, job)
        how = damage(rng, job)
        os.chdir(good if rng.random() < 0.5 else tmp)
        if not how.startswith("columns"):
            refused(ctx, "readin with %s" % how, lambda: pre.readin(job), tmp)
        refused(ctx, "solids_GUI with %s" % how, lambda: solids_GUI(plot_contours=False, folder=job), tmp)
        os.chdir("/")
        got = ctx.call("readin", pre.readin, good)
        ctx.ok(all(np.array_equal(a, b) for a, b in zip(got, want)), "readin of a sound folder after %s" % how)
        V = ctx.call("solids_GUI", solids_GUI, plot_contours=False, folder=good)
        ctx.close(V, U, "solids_GUI of a sound folder after %s" % how, 1e-9, np.abs(U).max() or 1.0)
    ctx.key(how, m.xy)
    ctx.note(model=what, damage=how)


def unwritable(ctx):
    rng = ctx.rng
    m = model.continuum(rng, size=(2, 1))
    d = m.data()
    nodes, els = m.tables()
    tabs = [nodes, m.mats, els, m.loads]
    keep = copy_args(tabs)
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        os.mkdir("job")
        write(rng, "job", m)
        if ctx.index % 3 < 2:
            f = os.path.join("job", gen.pick(rng, "KNODES.txt", "KMATES.txt", "KELEMS.txt", "KLOADS.txt"))
            how = gen.pick(rng, "full device", "folder in the way", "no such folder")
            if how == "full device":
                os.symlink("/dev/full", f)
            elif how == "folder in the way":
                os.mkdir(f)
            what = "echomod (%s, %s)" % (how, os.path.basename(f))
            ins = {k: v for k, v in fingerprint(os.path.join(tmp, "job")).items() if not k.startswith("K")} \
                if how != "full device" else None
            refused(ctx, what, lambda: pre.echomod(*tabs, folder="nowhere" if how == "no such folder" else "job"))
            if ins is not None:
                now = {k: v for k, v in fingerprint(os.path.join(tmp, "job")).items() if not k.startswith("K")}
                ctx.ok(now == ins, what + ": input files changed")
            ctx.ok(sorted(os.listdir(tmp)) == ["job"], what + ": created %s" % os.listdir(tmp))
            ctx.ok(differ(tabs, keep) is None, what + ": tables changed")
            if how == "full device":
                os.remove(f)
            elif how == "folder in the way":
                os.rmdir(f)
            ctx.call("echomod afterwards", pre.echomod, *tabs, folder="job")
            echo = np.loadtxt(os.path.join("job", "KELEMS.txt"), ndmin=2)
            ctx.ok(np.array_equal(echo, els), "echomod after a failure wrote another table")
            U = ctx.call("solids_GUI", solids_GUI, plot_contours=False, folder="job")
            V = ctx.call("solids_auto", solids_auto, d, plot_contours=False)
            ctx.close(U, V, what + ": model solved afterwards", 1e-9, np.abs(np.asarray(V)).max() or 1.0)
        else:
            F = rng.normal(size=(m.n, 2))
            how = gen.pick(rng, "no such folder", "full device")
            bad = "nowhere/b.png" if how == "no such folder" else "b.png"
            if how == "full device":
                os.symlink("/dev/full", "b.png")
            what = "plot_node_field saved to %s" % how
            refused(ctx, what, lambda: pos.plot_node_field(F, nodes, els, savefigs=True, filename=["a.png", bad]))
            plt.close("all")
            ctx.call(what + " afterwards", pos.plot_node_field, F, nodes, els, savefigs=True, filename=["a.png", "c.png"])
            ctx.ok(len(plt.get_fignums()) == 2 and os.path.getsize("c.png") > 500, what + ": later plots are not made")
            plt.close("all")
        os.chdir("/")
    ctx.key(what, m.xy)
    ctx.note(what=what)


def dangling(ctx):
    """tables that refer to nodes or materials beyond the tables"""
    rng = ctx.rng
    m, what = model.any_model(rng, ("continuum", "truss", "frame"))
    good = ctx.call("solids_auto", solids_auto, m.data(), plot_contours=False)
    good = np.array(good, float)
    how = ["node of an element", "material of an element", "node of a load"][ctx.index % 3]
    past = int(gen.pick(rng, 0, 0, 1, 7, 10**6))
    conn, mid, lo = np.array(m.conn), np.array(m.mid), np.array(m.loads, float)
    if how == "node of an element":
        conn[int(rng.integers(len(conn))), int(rng.integers(conn.shape[1]))] = m.n + past
    elif how == "material of an element":
        mid[int(rng.integers(len(mid)))] = len(m.mats) + past
    else:
        lo[int(rng.integers(len(lo))), 0] = m.n + past
    bad = m.reorder(conn=conn, mid=mid, loads=lo)
    label = "%s beyond the table by %d (%s)" % (how, past + 1, what)
    d = bad.data(rng)
    keep = copy_args(d)
    refused(ctx, "solids_auto with a " + label, lambda: solids_auto(d, plot_contours=False))
    ctx.ok(differ(d, keep) is None, "solids_auto with a %s changed its data" % label)
    if m.nd == 2:
        with tempfile.TemporaryDirectory() as tmp:
            write(rng, tmp, bad)
            refused(ctx, "solids_GUI with a " + label, lambda: solids_GUI(plot_contours=False, folder=tmp), tmp)
    nodes, els = bad.tables()
    if how == "node of an element":
        refused(ctx, "DME with a " + label, lambda: ass.DME(bad.cons, els, ndof_node=m.nd))
    if what == "continuum" and how != "node of a load":
        refused(ctx, "strain_nodes with a " + label,
                lambda: pos.strain_nodes(nodes, els, m.mats, rng.normal(size=(m.n, 2))))
    after = ctx.call("solids_auto", solids_auto, m.data(), plot_contours=False)
    ctx.close(after, good, "the sound model after a %s" % label, 1e-9, np.abs(good).max() or 1.0)
    ctx.key(label, m.xy)
    ctx.note(what=label)


FAMILIES = [Family(calls, 24, 500), Family(files, 36, 700), Family(unreadable, 100, 2500), Family(unwritable, 45, 900),
            Family(dangling, 90, 2500)]
