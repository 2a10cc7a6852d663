"""C22 the workflows agree."""
import json
import os
import re
import subprocess
import sys
import tempfile
import numpy as np
import solidspy.postprocesor as pos
from solidspy.solids_GUI import solids_GUI, solids_auto
from vlib.core import REPO, Family, Violation
from vlib import gen, model

RULE = ("a case is one model solved through the dictionary, through files in a scratch folder (full printed "
        "precision, varied formatting), step by step and by the program started from a terminal, with plots, strains and storage switched; results and "
        "printed counts are compared; distinct = (mesh, loads)")
ASSUMPTIONS = ["agreement to 1e-13 x condition number"]


def write(rng, folder, m):
    nodes, elements = m.tables()
    fmt = gen.pick(rng, "%.18e", "%.18e", "%r")
    delim = gen.pick(rng, " ", "  ", "\t")

    def save(name, a, ints):
        with open(os.path.join(folder, name), "w") as f:
            if rng.random() < 0.3:
                f.write("# %s\n" % name)
            for row in a:
                f.write(delim.join("%d" % v if i in ints else ("%.18e" % v if fmt != "%r" else repr(float(v)))
                                   for i, v in enumerate(row)) + "\n")
            if rng.random() < 0.2:
                f.write("\n")
    save("nodes.txt", nodes, (0, 3, 4))
    save("mater.txt", m.mats, ())
    save("eles.txt", elements, range(99))
    save("loads.txt", m.loads, (0,))


def counts(ctx, m, what):
    for word, want in (("nodes", m.n), ("elements", len(m.conn)), ("equations", int((np.asarray(m.cons) == 0).sum()))):
        got = re.findall(r"[Nn]umber of %s:?\s*(\d+)" % word, ctx.stdout)
        ctx.ok([int(g) for g in got] == [want], "%s printed %s %s, the model has %d" % (what, word, got, want))
    ctx.ok("not in equilibrium" not in ctx.stdout, what + " reports a stable model as not in equilibrium")


def split(out, strains, what, ctx):
    if strains:
        ctx.ok(isinstance(out, tuple) and len(out) == 3, what + ": does not return displacements, strains, stresses")
        return [np.asarray(o) for o in out]
    ctx.ok(not isinstance(out, tuple), what + ": returned a tuple without strains")
    return [np.asarray(out), None, None]


def same(ctx, a, b, what, tol):
    for x, y, name in zip(a, b, ("displacements", "strains", "stresses")):
        if x is not None and y is not None:
            ctx.ok(x.shape == y.shape, "%s: %s of shape %s, expected %s" % (what, name, x.shape, y.shape))
            if name != "displacements":       # (nodes without elements have no strains)
                x, y = (a[~np.isnan(y).any(axis=1)] for a in (x, y))
            ctx.close(x, y, what + ": " + name, tol, np.abs(y).max() or 1.0)


def agree(ctx):
    rng = ctx.rng
    plotting = ctx.index % 12 == 5
    if plotting:
        m, kind = model.continuum(rng, size=(2, 2)), "continuum"
    else:
        m, kind = model.any_model(rng, ("continuum", "continuum", "continuum", "truss", "frame", "line"))
    if kind == "continuum" and rng.random() < 0.1:
        m = m.reorder(cons=np.where(np.arange(m.n)[:, None] % 3 == 0, -1, m.cons))
    unused = kind == "continuum" and not plotting and rng.random() < 0.1
    if unused:                                # held nodes no element uses
        k = int(rng.integers(1, 4))
        m = m.reorder(xy=np.vstack([m.xy, m.xy[:k] + np.ptp(m.xy, axis=0)*2]),
                      cons=np.vstack([m.cons, np.full((k, m.nd), -1)]))
    K, _ = m.full()
    fr = m.free()
    cond = model.scaled_cond(K[np.ix_(fr, fr)])
    tol = 1e-13*cond + 1e-12
    strains = kind == "continuum" and rng.random() < 0.7
    base = model.modular(ctx, m)
    d = m.data()
    E = S = None
    if kind == "continuum":
        E, S = ctx.call("strain_nodes", pos.strain_nodes, d["nodes"], d["elements"], d["mats"], base["U"])
        both = [base["U"], E, S]
        if not strains:
            E = S = None
    want = [base["U"], E, S]
    # dictionary
    dd = m.data(rng)
    if rng.random() < 0.3:
        dd["nodes"] = dd["nodes"][:, :3]
    if rng.random() < 0.3:
        dd["extra"] = "ignored"
    kw = {"compute_strains": strains} if strains or rng.random() < 0.5 else {}
    out = ctx.call("solids_auto", solids_auto, dd, plot_contours=False, **kw)
    counts(ctx, m, "solids_auto")
    same(ctx, split(out, strains, "solids_auto", ctx), want, "solids_auto against the separate steps (%s)" % kind, tol)
    # dense storage
    dense = model.modular(ctx, m, rng, dense=True)
    same(ctx, [dense["U"]], want, "dense against sparse storage (%s)" % kind, tol)
    # strains never change displacements
    if kind == "continuum":
        flip = ctx.call("solids_auto", solids_auto, d, plot_contours=False, compute_strains=not strains)
        got = split(flip, not strains, "solids_auto", ctx)
        same(ctx, got, both if not strains else [base["U"], None, None], "results with strains %s" % (not strains), tol)
    # files
    if m.nd == 2:
        with tempfile.TemporaryDirectory() as folder:
            sub = os.path.join(folder, gen.pick(rng, "job", "a job", "x.y"))
            os.mkdir(sub)
            write(rng, sub, m)
            before = {f: open(os.path.join(sub, f), "rb").read() for f in os.listdir(sub)}
            arg = gen.pick(rng, sub, sub + "/", "relative")
            if arg == "relative":
                os.chdir(folder)
                arg = gen.pick(rng, os.path.basename(sub), "./" + os.path.basename(sub) + "/")
            out = ctx.call("solids_GUI", solids_GUI, plot_contours=False, compute_strains=strains, folder=arg)
            counts(ctx, m, "solids_GUI")
            same(ctx, split(out, strains, "solids_GUI", ctx), want,
                 "files against the separate steps (%s)" % kind, tol)
            after = {f: open(os.path.join(sub, f), "rb").read() for f in os.listdir(sub)}
            ctx.ok(before == after, "solids_GUI changed the job folder", files=sorted(after))
            if plotting:
                out = ctx.call("solids_GUI", solids_GUI, folder=sub, compute_strains=True)
                same(ctx, split(out, True, "solids_GUI", ctx), both, "solids_GUI with plots", tol)
            os.chdir("/")
        ctx.event("models through files")
    # plots
    if plotting:
        out = ctx.call("solids_auto", solids_auto, m.data(rng), compute_strains=strains)
        same(ctx, split(out, strains, "solids_auto", ctx), want, "solids_auto with plots", tol)
        counts(ctx, m, "solids_auto with plots")
        ctx.event("models plotted")
    elif kind != "continuum":
        out = ctx.call("solids_auto", solids_auto, m.data(rng), plot_contours=True)
        same(ctx, split(out, False, "solids_auto", ctx), want, "solids_auto printing a structural model", tol)
    ctx.high("largest condition number", cond)
    ctx.key(m.xy, m.loads)
    ctx.note(kind=kind, nodes=m.n, elements=len(m.conn), strains=strains, plotting=plotting, cond=cond)


def large(ctx):
    """thousands of equations by every route"""
    rng = ctx.rng
    name = ["quad4", "tri3", "quad9", "tri6"][ctx.index % 4]
    k = int(rng.integers(28, 36)) if name in ("quad4", "tri3") else int(rng.integers(14, 19))
    m = model.continuum(rng, name, size=(k, k), nmat=int(gen.pick(rng, 1, 3, 40)))
    base = model.modular(ctx, m)
    what = "%s model with %d equations" % (name, base["neq"])
    A = base["K"]
    E, S = ctx.call("strain_nodes", pos.strain_nodes, base["data"]["nodes"], base["data"]["elements"],
                    base["data"]["mats"], base["U"])
    want = [base["U"], E, S]
    # how far rounding can move the solution: probe with a perturbed right-hand side
    import scipy.sparse.linalg as spl
    lu = spl.splu(A.tocsc())
    probe = max(np.abs(lu.solve(rng.choice([-1.0, 1.0], A.shape[0]))).max() for _ in range(3))
    nrm = abs(A).sum(axis=1).max()
    tol = min(1e-13*nrm*probe*10 + 1e-10, 1e-3)
    out = ctx.call("solids_auto", solids_auto, m.data(rng), plot_contours=False, compute_strains=True)
    counts(ctx, m, "solids_auto")
    same(ctx, split(out, True, "solids_auto", ctx), want, "solids_auto against the separate steps, " + what, tol)
    with tempfile.TemporaryDirectory() as folder:
        write(rng, folder, m)
        out = ctx.call("solids_GUI", solids_GUI, plot_contours=False, compute_strains=True, folder=folder)
        counts(ctx, m, "solids_GUI")
        same(ctx, split(out, True, "solids_GUI", ctx), want, "files against the separate steps, " + what, tol)
    # its nodes among tens of thousands that nothing uses
    small = model.continuum(rng, name)
    big, rows = model.spread(rng, small, int(rng.integers(33000, 72000)))
    one = model.modular(ctx, small)
    with np.errstate(all="ignore"):
        dd = one["data"]
        E1, S1 = ctx.call("strain_nodes", pos.strain_nodes, dd["nodes"], dd["elements"], dd["mats"], one["U"])
        want1 = [one["U"], E1, S1]
        K1 = one["K"].toarray()
        tol1 = 1e-12*model.scaled_cond(K1) + 1e-11
        out = ctx.call("solids_auto", solids_auto, big.data(rng), plot_contours=False, compute_strains=True)
        counts(ctx, big, "solids_auto")
        same(ctx, [a[rows] for a in split(out, True, "solids_auto", ctx)], want1, "solids_auto, %d nodes in the table" % big.n, tol1)
        with tempfile.TemporaryDirectory() as folder:
            write(rng, folder, big)
            out = ctx.call("solids_GUI", solids_GUI, plot_contours=False, compute_strains=True, folder=folder)
        counts(ctx, big, "solids_GUI")
        same(ctx, [a[rows] for a in split(out, True, "solids_GUI", ctx)], want1, "files, %d nodes in the table" % big.n, tol1)
    ctx.high("longest node table", big.n)
    if base["neq"] < 2600:
        dense = model.modular(ctx, m, rng, dense=True)
        same(ctx, [dense["U"]], want, "dense against sparse storage, " + what, tol)
        ctx.close(dense["K"], A.toarray(), "dense and sparse stiffness, " + what, 1e-12)
    ctx.high("loosest tolerance", tol)
    ctx.key(m.xy, m.loads)
    ctx.note(family=name, equations=base["neq"], tolerance=tol)


def company(ctx):
    """parts that do not touch, decades apart in stiffness, load and size: each part agrees by every route"""
    rng = ctx.rng
    kind = gen.pick(rng, "tri3", "quad4", "tri6", "quad9", "truss", "frame")
    k = int(rng.integers(2, 5))
    if kind == "truss":
        ms = [model.truss(rng, "truss", int(rng.integers(3, 9))) for _ in range(k)]
    elif kind == "frame":
        ms = [model.frame(rng, int(rng.integers(2, 6))) for _ in range(k)]
    else:
        ms = [model.continuum(rng, kind, (int(rng.integers(1, 4)), int(rng.integers(1, 4)))) for _ in range(k)]
    m, parts, rows = model.company(rng, ms)
    base = model.modular(ctx, m)
    strains = kind not in ("truss", "frame")
    want = [base["U"], None, None]
    d = base["data"]
    if strains:
        want[1:] = ctx.call("strain_nodes", pos.strain_nodes, d["nodes"], d["elements"], d["mats"], base["U"])
    want = [None if a is None else np.asarray(a) for a in want]
    outs = {"dense storage": [model.modular(ctx, m, rng, dense=True)["U"], None, None]}
    out = ctx.call("solids_auto", solids_auto, m.data(rng), plot_contours=False, compute_strains=strains)
    counts(ctx, m, "solids_auto")
    outs["solids_auto"] = split(out, strains, "solids_auto", ctx)
    if m.nd == 2:
        with tempfile.TemporaryDirectory() as folder:
            write(rng, folder, m)
            out = ctx.call("solids_GUI", solids_GUI, plot_contours=False, compute_strains=strains, folder=folder)
            counts(ctx, m, "solids_GUI")
            outs["files"] = split(out, strains, "solids_GUI", ctx)
    for how, got in outs.items():
        for i, (part, r) in enumerate(zip(parts, rows)):
            K, _ = part.full()
            fr = part.free()
            tol = 1e-12*model.scaled_cond(K[np.ix_(fr, fr)]) + 1e-11
            same(ctx, [None if a is None else a[r] for a in got], [None if a is None else a[r] for a in want],
                 "%s against the separate steps, %s part %d of %d" % (how, kind, i + 1, len(parts)), tol)
            ctx.event("parts compared")
    ctx.key(m.xy, m.loads)
    ctx.note(kind=kind, parts=len(parts), nodes=m.n, elements=len(m.conn))


# starts the program as "python -m" does; figures shown and displacements computed go to a file
STARTER = """
import json, runpy, sys, types
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
how, module, folder, out = sys.argv[1:5]
ask = types.ModuleType("easygui")
def diropenbox(*a, **k):
    if how == "prompt":
        raise RuntimeError("no display")
    return folder
ask.diropenbox = diropenbox
sys.modules["easygui"] = ask
shown = []
def show(*a, **k):
    for n in plt.get_fignums():
        f = plt.figure(n)
        shown.append([a.get_title() for a in f.axes][:1] + [str(f.canvas.manager.get_window_title())])
plt.show = show
sys.argv = [module]
runpy.run_module(module, run_name="__main__", alter_sys=True)
with open(out, "w") as f:
    json.dump(shown, f)
"""


def program(ctx):
    """the program started from a terminal, in a process of its own"""
    rng = ctx.rng
    shipped = ctx.index % 4 == 3
    if shipped:
        kind, m = "shipped example", None
    else:
        m, kind = model.any_model(rng, ("continuum", "continuum", "truss"))
    how = gen.pick(rng, "prompt", "dialog")
    module = gen.pick(rng, "solidspy", "solidspy", "solidspy.solids_GUI")
    with tempfile.TemporaryDirectory() as tmp:
        folder = os.path.join(tmp, gen.pick(rng, "job", "my job"))
        os.mkdir(folder)
        if shipped:
            src = os.path.join(REPO, "examples", "square-4_elements")
            for f in os.listdir(src):
                with open(os.path.join(src, f), "rb") as a, open(os.path.join(folder, f), "wb") as b:
                    b.write(a.read())
            n, ne, neq, structural = 9, 4, 14, False
            U = ctx.call("solids_GUI", solids_GUI, plot_contours=False, folder=folder)
            doc = np.array([0.6, -0.6, -0.6, 4, 0.6, 4, -0.6, 2, 0, 4, 0.6, 2, 0, 2])
            got = np.delete(np.asarray(U, float).ravel(), [1, 3, 8, 9])
            ctx.close(got, doc, "displacements of the square example against its documentation", 1e-6)
        else:
            write(rng, folder, m)
            n, ne, neq = m.n, len(m.conn), int((np.asarray(m.cons) == 0).sum())
            structural = kind != "continuum"
            U = model.modular(ctx, m)["U"]
        cwd = gen.pick(rng, tmp, folder, "/")
        answer = folder if cwd == "/" else os.path.relpath(folder, cwd) if rng.random() < 0.5 else folder
        if cwd == folder and how == "prompt":
            answer = gen.pick(rng, "", ".", folder)
        out, start = os.path.join(tmp, "shown"), os.path.join(tmp, "start.py")
        with open(start, "w") as f:
            f.write(STARTER)
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        r = subprocess.run([sys.executable, start, how, module, answer or ".", out], input=answer + "\n", cwd=cwd,
                           env=env, capture_output=True, text=True, timeout=140)
        what = "python -m %s (%s, %s)" % (module, how, kind)
        if r.returncode:
            raise Violation("%s fails: %s" % (what, r.stderr[-300:]))
        ctx.stdout = r.stdout
        for word, want in (("nodes", n), ("elements", ne), ("equations", neq)):
            got = re.findall(r"[Nn]umber of %s:?\s*(\d+)" % word, r.stdout)
            ctx.ok([int(g) for g in got] == [want], "%s printed %s %s, the model has %d" % (what, word, got, want))
        ctx.ok("not in equilibrium" not in r.stdout, what + " reports a stable model as not in equilibrium")
        with open(out) as f:
            shown = json.load(f)
        if structural:
            tail = r.stdout[r.stdout.index("Number of equations"):]
            block = re.search(r"\[\[.*\]\]", tail, re.S)
            ctx.ok(block is not None, what + " does not print the displacements of a structural model")
            if "..." not in block.group(0):
                vals = np.array([float(v) for v in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", block.group(0))])
                ctx.close(vals, np.asarray(U).ravel(), what + ": printed displacements",
                          1e-4 + (0.0 if "e" in block.group(0) else 1e-8/(np.abs(U).max() or 1.0)), np.abs(U).max() or 1.0)
        else:
            ctx.ok(len(shown) >= 2 and len({tuple(s) for s in shown}) == len(shown),
                   "%s shows %d figures of the displacements" % (what, len(shown)), shown=shown)
        ctx.ok(sorted(os.listdir(folder)) == ["eles.txt", "loads.txt", "mater.txt", "nodes.txt"],
               what + " changed the job folder: %s" % sorted(os.listdir(folder)))
        ctx.event("programs run")
        ctx.event("figures shown", len(shown))
    ctx.key(kind, how, module, np.asarray(U))
    ctx.note(kind=kind, how=how, module=module, figures=len(shown))


FAMILIES = [Family(program, 8, 100), Family(large, 4, 80), Family(agree, 240, 4000), Family(company, 100, 2000)]
