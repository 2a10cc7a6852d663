"""Fresh process: calls over the whole interface, one at a time, and what each leaves behind in the process.

Nothing here protects or resets a setting, so a change made by the first call is seen at that call."""
import atexit
import builtins
import decimal
import gc
import io
import json
import locale
import logging
import os
import pickle
import random
import signal
import sys
import threading
import warnings

import numpy as np
import numpy.linalg
import scipy.sparse
import scipy.sparse.linalg
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import matplotlib.tri

OTHERS = [builtins, np, np.linalg, scipy.sparse, scipy.sparse.linalg, plt, os, sys]


def open_files():
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink("/proc/self/fd/" + fd))
        except OSError:
            pass
    return sorted(x for x in out if "/proc/" not in x)


def state(scratch=None):
    mask = os.umask(0o22)
    os.umask(mask)
    s = {"floating-point error handling": (dict(np.geterr()), repr(np.geterrcall())),
         "print options": {k: repr(v) for k, v in np.get_printoptions().items()},
         "numpy random state": pickle.dumps(np.random.get_state()), "random state": random.getstate(),
         "warning filters": [repr(f) for f in warnings.filters], "warning display": id(warnings.showwarning),
         "working directory": os.getcwd(), "environment": dict(os.environ), "umask": mask,
         "module search path": list(sys.path), "recursion limit": sys.getrecursionlimit(),
         "switch interval": sys.getswitchinterval(), "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
         "hooks": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)),
         "tracing": (repr(sys.gettrace()), repr(sys.getprofile())),
         "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
         "signal handlers": {int(n): repr(signal.getsignal(n)) for n in signal.valid_signals()},
         "alarm": signal.getitimer(signal.ITIMER_REAL), "locale": locale.setlocale(locale.LC_ALL),
         "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
         "threads": threading.active_count(), "decimal context": repr(decimal.getcontext()),
         "exit handlers": atexit._ncallbacks(), "open files": open_files(),
         "plot settings": {k: repr(v) for k, v in matplotlib.rcParams.items()},
         "plot mode": (plt.isinteractive(), matplotlib.get_backend()), "buffer size": np.getbufsize()}
    s["functions of other modules"] = {(m.__name__, k): id(v) for m in OTHERS for k, v in list(vars(m).items())
                                       if callable(v)}
    if scratch:
        s["files"] = sorted(os.path.join(d, f) for d, _, fs in os.walk(scratch) for f in fs)
    return s


def compare(a, b):
    """first setting that changed, or None"""
    for k in a:
        if k in ("functions of other modules",):        # names may be added lazily, not replaced
            bad = [x for x in a[k] if b[k].get(x) != a[k][x]]
            if bad:
                return "%s: %s" % (k, ".".join(bad[0]))
        elif a[k] != b[k]:
            if isinstance(a[k], dict):
                bad = [x for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x)]
                return "%s: %s: %s / %s" % (k, bad[0], a[k].get(bad[0]), b[k].get(bad[0]))
            if isinstance(a[k], (bytes, tuple)) and len(repr(a[k])) > 200:
                return k
            if k == "files":
                return "files: %s" % sorted(set(a[k]) ^ set(b[k]))[:4]
            return "%s: %s / %s" % (k, str(a[k])[:200], str(b[k])[:200])
    return None


def warm():
    """what the libraries underneath initialise lazily"""
    fig = plt.figure("w", clear=True)
    x = np.array([0., 1, 0, 1])
    t = matplotlib.tri.Triangulation(x, np.array([0., 0, 1, 1]), np.array([[0, 1, 2], [1, 3, 2]]))
    for k in range(2):
        plt.figure("w%d" % k, clear=True)
        (plt.tricontourf(t, x, 5) if k else plt.tripcolor(t, x, shading="gouraud"))
        plt.title(r"$\epsilon$")
        plt.colorbar(orientation="vertical")
        plt.axis("image")
        for ext in ("pdf", "png", "svg"):
            plt.savefig(io.BytesIO(), format=ext)
    plt.plot([0, 1], [0, 1], color=plt.cm.seismic(0.3))
    plt.close("all")
    A = scipy.sparse.csr_matrix(np.eye(3))
    scipy.sparse.linalg.spsolve(A, np.ones(3))
    scipy.sparse.linalg.spsolve((A*1j).tocsr(), np.ones(3))
    np.linalg.solve(np.eye(2), np.ones(2))
    np.savetxt(os.devnull, np.eye(2), fmt="%5.2f")
    np.loadtxt(io.StringIO("1 2\n3 4\n"))
    del fig


def others(rng, folder, scratch):
    """calls that plot, read and write"""
    from vlib import model
    from vlib.calls import Call
    from checks.c22 import write
    import solidspy.postprocesor as pos
    import solidspy.preprocesor as pre
    from solidspy.solids_GUI import solids_GUI, solids_auto
    name = ["tri3", "quad4", "tri6", "quad9"][int(rng.integers(4))]
    m = model.continuum(rng, name, size=(2, 2), cols=2)
    write(rng, folder, m)
    nodes, els = m.tables()
    U = rng.normal(size=(m.n, 2))
    F = rng.normal(size=(m.n, 3))
    tri = pos.mesh2tri(nodes, els)
    t, _ = model.any_model(rng, ("truss",))
    tn, te = t.tables()
    t.mats = np.column_stack([np.ones(len(t.mats)), rng.uniform(0.1, 2, len(t.mats))])
    S = rng.normal(size=len(te))
    t2 = os.path.join(scratch, "plot.png")
    out = [Call(solids_auto, m.data()), Call(solids_auto, m.data(), compute_strains=True), Call(solids_GUI, folder=folder),
           Call(solids_GUI, folder=folder, compute_strains=True), Call(solids_GUI, plot_contours=False, folder=folder),
           Call(pre.readin, folder), Call(pos.fields_plot, els, nodes, U), Call(pos.fields_plot, els, nodes, U, E_nodes=F, S_nodes=F),
           Call(pos.tri_plot, tri, U[:, 0]), Call(pos.tri_plot, tri, U[:, 0], plt_type="pcolor", levels=5),
           Call(pos.plot_node_field, U, nodes, els), Call(pos.plot_node_field, U[:, 1], nodes, els, plt_type="pcolor"),
           Call(pos.fields_plot, te, tn, rng.normal(size=(t.n, 2))), Call(solids_auto, t.data()),
           Call(pos.plot_truss, tn, te, t.mats), Call(pos.plot_truss, tn, te, t.mats, stresses=S)]
    saves = [Call(pos.tri_plot, tri, U[:, 0], savefigs=True, filename=t2),
             Call(pos.plot_node_field, U, nodes, els, savefigs=True, filename=[t2, t2]),
             Call(pos.plot_truss, tn, te, t.mats, stresses=S, savefigs=True, filename=t2),
             Call(pre.echomod, nodes, m.mats, els, m.loads, folder=folder)]
    return out, saves


def main(seed, scratch):
    rng = np.random.default_rng(seed)
    os.chdir(scratch)
    real, sys.stdout = sys.stdout, io.StringIO()
    folder = os.path.join(scratch, "model")
    os.mkdir(folder)
    import solidspy.solids_GUI                      # importing sets the plot style
    import solidspy.blochutil
    import solidspy.uelutil
    import checks.c22                               # (what the machinery needs)
    from vlib.calls import catalogue
    warm()
    # the numbers are chosen before anything is judged; the first state is the one right after importing
    first = state(scratch)
    log = {"calls": 0, "bad": [], "labels": {}}
    calls = catalogue(rng)
    more, saves = others(rng, folder, scratch)
    second = state()
    first.pop("files")
    d = compare(first, second)
    if d:
        log["bad"].append("setting up calls changed the process's " + d)
    calls = [c for c in calls + more]
    calls = [calls[i] for i in rng.permutation(len(calls))]
    calls += saves
    for c in calls:
        files = scratch if c not in saves else None
        if rng.random() < 0.2:                      # unusual settings are kept too
            np.seterr(**{k: ["ignore", "warn"][int(rng.integers(2))] for k in np.geterr()})
            np.set_printoptions(precision=int(rng.integers(3, 12)))
            matplotlib.rcParams["font.size"] = float(rng.integers(8, 14))
            matplotlib.rcParams["lines.linewidth"] = float(rng.integers(1, 4))
            np.random.seed(int(rng.integers(1000)))
            random.seed(int(rng.integers(1000)))
            sys.setrecursionlimit(int(rng.integers(2000, 4000)))
            warnings.filters.insert(0, (["ignore", "default"][int(rng.integers(2))], None, UserWarning, None, int(rng.integers(1, 99))))
            os.environ["SOME"] = str(rng.integers(99))
        before = state(files)
        try:
            c.run()
        except Exception as exc:
            log["bad"].append("%s raised %s: %s" % (c.label, type(exc).__name__, str(exc)[:200]))
            break
        plt.close("all")
        d = compare(before, state(files))
        if d:
            log["bad"].append("%s changed the process's %s" % (c.label, d))
            break
        log["calls"] += 1
        log["labels"][c.label] = log["labels"].get(c.label, 0) + 1
    sys.stdout = real
    print(json.dumps(log))


if __name__ == "__main__":
    main(int(sys.argv[1]), os.path.realpath(sys.argv[2]))
