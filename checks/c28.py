"""C28 plots show the computed field on exactly the mesh."""
import collections
import os
import tempfile
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.axes import Axes
from matplotlib.backend_bases import FigureCanvasBase
from matplotlib.tri import Triangulation, TriContourSet
import solidspy.postprocesor as pos
from solidspy.solids_GUI import solids_GUI, solids_auto
from checks.c22 import write
from vlib.core import Family
from vlib import gen, model, ref

RULE = ("a case is a mesh (triangulation checked topologically and by area, element by element) or one call of a "
        "plotting function whose figures, titles, files and drawn data (recorded at the axes) are checked; "
        "distinct = (mesh, field, options)")
ASSUMPTIONS = ["curved sides are drawn as the polygon through their nodes"]
RING = {"tri3": [0, 1, 2], "tri6": [0, 3, 1, 4, 2, 5], "quad4": [0, 1, 2, 3], "quad9": [0, 4, 1, 5, 2, 6, 3, 7]}
NAMES = ["tri3", "tri6", "quad4", "quad9"]


def area(p):
    x, y = (p - p.mean(axis=0)).T
    return 0.5*np.sum(x*np.roll(y, -1) - np.roll(x, -1)*y)


def covers(ctx, tri, xy, conn, name, what):
    """each element polygon is covered once by triangles on its own nodes, using all of them"""
    ctx.ok(isinstance(tri, Triangulation), what + ": not a triangulation")
    ctx.close(np.column_stack([tri.x, tri.y]), np.asarray(xy, float), what + ": nodes moved", 0, 1)
    T = np.asarray(tri.triangles)
    ctx.ok(T.ndim == 2 and T.shape[1] == 3, what + ": triangles of shape %s" % (T.shape,))
    ctx.ok(tri.mask is None or not np.any(tri.mask), what + ": some triangles are hidden")
    home = collections.defaultdict(list)
    node_els = collections.defaultdict(set)
    for e, el in enumerate(conn):
        for i in el:
            node_els[int(i)].add(e)
    for t in T:
        owners = set.intersection(*[node_els.get(int(i), set()) for i in t])
        ctx.ok(owners, what + ": triangle %s does not belong to an element" % (t,))
        ctx.ok(len(set(int(i) for i in t)) == 3, what + ": degenerate triangle %s" % (t,))
        home[min(owners) if len(owners) == 1 else max(owners, key=lambda e: -e)].append(t)
    for e, el in enumerate(conn):
        ring = [int(el[i]) for i in RING[name]]
        P = area(xy[ring])
        tot, edges = 0.0, collections.Counter()
        used = set()
        for t in home[e]:
            a = area(xy[t])
            ctx.ok(abs(a) > 1e-9*abs(P), what + ": element %d has a flat triangle" % e)
            t = [int(i) for i in t]
            if a*P < 0:
                t = t[::-1]
            tot += abs(a)
            used |= set(t)
            for k in range(3):
                edges[(t[k], t[(k + 1) % 3])] += 1
        ctx.close(np.array(tot), np.array(abs(P)), what + ": area of element %d" % e, 1e-9)
        ctx.ok(max(edges.values()) == 1, what + ": triangles of element %d overlap" % e)
        bound = {(a, b) for a, b in edges if (b, a) not in edges}
        ctx.ok(bound == {(ring[k], ring[(k + 1) % len(ring)]) for k in range(len(ring))},
               what + ": triangles of element %d do not fill its outline" % e)
        ctx.ok(used == set(int(i) for i in el), what + ": element %d has nodes that are not drawn" % e)
    ctx.event("triangles", len(T))
    ctx.event("elements covered", len(conn))


def triangulation(ctx):
    rng = ctx.rng
    name = NAMES[ctx.index % 4]
    m = model.continuum(rng, name, size=(9, 8) if ctx.index % 40 == 20 else None, curved=None)
    if rng.random() < 0.3:                     # long thin or strongly sheared elements
        m.xy = (m.xy - m.xy.mean(axis=0)) @ gen.affine(rng, 2, gen.pick(rng, 10.0, 100.0, 1000.0)).T
    nodes, els = m.tables(rng, cons=rng.random() < 0.5)
    extra = 0
    if rng.random() < 0.3:                     # nodes no element uses
        nodes = np.vstack([nodes, nodes[:1]])
        nodes[-1, 0] = len(nodes) - 1
        nodes[-1, 1:3] += 2*np.ptp(m.xy, axis=0)
        extra = 1
    conn = m.conn
    if rng.random() < 0.15:                    # its nodes among many others
        big, _ = model.spread(rng, m)
        (nodes, els), conn, extra = big.tables(rng), big.conn, big.n - m.n
    tri = ctx.call("mesh2tri", pos.mesh2tri, nodes, els)
    covers(ctx, tri, np.asarray(nodes)[:, 1:3], conn, name, "mesh2tri of %d %s elements" % (len(m.conn), name))
    ctx.key(m.xy, m.conn)
    ctx.note(family=name, elements=len(m.conn), unused_nodes=extra)


class Recorder:
    """observes what reaches the axes"""

    def __enter__(self):
        self.drawn = []
        self.saved = {}
        self.orig = {}
        self.printing = FigureCanvasBase.print_figure

        def printing(canvas, filename, *a, **k):
            self.saved[os.path.basename(str(filename))] = (canvas.figure, content(canvas.figure))
            return self.printing(canvas, filename, *a, **k)
        FigureCanvasBase.print_figure = printing
        for fn in ("tricontourf", "tripcolor", "tricontour"):
            self.orig[fn] = getattr(Axes, fn)

            def wrap(ax, *a, _f=fn, **k):
                out = self.orig[_f](ax, *a, **k)
                if a and isinstance(a[0], Triangulation):
                    self.drawn.append((ax, _f, a[0], np.array(a[1] if len(a) > 1 else k.get("z", 0), float)))
                return out
            setattr(Axes, fn, wrap)
        return self

    def __exit__(self, *exc):
        for fn, f in self.orig.items():
            setattr(Axes, fn, f)
        FigureCanvasBase.print_figure = self.printing


def content(fig):
    """what a figure holds"""
    out = []
    for ax in fig.axes:
        arts = [a for a in ax.get_children() if isinstance(a, (matplotlib.collections.Collection,
                                                               matplotlib.lines.Line2D))]
        out.append((ax.get_title(), len(arts), [None if getattr(a, "get_array", None) is None or
                                                a.get_array() is None else np.asarray(a.get_array()).tolist()
                                                for a in arts], ax.get_xlim(), ax.get_ylim()))
    return out


def pictures(ctx, rec, files, figs, what):
    """each file was last written from its own figure, when that was complete"""
    for i, (name, fig) in enumerate(zip(files, figs)):
        if name in rec.saved:
            owner, held = rec.saved[name]
            ctx.ok(owner is fig, what + ": file %r holds another figure" % name)
            ctx.ok(held == content(fig), what + ": file %r was written before its figure was complete" % name)
            ctx.event("saved pictures judged")
        if name.endswith(".png"):
            got = plt.imread(name)
            fig.savefig("again.png")
            want = plt.imread("again.png")
            os.remove("again.png")
            if got.shape == want.shape:
                ctx.ok(np.array_equal(got, want), what + ": the picture in %r is not the figure of field %d" % (name, i))
                ctx.event("saved pixels compared")
            ctx.ok(got.std() > 0, what + ": blank picture %r" % name)


class Others:
    """figures the caller has open already, with gaps in their numbers"""

    def __init__(self, rng, share=0.4):
        self.figs = {}
        if rng.random() < share:
            for n in rng.choice(np.arange(1, 9), int(rng.integers(1, 4)), replace=False):
                f = plt.figure(int(n))
                f.add_subplot().plot([0, 1], rng.normal(size=2))
                f.axes[0].set_title("mine")
                self.figs[int(n)] = content(f)

    def check(self, ctx, what):
        for n, held in self.figs.items():
            ctx.ok(plt.fignum_exists(n) and content(plt.figure(n)) == held, what + ": changed figure %d that was open before" % n)
            ctx.event("figures of the caller left alone")


def look(ctx, rec, cols, titles, labels, xy, conn, name, what, kind="contourf", others=(), levels=12):
    """figures open now: one per column, with titles, labels and data"""
    figs = [plt.figure(n) for n in plt.get_fignums() if n not in others]
    ctx.ok(len(figs) == len(cols), what + ": %d figures for %d fields" % (len(figs), len(cols)))
    if labels is not None:
        ctx.ok([f.get_label() for f in figs] == list(labels), what + ": window titles %s" % [f.get_label() for f in figs])
    seen = []
    for f, col, t in zip(figs, cols, titles):
        axes = [a for a in f.axes if a.get_title() or any(x is a for x, *_ in rec.drawn)]
        ctx.ok(len(f.axes) >= 1, what + ": empty figure")
        ax = f.axes[0]
        ctx.ok(ax.get_title() == t, what + ": title %r instead of %r" % (ax.get_title(), t))
        ctx.ok(len(f.axes) == 2, what + ": no colour scale")
        arts = [c for c in ax.get_children() if isinstance(c, TriContourSet) or type(c).__name__ == "TriMesh"
                or type(c).__name__ == "PolyCollection"]
        ctx.ok(len(arts) == 1, what + ": %d fields drawn in the figure %r" % (len(arts), t))
        art = arts[0]
        if isinstance(art, TriContourSet):
            ctx.ok(kind == "contourf", what + ": contours drawn for %s" % kind)
            ctx.ok(art.filled, what + ": contours not filled")
            lo, hi = art.levels[0], art.levels[-1]
            s = np.ptp(col)
            ctx.ok(lo <= col.min() + 1e-9*s and hi >= col.max() - 1e-9*s, what + ": levels [%g, %g] miss the field [%g, %g]"
                   % (lo, hi, col.min(), col.max()))
            if s > 1e-6*np.abs(col).max() and kind == "contourf":     # as many as asked for, up to round values
                k = len(art.levels)
                ctx.ok(levels/2.6 - 1 <= k <= levels + 3, what + ": %d contour levels for %d asked for" % (k, levels))
                ctx.event("contour levels counted", k)
        else:
            ctx.ok(kind == "pcolor", what + ": %s drawn for %s" % (type(art).__name__, kind))
            got = np.asarray(art.get_array(), float)
            if got.shape == col.shape:
                ctx.close(got, col, what + ": drawn values", 1e-12)
        mine = [r for r in rec.drawn if r[0] is ax]
        for _, fn, tri, z in mine:
            ctx.close(np.asarray(z, float).ravel(), col, what + ": values drawn in %r" % t, 1e-12,
                      np.abs(col).max() or 1.0)
            if id(tri) not in seen:
                seen.append(id(tri))
                covers(ctx, tri, xy, conn, name, what)
        ctx.event("fields seen drawn", len(mine))
        b = ax.get_xlim() + ax.get_ylim()
        used = xy[np.unique(conn)]
        ctx.ok(b[0] <= used[:, 0].min() + 1e-9*np.ptp(b[:2]) and b[1] >= used[:, 0].max() - 1e-9*np.ptp(b[:2]) and
               b[2] <= used[:, 1].min() + 1e-9*np.ptp(b[2:]) and b[3] >= used[:, 1].max() - 1e-9*np.ptp(b[2:]),
               what + ": part of the mesh is out of the picture")
    ctx.event("figures", len(figs))


def values(rng, m, ncols):
    k = gen.pick(rng, "smooth", "random", "constant", "tiny", "huge", "int")
    x = m.xy/np.ptp(m.xy, axis=0).max()
    F = np.column_stack([np.sin(3*x[:, 0] + i) + x[:, 1] for i in range(ncols)])
    if k == "random":
        F = rng.normal(size=F.shape)
    elif k == "constant":
        F = np.zeros(F.shape) + gen.pick(rng, 0.0, 3.0)
    elif k == "tiny":
        F = F*1e-12
    elif k == "huge":
        F = F*1e12 + 1e10
    elif k == "int":
        F = rng.integers(-9, 10, F.shape)
    return F, k


def nodefield(ctx):
    rng = ctx.rng
    plt.close("all")
    name = NAMES[ctx.index % 4]
    m = model.continuum(rng, name, size=gen.pick(rng, (2, 2), (2, 2), (3, 1), (6, 5), (10, 8)), scl=gen.pick(rng, 1.0, 1e-3, 1e3))
    nodes, els = m.tables(rng)
    nc = int(gen.pick(rng, 1, 2, 3, 3, 4, 6))
    F, k = values(rng, m, nc)
    arg = gen.dress(rng, F)
    if nc == 1 and rng.random() < 0.5:
        arg = F[:, 0].copy()
    kw, titles, labels = {}, [""]*nc, None
    kind = gen.pick(rng, "contourf", "pcolor", None)
    if kind:
        kw["plt_type"] = kind
    kind = kind or "contourf"
    if rng.random() < 0.5:
        kw["levels"] = int(gen.pick(rng, 2, 5, 12, 40))
    if rng.random() < 0.6:
        titles = ["t%d" % i for i in range(nc)]
        kw["title"] = gen.pick(rng, list, tuple)(titles)
    if rng.random() < 0.6:
        labels = ["window %d" % i for i in range(nc)]
        kw["figtitle"] = labels
    save = rng.random() < 0.35
    what = "plot_node_field of %d %s columns (%s)" % (nc, k, sorted(kw))
    others = Others(rng)
    with tempfile.TemporaryDirectory() as folder:
        os.chdir(folder)
        files = ["output%d.pdf" % i for i in range(nc)]
        if save:
            kw["savefigs"] = True
            if rng.random() < 0.7:
                files = ["field %d.%s" % (i, gen.pick(rng, "png", "png", "pdf", "svg")) for i in range(nc)]
                kw["filename"] = files
        with Recorder() as rec:
            ctx.call(what, pos.plot_node_field, arg, nodes, els, **kw)
            cols = [np.asarray(F, float)[:, i] for i in range(nc)]
            look(ctx, rec, cols, titles, labels, m.xy, m.conn, name, what, kind, others.figs, kw.get("levels", 12))
        others.check(ctx, what)
        found = sorted(os.listdir("."))
        ctx.ok(found == (sorted(files) if save else []), what + ": files %s" % found)
        ctx.ok(all(os.path.getsize(f) > 500 for f in found), what + ": empty files")
        if save:
            pictures(ctx, rec, files, [plt.figure(n) for n in plt.get_fignums() if n not in others.figs], what)
        ctx.event("files", len(found))
        os.chdir("/")
    if labels is None and nc > 1 and rng.random() < 0.3:     # more windows do not disturb the first ones
        with Recorder():
            ctx.call(what, pos.plot_node_field, arg, nodes, els, **{k_: v for k_, v in kw.items() if k_ != "filename"
                                                                     and k_ != "savefigs"})
        ctx.ok(len(plt.get_fignums()) == 2*nc + len(others.figs), what + ": second call drew on the figures of the first")
    plt.close("all")
    ctx.key(m.xy, np.asarray(F, float), sorted(kw))
    ctx.note(family=name, columns=nc, field=k, options=sorted(kw), saved=save)


def fields(ctx):
    """fields_plot and the workflow"""
    rng = ctx.rng
    plt.close("all")
    name = NAMES[ctx.index % 4]
    m = model.continuum(rng, name, size=gen.pick(rng, (2, 1), (2, 1), (6, 6)), scl=gen.pick(rng, 1.0, 1.0, 1e-4, 1e6))
    if rng.random() < 0.2:
        m.loads[:, 1:] = 0
    strains = rng.random() < 0.6
    flow = rng.random() < 0.5
    d = m.data(rng)
    files = flow and rng.random() < 0.5
    others = Others(rng)
    if rng.random() < 0.3:                     # an earlier analysis in the same session
        old = model.continuum(rng, gen.pick(rng, *NAMES), size=(2, 1), scl=gen.pick(rng, 1.0, 3.0))
        old = old.data(rng)
        V = rng.normal(size=(len(old["nodes"]), 3))
        ctx.call("fields_plot", pos.fields_plot, old["elements"], old["nodes"], V[:, :2],
                 **({"E_nodes": V} if strains else {}), **({"S_nodes": V} if strains else {}))
        again = True
    else:
        again = False
    if flow:
        with Recorder() as rec:
            if files:
                with tempfile.TemporaryDirectory() as folder:
                    write(rng, folder, m)
                    out = ctx.call("solids_GUI with plots", solids_GUI, compute_strains=strains, folder=folder)
            else:
                out = ctx.call("solids_auto with plots", solids_auto, d, compute_strains=strains)
            U, E, S = out if strains else (out, None, None)
            what = "plots of solids_GUI" if files else "plots of solids_auto"
    else:
        U = rng.normal(size=(m.n, 2))
        E, S = (rng.normal(size=(m.n, 3)), rng.normal(size=(m.n, 3))*1e6) if strains else (None, None)
        if strains and rng.random() < 0.3 and not again:
            S = None
        with Recorder() as rec:
            ctx.call("fields_plot", pos.fields_plot, d["elements"], d["nodes"], U, E_nodes=E, S_nodes=S)
            what = "fields_plot"
    cols, titles, labels = [], [], []
    for A, t, l in ((U, [r"$u_x$", r"$u_y$"], ["Horizontal displacement", "Vertical displacement"]),
                    (E, [r"$\epsilon_{xx}$", r"$\epsilon_{yy}$", r"$\gamma_{xy}$"],
                     ["Strain epsilon-xx", "Strain epsilon-yy", "Strain gamma-xy"]),
                    (S, [r"$\sigma_{xx}$", r"$\sigma_{yy}$", r"$\tau_{xy}$"],
                     ["Stress sigma-xx", "Stress sigma-yy", "Stress tau-xy"])):
        if A is not None:
            cols += list(np.asarray(A, float).T)
            titles += t
            labels += l
    look(ctx, rec, cols, titles, labels, m.xy, m.conn, name, what, others=others.figs)
    others.check(ctx, what)
    if flow and rng.random() < 0.3:            # no plots asked for
        plt.close("all")
        with tempfile.TemporaryDirectory() as folder:
            if files:
                write(rng, folder, m)
                ctx.call("solids_GUI", solids_GUI, plot_contours=False, compute_strains=strains, folder=folder)
            else:
                ctx.call("solids_auto", solids_auto, d, plot_contours=False, compute_strains=strains)
        ctx.ok(not plt.get_fignums(), what + ": figures although no plots were asked for")
    plt.close("all")
    ctx.key(m.xy, np.asarray(U, float))
    ctx.note(family=name, workflow=flow, figures=len(cols))


def segments(ax):
    """the visible straight lines of the axes: end points, width, colour"""
    out = []
    for ln in ax.lines:
        c = matplotlib.colors.to_rgba(ln.get_color(), ln.get_alpha())
        seen = ln.get_visible() and ln.get_linestyle() not in ("None", "", " ")
        out.append((np.column_stack([ln.get_xdata(), ln.get_ydata()]).astype(float),
                    ln.get_linewidth() if seen else 0.0, np.array(c)))
    for col in ax.collections:
        if isinstance(col, matplotlib.collections.LineCollection):
            col.update_scalarmappable()
            segs, lw, c = col.get_segments(), np.ravel(col.get_linewidth()), np.atleast_2d(col.get_color())
            for i, sg in enumerate(segs):
                out.append((np.asarray(sg, float), lw[i % len(lw)] if col.get_visible() else 0.0, c[i % len(c)]))
    return out


def structural(ctx):
    rng = ctx.rng
    plt.close("all")
    if ctx.index % 2:
        m, kind = model.any_model(rng, ("truss", "frame", "line"))
        if kind == "truss" and rng.random() < 0.5:
            m = model.truss(rng, "spring")
        U = np.asarray(ctx.call("solids_auto with plots (%s)" % kind, solids_auto, m.data(rng)))
        ctx.ok(not plt.get_fignums(), "contours were drawn for a structural model")
        ctx.ok(ctx.stdout.count("[") >= m.n, "the displacements of a structural model were not reported")
        ctx.key(m.xy, U)
        ctx.note(kind=kind, nodes=m.n)
        return
    m = model.truss(rng, "truss", twins=False)
    if rng.random() < 0.25:                    # its nodes among many others
        m, _ = model.spread(rng, m)
    n, ne = m.n, len(m.conn)
    if rng.random() < 0.3:
        m.mats[:, 1] = m.mats[0, 1]
    m.mats[:, 1] *= gen.pick(rng, 1.0, 1e4)
    nodes, els = m.tables(rng)
    s = None
    if rng.random() < 0.7:
        s = rng.normal(size=ne)*gen.log_uniform(rng, 1e-3, 1e9)
        k = rng.integers(8)
        if k == 0:
            s = s*0.0                            # an unloaded truss
        elif k == 1:
            s = np.abs(s)*gen.pick(rng, 1, -1)
        elif k == 2:
            s = np.full(ne, s[0])
    kw, label = {}, None
    if rng.random() < 0.5:
        kw["title"] = "A truss"
    if rng.random() < 0.5:
        kw["figtitle"] = label = "Truss window"
    if rng.random() < 0.5:
        kw["max_val"], kw["min_val"] = 6.0, 1.0
    top, low = kw.get("max_val", 4), kw.get("min_val", 0.5)
    with tempfile.TemporaryDirectory() as folder:
        os.chdir(folder)
        save = rng.random() < 0.2
        file = "output.pdf"
        if save:
            kw["savefigs"] = True
            if rng.random() < 0.5:
                file = kw["filename"] = "truss.png"
        what = "plot_truss of %d members (%s)" % (ne, sorted(kw))
        others = Others(rng)
        with Recorder() as rec:
            ctx.call(what, pos.plot_truss, nodes, els, m.mats, **({} if s is None else {"stresses": s}), **kw)
        found = os.listdir(".")
        ctx.ok(found == ([file] if save else []), what + ": files %s" % found)
        if save:
            pictures(ctx, rec, [file], [plt.figure(n) for n in plt.get_fignums() if n not in others.figs], what)
        os.chdir("/")
    others.check(ctx, what)
    figs = [n for n in plt.get_fignums() if n not in others.figs]
    ctx.ok(len(figs) == 1, what + ": %d figures" % len(figs))
    f = plt.figure(figs[0])
    ctx.ok(label is None or f.get_label() == label, what + ": window title %r" % f.get_label())
    ax = f.axes[0]
    ctx.ok(ax.get_title() == kw.get("title", ""), what + ": title %r" % ax.get_title())
    members = segments(ax)
    ctx.ok(len(members) == ne, what + ": %d lines" % len(members))
    left = {i for i in range(ne)}
    w = np.zeros(ne)
    shade = np.zeros(ne)
    dark = np.zeros(ne)
    for p, width, c in members:
        ctx.ok(p.shape == (2, 2), what + ": a member is not a straight line")
        fit = [i for i in left if np.array_equal(m.xy[m.conn[i]], p) or np.array_equal(m.xy[m.conn[i]][::-1], p)]
        ctx.ok(fit, what + ": a line that is no member", line=p)
        i = fit[0]
        left.discard(i)
        w[i] = width
        ctx.ok(c[3] > 0.5 and w[i] > 0, what + ": member %d cannot be seen" % i,
               rgba=c, width=w[i])
        shade[i] = c[0] - c[2]                 # red minus blue
        dark[i] = np.sum(1 - c[:3])
    A = m.mats[m.mid, 1]
    if np.ptp(m.mats[:, 1]) > 1e-5:
        for i in range(ne):
            want = low + (top - low)*(A[i] - m.mats[:, 1].min())/np.ptp(m.mats[:, 1])
            ctx.close(np.array(w[i]), np.array(want), what + ": width of member %d" % i, 1e-6, top)
    elif np.ptp(m.mats[:, 1]) < 1e-7:
        ctx.ok(np.ptp(w) == 0, what + ": equal members drawn with different widths")
    if s is not None:                          # tension red, compression blue, stronger is darker
        big = np.abs(s) > 0.1*np.abs(s).max()
        if not big.any():
            ctx.event("unloaded trusses drawn")
        ctx.ok(np.all(shade[big & (s > 0)] > 0) and np.all(shade[big & (s < 0)] < 0),
               what + ": colours do not tell tension from compression")
        for sgn in (1, -1):                    # the more stressed, the darker
            o = [i for i in np.argsort(np.abs(s)) if sgn*s[i] > 0]
            ctx.ok(all(dark[a] <= dark[b] + 0.02 for a, b in zip(o, o[1:])),
                   what + ": a member is drawn darker than a more stressed one")
    plt.close("all")
    ctx.event("members drawn", ne)
    ctx.key(m.xy, m.conn)
    ctx.note(kind="plot_truss", members=ne, options=sorted(kw))


def single(ctx):
    """tri_plot: one field in the current axes of the current figure"""
    rng = ctx.rng
    plt.close("all")
    name = NAMES[ctx.index % 4]
    m = model.continuum(rng, name, size=(2, 2), scl=gen.pick(rng, 1.0, 1e-3, 1e3))
    nodes, els = m.tables(rng)
    F, k = values(rng, m, 1)
    col = np.asarray(F, float)[:, 0]
    tri = ctx.call("mesh2tri", pos.mesh2tri, nodes, els)
    kw, file = {}, "solution_plot.pdf"
    kind = gen.pick(rng, "contourf", "pcolor", None)
    if kind:
        kw["plt_type"] = kind
    levels = 12
    if rng.random() < 0.5:
        kw["levels"] = levels = int(gen.pick(rng, 2, 5, 40))
    if rng.random() < 0.6:
        kw["title"] = "one field"
    save = rng.random() < 0.5
    if save:
        kw["savefigs"] = True
        if rng.random() < 0.6:
            file = kw["filename"] = gen.pick(rng, "single.png", "a field.svg")
    what = "tri_plot of a %s field (%s)" % (k, sorted(kw))
    with tempfile.TemporaryDirectory() as folder:
        os.chdir(folder)
        with Recorder() as rec:
            ctx.call(what, pos.tri_plot, tri, F[:, 0], **kw)
            look(ctx, rec, [col], [kw.get("title", "")], None, m.xy, m.conn, name, what, kind or "contourf",
                 levels=levels)
        found = os.listdir(".")
        ctx.ok(found == ([file] if save else []), what + ": files %s" % found)
        if save:
            ctx.ok(os.path.getsize(file) > 500, what + ": empty file")
            pictures(ctx, rec, [file], [plt.figure(1)], what)
        os.chdir("/")
    plt.close("all")
    ctx.key(m.xy, col, sorted(kw))
    ctx.note(family=name, field=k, options=sorted(kw))


def crowd(ctx):
    """tens of thousands of elements; thousands of members"""
    rng = ctx.rng
    plt.close("all")
    if ctx.index % 3 < 2:
        name = NAMES[(ctx.index//3*2 + ctx.index % 3 + 2) % 4]
        k = int(rng.integers(183, 200)) if name == "quad4" else int(rng.integers(130, 140)) if name == "tri3" else 95
        if ctx.tier == "thorough" and name in ("tri6", "quad9"):
            k = 190
        m = model.continuum(rng, name, size=(k, k), curved=None, kind="jitter", holes=False)
        nodes, els = m.tables(rng, cons=False)
        tri = ctx.call("mesh2tri", pos.mesh2tri, nodes, els)
        covers(ctx, tri, m.xy, m.conn, name, "mesh2tri of %d %s elements" % (len(m.conn), name))
        F = rng.normal(size=m.n)
        with Recorder() as rec:
            ctx.call("plot_node_field", pos.plot_node_field, F, nodes, els, plt_type="pcolor")
        ctx.ok(rec.drawn, "plot_node_field of %d nodes drew nothing" % m.n)
        for _, fn, _, z in rec.drawn:
            ctx.close(np.asarray(z, float).ravel(), F, "values drawn of %d nodes" % m.n, 1e-12)
        plt.close("all")
        ctx.high("elements in one mesh", len(m.conn))
        ctx.key(m.xy)
        ctx.note(kind="crowd", family=name, elements=len(m.conn))
        return
    n, ne = 120, int(rng.integers(5500, 6500)) if ctx.tier == "quick" else int(rng.integers(5000, 21000))
    pairs = np.argwhere(np.triu(np.ones((n, n)), 1))
    if ne > len(pairs):
        n = 220
        pairs = np.argwhere(np.triu(np.ones((n, n)), 1))
    conn = pairs[rng.permutation(len(pairs))[:ne]]
    xy = rng.uniform(-1, 1, (n, 2))
    mats = np.exp(rng.uniform(-2, 2, (ne, 2)))
    mid = rng.permutation(ne)
    m = model.Model(xy, conn, 6, mats, mid, np.zeros((n, 2), int), np.zeros((0, 3)))
    nodes, els = m.tables(rng)
    s = rng.normal(size=ne)
    what = "plot_truss of %d members" % ne
    ctx.call(what, pos.plot_truss, nodes, els, mats, stresses=s)
    seen = segments(plt.gcf().axes[0])
    ctx.ok(len(seen) == ne, what + ": %d lines" % len(seen))
    home = {tuple(sorted((tuple(xy[a]), tuple(xy[b])))): i for i, (a, b) in enumerate(conn)}
    who = [home.pop(tuple(sorted((tuple(p[0]), tuple(p[1])))), None) for p, _, _ in seen]
    ctx.ok(None not in who, what + ": a line that is no member", line=seen[who.index(None)][0] if None in who else "")
    w, shade = np.zeros(ne), np.zeros(ne)
    for i, (p, width, c) in zip(who, seen):
        w[i], shade[i] = width, c[0] - c[2]
    A = mats[:, 1]
    ctx.close(w, 0.5 + 3.5*(A[mid] - A.min())/np.ptp(A), what + ": widths", 1e-6, 4)
    big = np.abs(s) > 0.1*np.abs(s).max()
    ctx.ok(np.all(shade[big]*s[big] > 0), what + ": colours do not tell tension from compression")
    plt.close("all")
    ctx.high("members in one truss", ne)
    ctx.key(xy, conn)
    ctx.note(kind="plot_truss", members=ne)


FAMILIES = [Family(crowd, 3, 24), Family(triangulation, 160, 3000), Family(single, 40, 600), Family(nodefield, 64, 900), Family(fields, 24, 300),
            Family(structural, 64, 800)]
