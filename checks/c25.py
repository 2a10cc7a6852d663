"""C25 mesh import helpers and the template script."""
import contextlib
import io
import os
import shutil
import subprocess
import sys
import tempfile
import numpy as np
import solidspy.assemutil as ass
import solidspy.preprocesor as pre
from vlib.core import REPO, Family, Violation
from vlib import gen, ref

RULE = ("a case is a mesh with tagged cells (dictionary as meshio gives it, or a generated gmsh 2.2 file read by "
        "meshio) and a history of ele_writer/node_writer/boundary_conditions/loading calls, or one run of the "
        "shipped template script; the tables are checked cell by cell; distinct = (mesh, tags, history)")
ASSUMPTIONS = ["physical lines used for loads exist in the mesh",
               "the template's files are compared to their printed precision"]
NN = {"triangle": 3, "triangle6": 6, "quad": 4, "quad9": 9}
GMSH = {"triangle": 2, "quad": 3, "triangle6": 9, "quad9": 10, "line": 1, "vertex": 15}


def random_mesh(rng, big=False):
    """tagged cells of several kinds, arbitrary but consistent connectivity"""
    n = int(rng.integers(9, 60)) if not big else int(rng.integers(34000, 70000))
    many = 1 if not big else int(gen.pick(rng, 1, 1500))
    tags = [1, 2, 3, 100, 200]
    if rng.random() < 0.4:                    # tags that share their low bits
        tags = [1, 257, 65537, 100, 100 + 2**30]
    elif rng.random() < 0.3:                  # or their magnitude
        tags = [1, -1, 2, 100, -100]
    points = rng.normal(size=(n, 3))*gen.log_uniform(rng, 1e-3, 1e3)
    if rng.random() < 0.5:
        points[:, 2] = 0
    cells, data = {}, {}
    for tag in NN:
        if rng.random() < 0.7 or tag == "triangle":
            k = int(rng.integers(1, 25))*many
            cells[tag] = np.array([rng.permutation(n)[:NN[tag]] for _ in range(k)]) if not big else \
                (rng.integers(0, n, k)[:, None] + np.arange(NN[tag])*37) % n
            data[tag] = {"gmsh:physical": rng.choice(tags, k),
                         "gmsh:geometrical": rng.integers(0, 99, k)}
    k = int(rng.integers(1, 30))*many
    if rng.random() < 0.5 or big:             # chains of segments sharing nodes
        p = rng.permutation(n)
        seg = np.array([[p[i % n], p[(i + 1) % n]] for i in range(k)])
    else:
        seg = np.array([rng.permutation(n)[:2] for _ in range(k)])
    cells["line"] = seg
    data["line"] = {"gmsh:physical": rng.choice([*tags, 300, 400, 500], k), "gmsh:geometrical": np.zeros(k, int)}
    if rng.random() < 0.5:
        cells["vertex"] = rng.integers(0, n, (3, 1))
        data["vertex"] = {"gmsh:physical": np.array([1, 2, 3]), "gmsh:geometrical": np.zeros(3, int)}
    t = gen.pick(rng, int, np.int32, np.uint64, np.int64)
    cells = {k_: v.astype(t) for k_, v in cells.items()}
    return points, cells, data


def save_msh(rng, path, points, cells, data):
    els = [(tag, i) for tag in cells for i in range(len(cells[tag]))]
    if rng.random() < 0.6:                    # sorted by kind as gmsh does, or interleaved
        els = [els[i] for i in rng.permutation(len(els))]
    with open(path, "w") as f:
        f.write("$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n%d\n" % len(points))
        for i, p in enumerate(points):
            f.write("%d %r %r %r\n" % (i + 1, *map(float, p)))
        f.write("$EndNodes\n$Elements\n%d\n" % len(els))
        for k, (tag, i) in enumerate(els):
            f.write("%d %d 2 %d %d %s\n" % (k + 1, GMSH[tag], data[tag]["gmsh:physical"][i],
                                            data[tag]["gmsh:geometrical"][i],
                                            " ".join(str(v + 1) for v in cells[tag][i])))
        f.write("$EndElements\n")
    order = {tag: [i for t, i in els if t == tag] for tag in cells}
    return order


def history(ctx):
    rng = ctx.rng
    points, cells, data = random_mesh(rng, ctx.index % 74 == 30)
    source = "dict"
    if ctx.index % 3 == 2:
        import meshio
        source = "msh"
        with tempfile.TemporaryDirectory() as folder:
            order = save_msh(rng, os.path.join(folder, "m.msh"), points, cells, data)
            with contextlib.redirect_stdout(io.StringIO()):
                mesh = meshio.read(os.path.join(folder, "m.msh"))
        got_c, got_d, pts = mesh.cells, mesh.cell_data, mesh.points
        cells = {t: cells[t][order[t]] for t in cells}
        data = {t: {k: v[order[t]] for k, v in data[t].items()} for t in data}
        pd = mesh.point_data
    else:
        got_c, got_d, pts, pd = {k: v.copy() for k, v in cells.items()}, \
            {k: {a: b.copy() for a, b in v.items()} for k, v in data.items()}, points, {}
    nodes = np.asarray(ctx.call("node_writer", pre.node_writer, gen.dress(rng, pts, ints=False), pd))
    n = len(points)
    ctx.ok(nodes.shape == (n, 5), "node_writer: shape %s" % (nodes.shape,))
    ctx.ok(np.array_equal(nodes[:, 0], np.arange(n)), "node_writer: ids")
    ctx.close(nodes[:, 1:3], points[:, :2], "node_writer: coordinates", 0, 1)
    ctx.ok(not nodes[:, 3:].any(), "node_writer: nodes are constrained")
    # element groups, ids continue over groups
    nini = int(gen.pick(rng, 0, 0, 1, 17))
    nid, seen = nini, []
    for _ in range(int(rng.integers(1, 6))):
        tag = gen.pick(rng, *[t for t in cells if t in NN])
        phy = int(gen.pick(rng, *np.unique(data[tag]["gmsh:physical"]), 1, 77))
        et, mat = int(rng.integers(1, 5)), int(rng.integers(0, 4))
        nf, table = ctx.call("ele_writer", pre.ele_writer, got_c, got_d, tag, phy, et, mat, nid)
        table = np.asarray(table)
        want = cells[tag][data[tag]["gmsh:physical"] == phy]
        what = "ele_writer(%s, group %d of %d cells, first id %d)" % (tag, phy, len(cells[tag]), nid)
        ctx.ok(table.shape == (len(want), 3 + NN[tag]), what + ": shape %s, %d cells are in the group"
               % (table.shape, len(want)))
        ctx.ok(table.dtype.kind == "i", what + ": not integer")
        ctx.ok(np.array_equal(table[:, 0], nid + np.arange(len(want))), what + ": ids", ids=table[:, 0])
        ctx.ok(np.all(table[:, 1] == et) and np.all(table[:, 2] == mat), what + ": type or material")
        ctx.ok(np.array_equal(table[:, 3:], want), what + ": cells are not those of the group, in order")
        ctx.ok(nf == nid + len(want), what + ": next id %s" % nf)
        nid = nf
        seen.append(table)
        ctx.event("groups")
    ctx.event("cells written", int(nid - nini))
    # constraints and loads
    keep = np.zeros((n, 2))
    tot = np.zeros((n, 2))
    lines, lt = cells["line"], data["line"]["gmsh:physical"]
    rows = []
    for _ in range(int(rng.integers(1, 6))):
        phy = int(gen.pick(rng, *np.unique(lt)))
        on = np.unique(lines[lt == phy])
        if rng.random() < 0.5:
            if rng.random() < 0.15:
                phy, on = 999, np.array([], int)   # a line without segments holds nothing
            bx, by = (int(v) for v in rng.choice([-1, 0], 2))
            nodes = np.asarray(ctx.call("boundary_conditions", pre.boundary_conditions, got_c, got_d, phy, nodes, bx, by))
            keep[on] = bx, by
            ctx.ok(nodes.shape == (n, 5), "boundary_conditions: shape")
            ctx.close(nodes[:, 3:], keep, "boundary_conditions(line %d, %d, %d): flags" % (phy, bx, by), 0, 1)
            ctx.close(nodes[:, 1:3], points[:, :2], "boundary_conditions: coordinates", 0, 1)
            ctx.event("constraint lines")
        else:
            P = [float(v) for v in rng.normal(size=2)*gen.log_uniform(rng, 1e-3, 1e6)]
            k = rng.integers(5)
            if k == 0:
                P[int(rng.integers(2))] = 0
            elif k == 1:
                P = [int(v) for v in rng.integers(1, 9, 2)]
            t = np.asarray(ctx.call("loading", pre.loading, got_c, got_d, phy, *P))
            what = "loading(line %d with %d nodes, %s)" % (phy, len(on), P)
            ctx.ok(t.shape == (len(on), 3), what + ": shape %s" % (t.shape,))
            ctx.ok(np.array_equal(np.sort(t[:, 0]), on), what + ": not the nodes of the line", got=t[:, 0], line=on)
            ctx.close(t[:, 1:].sum(axis=0), np.array(P, float), what + ": total", 1e-12, max(np.abs(P)))
            for c in (0, 1):
                ctx.ok(np.all(t[:, 1 + c]*P[c] > 0) if P[c] else not t[:, 1 + c].any(),
                       what + ": some node of the line is not loaded, or against the load")
            rows.append(t)
            np.add.at(tot, t[:, 0].astype(int), t[:, 1:])
            ctx.event("load lines")
    if rows:                                  # the tables are what the assembler takes
        f = ctx.call("loadasem", ass.loadasem, np.vstack(rows), np.arange(2*n).reshape(n, 2), 2*n)
        ctx.close(f, tot.ravel(), "loads of all lines in the load vector", 1e-12, np.abs(tot).max() or 1.0)
    neq, _ = ctx.call("eqcounter", ass.eqcounter, nodes[:, 3:])
    ctx.ok(neq == int((keep == 0).sum()), "constraints in the numbering: %s equations" % neq)
    for a, b in ((got_c, cells), (got_d, data)):
        for k in b:
            if isinstance(b[k], dict):
                ctx.ok(np.array_equal(a[k]["gmsh:physical"], b[k]["gmsh:physical"]), "the mesh's tags were changed")
            else:
                ctx.ok(np.array_equal(a[k], b[k]), "the mesh's cells were changed")
    ctx.key(points, repr({k: v.tolist() for k, v in cells.items()}))
    ctx.note(source=source, points=n, cells={k: len(v) for k, v in cells.items()})


def template(ctx):
    """run the shipped script on a generated mesh, in a scratch folder"""
    rng = ctx.rng
    script = os.path.join(REPO, "docs", "tutorials", "template_input.py")
    nx, ny = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    w, h = rng.uniform(0.5, 4, 2)*gen.pick(rng, 1, 1, 10)
    g, q = gen.grid(nx, ny, 0.2, rng)
    g = g*[w/(nx/max(nx, ny)), h/(ny/max(nx, ny))]
    x0 = rng.uniform(-3, 3, 2)*(rng.random() < 0.5)
    tri = np.array([t for a, b, c, d in q for t in ([a, b, c], [a, c, d])])
    lines, tags = [], []
    for a, b in [(i, i + 1) for i in range(nx)]:
        lines.append((a, b))
        tags.append(400)
        lines.append((ny*(nx + 1) + a, ny*(nx + 1) + b))
        tags.append(500)
    for j in range(ny):
        lines.append((j*(nx + 1), (j + 1)*(nx + 1)))
        tags.append(300)
        if rng.random() < 0.5:
            lines.append((j*(nx + 1) + nx, (j + 1)*(nx + 1) + nx))
            tags.append(int(rng.integers(1, 99)))
    p = rng.permutation(len(g))
    xy = np.empty_like(g)
    xy[p] = g + x0
    tri = gen.rotate_local(rng, "tri3", p[tri])
    lines = p[np.array(lines)]
    flip = rng.random(len(lines)) < 0.5
    lines[flip] = lines[flip][:, ::-1]
    o = rng.permutation(len(lines))
    lines, tags = lines[o], np.array(tags)[o]
    mat = rng.choice([100, 200], len(tri)) if rng.random() < 0.8 else np.full(len(tri), 100)
    cells = {"line": lines, "triangle": tri}
    data = {"line": {"gmsh:physical": tags, "gmsh:geometrical": np.ones(len(tags), int)},
            "triangle": {"gmsh:physical": mat, "gmsh:geometrical": np.ones(len(tri), int)}}
    with tempfile.TemporaryDirectory() as folder:
        order = save_msh(rng, os.path.join(folder, "template.msh"), np.column_stack([xy, 0*xy[:, 0]]), cells, data)
        shutil.copy(script, os.path.join(folder, "run.py"))
        r = subprocess.run([sys.executable, "run.py"], cwd=folder, capture_output=True, text=True, timeout=120)
        ctx.events["calls"] += 1
        if r.returncode:
            raise Violation("the template script failed: %s" % r.stderr[-400:])
        nodes, mats, eles, loads = ctx.call("readin", pre.readin, folder=folder)
        tri, mat = tri[order["triangle"]], mat[order["triangle"]]
        n = len(xy)
        ctx.ok(nodes.shape == (n, 5) and np.array_equal(nodes[:, 0], np.arange(n)), "template: node table")
        ctx.close(nodes[:, 1:3], xy, "template: coordinates", 5.1e-5, 1.0)
        cons = np.zeros((n, 2))
        cons[np.unique(lines[tags == 300]), 0] = -1
        cons[np.unique(lines[tags == 400]), 1] = -1
        ctx.close(nodes[:, 3:], cons, "template: constraints", 0, 1)
        ctx.ok(eles.shape == (len(tri), 6) and np.array_equal(eles[:, 0], np.arange(len(tri))), "template: element ids")
        ctx.ok(np.all(eles[:, 1] == 3), "template: element type")
        ctx.ok(np.array_equal(eles[:, 2], (mat != 100).astype(int)), "template: materials of the surfaces")
        ctx.ok(np.array_equal(eles[:, 3:], tri), "template: connectivity")
        ctx.ok(mats.shape == (2, 2), "template: materials")
        on = np.unique(lines[tags == 500])
        ctx.ok(loads.shape == (len(on), 3) and np.array_equal(np.sort(loads[:, 0]), on), "template: loaded nodes")
        ctx.ok(not loads[:, 1].any(), "template: horizontal loads")
        ctx.close(np.array(loads[:, 2].sum()), np.array(-2.0), "template: total load", 6e-7*len(on), 1.0)
        # and the model runs: reactions carry the load
        from solidspy.solids_GUI import solids_GUI
        U = np.asarray(ctx.call("solids_GUI", solids_GUI, plot_contours=False, folder=folder))
        ctx.ok("not in equilibrium" not in ctx.stdout, "template: the model is not in equilibrium")
        ke = []
        for el, m in zip(eles[:, 3:], eles[:, 2]):
            ke.append(ref.element("tri3", nodes[el, 1:3], *mats[m])[0])
        K = ref.scatter(2*n, eles[:, 3:], 2, ke)
        r = (K @ U.ravel()).reshape(n, 2)
        f = gen.rhs_of(loads, n, 2)
        ctx.close((r - f)[cons == 0], np.zeros(int((cons == 0).sum())), "template: equilibrium", 1e-8, np.abs(f).max())
        held = cons[:, 1] == -1
        ctx.close(np.array((r - f)[held, 1].sum()), np.array(2.0), "template: vertical reaction", 1e-5, 2.0)
    ctx.event("template runs")
    ctx.key(xy, tri)
    ctx.note(points=n, triangles=len(tri), loaded=len(on))


FAMILIES = [Family(history, 300, 6000), Family(template, 16, 150)]
