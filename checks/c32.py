"""C32 model files: reading, echoing, folder choice."""
import builtins
import hashlib
import os
import pathlib
import sys
import tempfile
import types
import numpy as np
import solidspy.preprocesor as pre
from solidspy.solids_GUI import solids_GUI
from vlib.core import Family
from vlib import gen, model

RULE = ("a case is a set of tables written in a scratch folder in a random admissible text format, read and echoed "
        "through a random spelling of the folder; an audit hook records every file opened, the folder is "
        "fingerprinted before and after; distinct = (tables, spelling)")
ASSUMPTIONS = ["text formats accepted: blanks or tabs, # comments, blank lines, CRLF, any float notation",
               "echo precision: two decimals, integers for the elements"]
NAMES = ("nodes.txt", "mater.txt", "eles.txt", "loads.txt")
ECHO = ("KNODES.txt", "KMATES.txt", "KELEMS.txt", "KLOADS.txt")

_opened = None


def _audit(event, args):
    if event == "open" and _opened is not None and isinstance(args[0], (str, bytes)):
        flags = args[2] if isinstance(args[2], int) else 0
        write = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
        mode = args[1] or ""
        if isinstance(mode, str) and any(c in mode for c in "wax+"):
            write = True
        _opened.append((os.fsdecode(args[0]), write))
    elif event in ("os.remove", "os.rename", "os.truncate") and _opened is not None:
        _opened.append((str(args[0]), True))


_hooked = False


class watch:
    """record the files opened meanwhile"""

    def __enter__(self):
        global _opened, _hooked
        if not _hooked:
            sys.addaudithook(_audit)
            _hooked = True
        _opened = []
        return self

    def __exit__(self, *a):
        global _opened
        self.seen, _opened = _opened, None

    def written(self):
        return {os.path.realpath(p) for p, w in self.seen if w and "__pycache__" not in p}

    def read(self):
        return {os.path.realpath(p) for p, w in self.seen if not w}


def fingerprint(folder):
    out = {}
    for d, _, files in os.walk(folder):
        for f in files:
            p = os.path.join(d, f)
            st = os.stat(p)
            with open(p, "rb") as h:
                out[os.path.relpath(p, folder)] = (st.st_size, st.st_mtime_ns, hashlib.sha1(h.read()).hexdigest())
    return out


def tables(rng, one=False, big=False):
    """random tables in the documented layout, any size and magnitude"""
    n = 1 if one else int(rng.integers(1, 12))
    ne = 1 if one else int(rng.integers(1, 9))
    nm = 1 if one else int(rng.integers(1, 4))
    nl = 1 if one else int(rng.integers(1, 6))
    if big:
        n, ne, nm, nl = [int(v) for v in rng.integers(1, [1200, 1200, 400, 1200])]
        which = big - 1
        n, ne, nl, nm = [(34000, ne, nl, nm), (n, 34000, nl, nm), (n, ne, 34000, nm), (n, ne, nl, 34000)][which]
    dim = int(rng.integers(2, 4))
    mag = gen.pick(rng, 1.0, 1e-3, 1e-12, 1e5, 1e15)

    def num(*shape):
        v = rng.normal(size=shape)*mag*10**rng.uniform(-3, 3, shape)
        v[rng.random(shape) < 0.2] = gen.pick(rng, 0.0, 1.0, -2.0, 1e300, 5e-324, 0.1, 1/3)
        return v
    nodes = np.column_stack([np.arange(n), num(n, dim), rng.choice([0, -1], (n, 2))])
    mats = np.abs(num(nm, int(rng.integers(1, 8))))
    els = np.column_stack([np.arange(ne), rng.integers(1, 9, ne), rng.integers(0, nm, ne),
                           rng.integers(0, gen.pick(rng, n, 10**9), (ne, int(gen.pick(rng, 2, 3, 4, 6, 9))))])
    loads = np.column_stack([rng.integers(0, n, nl), num(nl, int(rng.integers(2, 4)))])
    return [nodes, mats, els.astype(int), loads]


def write(rng, folder, tabs):
    sep = gen.pick(rng, " ", "   ", "\t", " \t ")
    eol = gen.pick(rng, "\n", "\n", "\r\n")
    style = gen.pick(rng, "%r", "%.17g", "%.17e", "%.17E", "%+.17e", "mixed")
    lead = gen.pick(rng, "", "", "  ", "\t")

    def txt(v, integer):
        v = float(v)
        if integer or v == int(v) and abs(v) < 1e15 and rng.random() < 0.5:
            return gen.pick(rng, "%d", "%d", "%3d", "%+d" if not integer else "%d") % int(v)
        st = style if style != "mixed" else gen.pick(rng, "%r", "%.17g", "%.17e")
        return repr(v) if st == "%r" else st % v
    for name, t in zip(NAMES, tabs):
        lines = []
        if rng.random() < 0.3:
            lines += [gen.pick(rng, "# 9 9 9 9", "#", "# nodes and 1.0 2.0")]
        for row in t:
            s = lead + sep.join(txt(v, name == "eles.txt") for v in row)
            if rng.random() < 0.15:
                s += gen.pick(rng, "  ", "  # note", "# 7 7", "\t")
            lines.append(s)
            if rng.random() < 0.1:
                lines.append(gen.pick(rng, "", "# between", "   "))
        text = eol.join(lines) + (eol if rng.random() < 0.8 else "")
        with open(os.path.join(folder, name), "w", newline="") as f:
            f.write(text)
    return style


def spelling(rng, base, real):
    """another way to name the folder real; base is a scratch folder around it. Returns (cwd, name)"""
    rel = os.path.relpath(real, base)
    other = os.path.join(base, "elsewhere")
    os.makedirs(other, exist_ok=True)
    opts = [(base, real), (base, real + "/"), (base, real + "//"), (base, rel), (base, rel + "/"),
            (base, "./" + rel), (other, os.path.join("..", rel)), (other, os.path.join("..", rel) + "/"),
            (real, ""), (real, "."), (real, "./"), (base, os.path.join(base, "elsewhere", "..", rel))]
    link = os.path.join(base, "link")
    if not os.path.islink(link):
        os.symlink(real, link)
    opts += [(base, "link"), (other, link + "/")]
    return opts[int(rng.integers(len(opts)))]


def scratch(rng, tmp):
    name = gen.pick(rng, "job", "my job", "a.b", "año-ñ", "x/y/z", "nodes.txt.d", "%s", "-r",
                    " job ", "~", "$HOME", "a[1]*", "job.", "JOB")
    real = os.path.join(os.path.realpath(tmp), name)
    os.makedirs(real)
    return real


def exact(ctx, got, tabs, what):
    ctx.ok(isinstance(got, (tuple, list)) and len(got) == 4, what + ": four tables expected")
    for g, t, name in zip(got, tabs, NAMES):
        ctx.ok(isinstance(g, np.ndarray) and g.shape == t.shape, "%s: %s has shape %s, the file has %s"
               % (what, name, getattr(g, "shape", None), t.shape))
        ctx.ok(g.dtype.kind == ("i" if name == "eles.txt" else "f"), "%s: %s read as %s" % (what, name, g.dtype))
        ctx.ok(np.array_equal(g, t), "%s: %s not read as written" % (what, name), got=g, written=t)
    ctx.event("tables read", 4)


def reading(ctx):
    rng = ctx.rng
    home = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        real = scratch(rng, tmp)
        tabs = tables(rng, ctx.index % 6 == 0, ctx.index//60 % 4 + 1 if ctx.index % 60 == 21 else 0)
        style = write(rng, real, tabs)
        base = os.path.realpath(tmp)
        cwd, name = spelling(rng, base, real)
        if cwd != real and rng.random() < 0.5:   # decoys in the working directory
            write(rng, cwd, tables(rng))
        before = fingerprint(base)
        os.chdir(cwd)
        try:
            with watch() as w:
                if name == "" and rng.random() < 0.5:
                    got = ctx.call("readin", pre.readin)
                elif rng.random() < 0.2:
                    got = ctx.call("readin(path object)", pre.readin, pathlib.Path(name))
                elif rng.random() < 0.5:
                    got = ctx.call("readin", pre.readin, name)
                else:
                    got = ctx.call("readin", pre.readin, folder=name)
            what = "readin(%r)" % (name if not os.path.isabs(name) else "absolute" + "/"*(len(name) - len(name.rstrip("/"))))
            exact(ctx, got, tabs, what)
            ctx.ok(fingerprint(base) == before, what + " changed files in the folder")
            ctx.ok(not w.written(), what + " wrote files", files=sorted(w.written()))
            ctx.event("files opened", len(w.seen))
            # a second model, then the first again; then the first rewritten
            real2 = os.path.join(base, "second")
            os.makedirs(real2)
            tabs2 = tables(rng)
            write(rng, real2, tabs2)
            keep = [g.copy() for g in got]
            exact(ctx, ctx.call("readin", pre.readin, real2), tabs2, "readin of another folder")
            exact(ctx, ctx.call("readin", pre.readin, name), tabs, "readin of the first folder again")
            ctx.ok(all(np.array_equal(a, b) for a, b in zip(got, keep)), "tables read earlier changed")
            tabs3 = tables(rng)
            write(rng, real, tabs3)
            exact(ctx, ctx.call("readin", pre.readin, name), tabs3, "readin after the files were rewritten")
            # loads may be absent
            if rng.random() < 0.3:
                with open(os.path.join(real, "loads.txt"), "w") as f:
                    f.write(gen.pick(rng, "", "# none\n", "\n"))
                got = ctx.call("readin without loads", pre.readin, name)
                ctx.ok(np.asarray(got[3]).size == 0, "readin of an empty load file returns loads")
                ctx.event("empty load files")
        finally:
            os.chdir(home)
    ctx.key(style, name and os.path.basename(name), tabs[0], tabs[2])
    ctx.note(spelling=name.replace(base, "BASE"), style=style, nodes=tabs[0].shape, elements=tabs[2].shape)


def echo(ctx):
    rng = ctx.rng
    home = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        real = scratch(rng, tmp)
        base = os.path.realpath(tmp)
        n, ne, nm, nl = int(rng.integers(1, 15)), int(rng.integers(1, 10)), int(rng.integers(1, 4)), 3
        if ctx.index % 60 == 37:                 # one of the tables is long
            which = ctx.index//60 % 4
            n, ne, nm, nl = [34000 if i == which else 50*v for i, v in enumerate((n, ne, nm, nl))]
            ctx.event("long tables echoed")
        mag = gen.pick(rng, 1, 1, 30, 1e4, 1e8, 1e-3)
        nodes = np.column_stack([np.arange(n), rng.normal(size=(n, 2))*mag, rng.choice([0, -1], (n, 2))])
        mats = np.abs(rng.normal(size=(nm, int(rng.integers(2, 5)))))*mag
        els = np.column_stack([np.arange(ne), rng.integers(1, 9, ne), rng.integers(0, 3, ne),
                               rng.integers(0, gen.pick(rng, n, 10**7, 2**40), (ne, int(gen.pick(rng, 2, 3, 4, 6, 9))))])
        loads = np.column_stack([rng.integers(0, n, nl), rng.normal(size=(nl, 2))*mag])
        tabs = [nodes, mats, els, loads]
        write(rng, real, tabs)
        cwd, name = spelling(rng, base, real)
        os.chdir(cwd)
        try:
            if rng.random() < 0.5:               # an older, longer echo is replaced
                for f in ECHO:
                    with open(os.path.join(real, f), "w") as h:
                        h.write("1 2 3\n"*99)
            if rng.random() < 0.5:
                tabs_in = [np.asarray(t) for t in ctx.call("readin", pre.readin, name)]
            else:
                tabs_in = [gen.dress(rng, t) for t in tabs]
            keep = [t.copy() for t in tabs_in]
            before = fingerprint(base)
            with watch() as w:
                if name == "" and rng.random() < 0.5:
                    ctx.call("echomod", pre.echomod, *tabs_in)
                else:
                    ctx.call("echomod", pre.echomod, *tabs_in, **{"folder": name})
            after = fingerprint(base)
            ctx.ok(all(np.array_equal(a, b) for a, b in zip(tabs_in, keep)), "echomod changed the tables it was given")
            rel = os.path.relpath(real, base)
            mine = {os.path.normpath(os.path.join(rel, f)) for f in ECHO}
            for f in before:
                if f not in mine:
                    ctx.ok(after.get(f) == before[f], "echomod touched %s" % f)
            extra = set(after) - set(before) - mine
            ctx.ok(not extra, "echomod created other files", files=sorted(extra))
            out = {p for p in w.written() if not p.startswith(real + os.sep)}
            ctx.ok(not out, "echomod wrote outside the folder", files=sorted(out))
            for f, t in zip(ECHO, tabs):
                p = os.path.join(real, f)
                ctx.ok(os.path.exists(p), "echomod(folder=%r) did not write %s in the folder" % (name.replace(base, "BASE"), f))
                rows = [ln.split() for ln in open(p).read().splitlines() if ln.strip() and not ln.startswith("#")]
                ctx.ok(len(rows) == len(t) and all(len(r) == t.shape[1] for r in rows), "echo %s has another shape" % f,
                       rows=len(rows), want=t.shape)
                v = np.array(rows, float)
                tol = 0.0 if f == "KELEMS.txt" else 0.5e-2*(1 + 1e-9)
                ctx.ok(np.all(np.abs(v - t) <= tol + 1e-15*np.abs(t)), "echo %s differs from the table" % f,
                       worst=np.abs(v - t).max())
                ctx.event("echo files compared")
            ctx.event("files opened for writing", len(w.written()))
        finally:
            os.chdir(home)
    ctx.key(name and os.path.basename(name), nodes, els)
    ctx.note(spelling=name.replace(base, "BASE"), nodes=nodes.shape, magnitude=mag)


class dialog:
    """stand-ins for the dialog and the prompt"""

    def __init__(self, kind, answer, typed=None):
        self.kind, self.answer, self.typed, self.asked, self.shown = kind, answer, typed, [], []

    def __enter__(self):
        self.mod, self.had = sys.modules.get("easygui"), "easygui" in sys.modules
        self.inp = builtins.input
        if self.kind == "missing":
            sys.modules["easygui"] = None
        else:
            m = types.ModuleType("easygui")

            def diropenbox(*a, **k):
                self.shown.append((a, k))
                if self.kind == "fails":
                    raise RuntimeError("no display")
                return None if self.kind == "cancelled" else self.answer
            m.diropenbox = diropenbox
            sys.modules["easygui"] = m

        def read(prompt=""):
            self.asked.append(prompt)
            return self.typed
        builtins.input = read
        return self

    def __exit__(self, *a):
        builtins.input = self.inp
        if self.had:
            sys.modules["easygui"] = self.mod
        else:
            sys.modules.pop("easygui", None)


def choice(ctx):
    """the folder from the dialog or the prompt"""
    rng = ctx.rng
    home = os.getcwd()
    kind = ["dialog", "missing", "fails", "cancelled"][ctx.index % 4]
    with tempfile.TemporaryDirectory() as tmp:
        real = scratch(rng, tmp)
        base = os.path.realpath(tmp)
        run = ctx.index % 8 >= 4
        if run:
            m = model.continuum(rng, size=(2, 2))
            tabs = [*m.tables()][:1] + [np.array(m.mats), m.tables()[1], np.array(m.loads, float)]
        else:
            tabs = tables(rng)
        write(rng, real, tabs)
        cwd, name = spelling(rng, base, real)
        if kind == "dialog":
            name = real                          # dialogs return absolute paths without a final slash
        os.chdir(cwd)
        before = fingerprint(base)
        try:
            with dialog(kind, real, name) as d:
                if run:
                    U = ctx.call("solids_GUI()", solids_GUI, plot_contours=False)
                else:
                    folder = ctx.call("initial_params", pre.initial_params)
            if kind == "dialog":
                ctx.ok(len(d.shown) == 1 and not d.asked, "the dialog answered, but the prompt was used as well")
            else:
                ctx.ok(len(d.asked) == 1, "dialog %s: the folder was not asked for once at the prompt" % kind,
                       prompts=d.asked)
            if run:
                V = ctx.call("solids_GUI(folder)", solids_GUI, plot_contours=False, folder=real)
                ctx.close(U, V, "solids_GUI with the folder chosen by %s: displacements" % kind, 1e-9)
            else:
                exact(ctx, ctx.call("readin", pre.readin, folder=folder), tabs, "readin of the folder chosen (%s)" % kind)
            ctx.ok(fingerprint(base) == before, "choosing the folder or solving changed its files")
        finally:
            os.chdir(home)
    ctx.event("folders chosen: " + kind)
    ctx.key(kind, run, name and os.path.basename(name), tabs[0])
    ctx.note(chosen=kind, typed=name.replace(base, "BASE"), solved=run)


FAMILIES = [Family(reading, 250, 6000), Family(echo, 250, 6000), Family(choice, 120, 2000)]
