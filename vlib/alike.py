"""Calls that look alike: variants of one call differing in little, for history monitors.

Run as a program: python -m vlib.alike IN OUT executes pickled groups of variants in the given order, optionally
holding the data of all variants of a group in the same buffers, and pickles what came back."""
import contextlib
import io
import os
import pickle
import sys
import warnings

import numpy as np
import scipy.sparse as sp

from vlib.calls import copy_args, flat


def places(x, path=()):
    """paths of the numeric leaves that can be varied"""
    if isinstance(x, dict):
        for k in x:
            yield from places(x[k], path + (k,))
    elif isinstance(x, (list, tuple)):
        if x and all(isinstance(v, float) for v in x):
            yield path
        else:
            for i, v in enumerate(x):
                yield from places(v, path + (i,))
    elif isinstance(x, np.ndarray):
        if x.size:
            yield path
    elif sp.issparse(x):
        if x.nnz:
            yield path
    elif isinstance(x, float):
        yield path


def get(x, path):
    for p in path:
        x = x[p]
    return x


def put(x, path, v):
    """x with v at the path (rebuilding tuples)"""
    if not path:
        return v
    if isinstance(x, tuple):
        x = list(x)
        x[path[0]] = put(x[path[0]], path[1:], v)
        return tuple(x)
    x[path[0]] = put(x[path[0]], path[1:], v)
    return x


def vary(rng, v, first):
    """a look-alike of the value: same size and type, different in little or with the same parts"""
    if isinstance(v, float):
        return v*(1 + 10.0**-rng.uniform(3, 8))
    if isinstance(v, (list, tuple)):
        return type(v)(float(a) for a in vary(rng, np.array(v, float), 0))
    if sp.issparse(v):
        w = v.copy()
        w.data = vary(rng, w.data, 0)
        return w
    w = np.array(v)
    if w.dtype.kind in "iub":
        if w.ndim == 2 and w.shape[1] > 4 and rng.random() < 0.6:     # a table of elements: two nodes change places
            i, (a, b) = rng.integers(len(w)), rng.choice(np.arange(3, w.shape[1]), 2, replace=False)
            w[i, [a, b]] = w[i, [b, a]]
        elif len(w) > 1:
            a, b = rng.choice(len(w), 2, replace=False)
            if w.ndim > 1:
                k = first if w.shape[1] > first else 0
                w[[a, b], k:] = w[[b, a], k:]
            else:
                w[[a, b]] = w[[b, a]]
        return w
    f = w.reshape(-1)
    k = rng.integers(5)
    if k == 0:                                   # one entry, slightly
        f[rng.integers(f.size)] *= 1 + 10.0**-rng.uniform(3, 8)
    elif k == 1:                                 # all entries, slightly
        f *= 1 + 10.0**-rng.uniform(3, 8)*rng.uniform(-1, 1, f.size)
    elif k == 2 and f.size > 1:                  # two entries change places
        a, b = rng.choice(f.size, 2, replace=False)
        f[[a, b]] = f[[b, a]]
    elif k == 3 and w.ndim == 2 and len(w) > 1:  # two rows change places
        a, b = rng.choice(len(w), 2, replace=False)
        w[[a, b]] = w[[b, a]]
    else:                                        # another scale
        f *= 1 + 10.0**-rng.uniform(0, 8)
    return w


TAME = ("static_sol", "solids_auto", "energy")   # results are as sensitive as the systems they solve


def group(rng, call, n=3):
    """[(args, kwargs), ...]: the call, look-alikes, and the call again"""
    base = (copy_args(call.args), copy_args(call.kwargs))
    spots = list(places((list(base[0]), base[1])))
    out = [base]
    if not spots:
        return out*2
    for _ in range(n):
        x = [list(copy_args(base[0])), copy_args(base[1])]
        p = spots[int(rng.integers(len(spots)))]
        v = get(x, p)
        if call.label in TAME:
            if isinstance(v, np.ndarray) and v.dtype.kind in "iub":
                continue
            s = 1 + 10.0**-rng.uniform(1, 4)
            if not isinstance(v, (float, list, tuple)):
                v = v*s
            else:
                v = v*s if isinstance(v, float) else type(v)(a*s for a in v)
            new = v
        else:
            new = vary(rng, v, 3 if isinstance(v, np.ndarray) and v.ndim == 2 and v.shape[1] > 4 else 0)
        x = put(x, p, new)
        out.append((tuple(x[0]), x[1]))
    out.append((copy_args(base[0]), copy_args(base[1])))
    return out


def pour(old, new):
    """the new data in the old buffers where they fit"""
    if isinstance(new, np.ndarray) and isinstance(old, np.ndarray) and old.shape == new.shape and old.dtype == new.dtype \
            and old.flags.writeable:
        old[...] = new
        return old
    if sp.issparse(new) and sp.issparse(old) and type(old) is type(new) and old.shape == new.shape \
            and old.nnz == new.nnz and hasattr(old, "indptr"):
        old.data[:], old.indices[:], old.indptr[:] = new.data, new.indices, new.indptr
        return old
    if isinstance(new, list) and isinstance(old, list) and len(old) == len(new):
        old[:] = [pour(a, b) for a, b in zip(old, new)]
        return old
    if isinstance(new, tuple) and isinstance(old, tuple) and len(old) == len(new):
        return tuple(pour(a, b) for a, b in zip(old, new))
    if isinstance(new, dict) and isinstance(old, dict) and list(old) == list(new):
        for k in new:
            old[k] = pour(old[k], new[k])
        return old
    return new


def execute(groups, order, reuse):
    """{(group, variant): leaves of the result or name of the exception}"""
    res = {}
    for g in order:
        fn, variants, seq = groups[g]
        held = None
        for k in seq:
            args, kwargs = variants[k]
            if reuse:
                held = (args, kwargs) = pour(held, copy_args((args, kwargs))) if held else copy_args((args, kwargs))
            try:
                out = fn(*args, **kwargs)
            except Exception as exc:
                res[g, k] = [("raised", type(exc).__name__)]
            else:
                res[g, k] = copy_args([(p, v) for p, v in flat((out, args))])
    return res


if __name__ == "__main__":
    with open(sys.argv[1], "rb") as f_:
        todo = pickle.load(f_)
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        done = execute(*todo)
    with open(sys.argv[2], "wb") as f_:
        pickle.dump(done, f_)
