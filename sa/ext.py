"""Abstract models of builtins, numpy and a few library calls (transfer functions)."""
import ast
import functools
import math
from fractions import Fraction

from . import engine as E
from . import nd
from . import pdm
from .values import (
    NUM, BMeth, BoundV, ClassV, EnumV, ExtV, FuncV, Lin, ModV, Ref, SliceV, Star, T, Tup, V,
    is_const, is_num, lin_add, lin_scale, mk_lin, mk_mod, same, to_lin, walk,
)

MUTATORS = {
    "append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "add",
    "discard", "setdefault", "popitem", "appendleft", "popleft", "fill", "put", "resize",
    "drop_duplicates_inplace", "add_", "mul_", "zero_", "copy_", "fill_", "sub_", "div_",
    "scatter_", "index_fill_", "masked_fill_",
}


def _frz(I, vs, st):
    return [I.freeze(v, st) for v in vs]


def _kwf(I, kw, st):
    return [Tup((k, I.freeze(v, st))) for k, v in sorted(kw.items())]


# calls without a model that neither raise nor change anything (given text)
SAFE_CALLS = {"pathlib.Path", "pathlib.PurePath", "os.path.join", "os.path.basename", "os.path.dirname", "os.fspath", "pandas.option_context", "numpy.errstate"}
SAFE_PREFIXES = ("pytorch_lightning.callbacks.",)


# libraries whose un-modelled functions do not change their arguments
PURE_MODULES = {
    "logging", "warnings", "math", "cmath", "re", "itertools", "functools", "json", "os", "sys", "tqdm", "copy", "torch",
    "music21", "pathlib", "inspect", "collections", "string", "time", "datetime", "typing", "fractions", "argparse", "glob",
    "pytorch_lightning", "h5py", "ms3", "super", "builtins", "abc", "enum", "dataclasses", "statistics", "io", "gzip", "pickle",
    "csv", "textwrap", "traceback", "multiprocessing", "concurrent", "decimal", "numbers", "hashlib", "shutil", "contextlib", "tempfile", "pandas",
    "matplotlib", "seaborn", "sklearn", "scipy",
}
NP_MUTATORS = {"put", "copyto", "place", "putmask", "fill_diagonal", "put_along_axis", "at", "shuffle", "setfield"}
RUNS_ARGUMENT = {"reduce", "starmap", "groupby", "map_reduce", "apply_along_axis", "fromiter", "vectorize", "frompyfunc", "accumulate", "filterfalse", "takewhile", "dropwhile", "cached_property"}
PY_MUTABLE = ("list", "dict", "set", "arr", "mat", "df", "ser", "obj")


def lose(I, st, node, why):
    """the analysis gives up on what follows in this state: nothing evaluated from it is decided"""
    if I.gmut:
        I.gheap[E.LOST] = E.LostCell(why)
    else:
        st.heap[E.LOST] = E.LostCell(why)


def havoc(I, v, st, node, why):
    """the value v (and what it is a view of) may have been changed arbitrarily"""
    v = I.resolve(v, st)
    c = I.cell(st, v)
    if c is None:
        if E.is_ite(v):
            for _, leaf in E.leaves(v):
                havoc(I, leaf, st, node, why)
        elif isinstance(v, Tup):
            for x in v.items:
                havoc(I, x, st, node, why)
        return
    I.effect(node, st, "method:" + why, v, None)
    if c.kind == "arr":
        arr_put(I, v, [T("unkcell")] * len(c.cells), (), st, node)
    elif c.kind == "mat":
        b = I.cell(st, c.buf)
        I.put(st, c.buf, nd.BufCell([T("unkcell")] * len(b.vals), b.origin))
    elif c.kind == "list":
        I.put(st, v, E.LCell([Star(T("idx", "h"), T("havoc", why), T("unk", why), True)], c.unordered, c.origin, c.pytype))
    elif c.kind in PY_MUTABLE:
        lose(I, st, node, why)


def calls_back(I, v, st):
    """a function of the program, which may change anything"""
    return isinstance(v, (FuncV, BoundV)) or isinstance(v, BMeth) and v.name in MUTATORS


def arr_put(I, o, cells, writes, st, node, k=None, v=None):
    """new contents of an array, also seen by the array it is a view of and by the views of it"""
    c = I.cell(st, o)
    I.put(st, o, E.ACell(cells, writes, c.origin, c.view))
    seen = {o.id}
    base, cur = c.view, (tuple(cells), tuple(writes))
    while base is not None:
        ref, off = base
        bc = I.cell(st, ref)
        if bc is None or bc.kind != "arr" or ref.id in seen:
            break
        seen.add(ref.id)
        I.effect(node, st, "setitem", ref, k, v)
        if not cur[1] and off is not None and len(cur[0]) + off <= len(bc.cells) and not bc.writes:
            nc = bc.cells[:off] + cur[0] + bc.cells[off + len(cur[0]):]
        else:
            nc = (T("unkcell"),) * len(bc.cells)
        I.put(st, ref, E.ACell(nc, (), bc.origin, bc.view))
        base, cur = bc.view, (nc, ())
    # other views of the arrays changed
    if not any(i in I.view_bases for i in seen):
        return
    todo = list(seen)
    while todo:
        i = todo.pop()
        if i not in I.view_bases:
            continue
        bc = I.cell(st, Ref(i))
        for j in I.view_bases[i]:
            if j in seen:
                continue
            x = st.heap.get(j) or I.gheap.get(j)
            if x is None or x.kind != "arr" or x.view is None or x.view[0].id != i:
                continue
            seen.add(j)
            off = x.view[1]
            if off is not None and not bc.writes and off + len(x.cells) <= len(bc.cells):
                nc = bc.cells[off : off + len(x.cells)]
            else:
                nc = (T("unkcell"),) * len(x.cells)
            I.put(st, Ref(j), E.ACell(nc, (), x.origin, x.view))
            todo.append(j)


def opaque_call(I, name, args, kw, st, node):
    if name not in SAFE_CALLS and not name.startswith(SAFE_PREFIXES):
        I.opaque_name = name
        I.opaque_ops += 1
    I.event("extcall", node, st, name=name, args=list(args), kw=dict(kw))
    top, last = name.split(".")[0], name.split(".")[-1]
    if top == "numpy":
        if last in NP_MUTATORS and args:
            havoc(I, args[0], st, node, name)
        if kw.get("out") is not None:
            havoc(I, kw["out"], st, node, name)
    elif top not in PURE_MODULES and "." in name:
        for x in [*args, *kw.values()]:
            havoc(I, x, st, node, name)
    if top in ("numpy", "functools", "itertools") and last in RUNS_ARGUMENT and any(calls_back(I, x, st) for x in [*args, *kw.values()]):
        lose(I, st, node, name)
    return T("ext:" + name, *_frz(I, args, st), *_kwf(I, kw, st))


# ------------------------------------------------------------------ arrays


def read_arr(I, c, i, st):
    """cell i (int) of array c, taking symbolic writes into account"""
    v = c.cells[i]
    for idx, val in c.writes:
        if isinstance(idx, int):
            if idx == i:
                v = val
        elif to_lin(idx) is not None:
            cond = E.mk_eq0(lin_add(idx, i, -1))
            d = I.decide(cond, st)
            if d is True:
                v = val
            elif d is None:
                v = E.ite(cond, val, v)
        else:
            return T("unkcell")
    return v


def as_mat(I, o, st):
    c = I.cell(st, o)
    vals = nd.arr_values(I, c, st)
    buf = I.new(st, nd.BufCell(vals))
    return nd.MCell(buf, (len(vals),), range(len(vals)))


def mkarr(I, st, cells, writes=(), **k):
    return I.new(st, E.ACell(cells, writes, **k))


def slice_range(k, n):
    if all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
        return range(n)[k.lo : k.hi : k.step]
    return None


def shift_writes(c, off):
    out = []
    for i, v in c.writes:
        if isinstance(i, int) or to_lin(i) is not None:
            out.append((lin_add(i, off), v))
        else:
            out.append((T("shifted", i, off), v))
    return out


def arr_get(I, o, c, k, st, node):
    n = len(c.cells)
    if isinstance(k, bool):
        k = int(k)
    if isinstance(k, int):
        if not -n <= k < n:
            I.event("index", node, st, target=o, idx=k, length=n, ok=False)
            I.raise_now(st, "IndexError", node)
        return read_arr(I, c, k % n, st)
    if isinstance(k, SliceV):
        r = slice_range(k, n)
        if r is not None:
            cells = [c.cells[i] for i in r]
            writes = []
            for i, v in c.writes:
                if isinstance(i, int):
                    if i in r:
                        writes.append((r.index(i), v))
                elif to_lin(i) is not None and (k.step in (None, 1)):
                    writes.append((lin_add(i, r.start, -1), v))
                else:
                    writes.append((T("shifted", i, r.start), v))
            # keep only writes that can fall inside the slice
            w2 = []
            for i, v in writes:
                if isinstance(i, int):
                    if 0 <= i < len(cells):
                        w2.append((i, v))
                    continue
                lo, hi = I.bounds(i, st)
                if (hi is not None and hi < 0) or (lo is not None and lo >= len(cells)):
                    continue
                w2.append((i, v))
            r2 = mkarr(I, st, cells, w2, view=(o, r.start if r.step == 1 else None))
            I.view_bases.setdefault(o.id, []).append(r2.id)
            return r2
        return T("item", I.freeze(o, st), I.freeze(k, st))
    kc = I.cell(st, k)
    if kc is not None and kc.kind in ("list", "arr", "ser", "pidx"):
        items = I.concrete_items(k, st) if kc.kind in ("list", "arr") else list(kc.vals)
        if items is not None and all(type(i) is int for i in items):
            if not all(-n <= i < n for i in items):
                I.event("index", node, st, target=o, idx=k, length=n, ok=False)
                I.raise_now(st, "IndexError", node)
            return mkarr(I, st, [read_arr(I, c, i % n, st) for i in items])
        if items is not None and len(items) == n and all(type(i) is bool for i in items):
            return mkarr(I, st, [read_arr(I, c, i, st) for i in range(n) if items[i]])
        if items and all(type(i) is bool for i in items):
            I.event("index", node, st, target=o, idx=k, length=n, ok=False)
            I.raise_now(st, "IndexError", node)
        return T("item", I.freeze(o, st), I.freeze(k, st))
    if isinstance(k, Tup):
        return T("item", I.freeze(o, st), I.freeze(k, st))
    if to_lin(k) is not None:
        I.check_index(o, k, n, st, node)
        if not c.writes and all(same(x, c.cells[0]) for x in c.cells):
            return c.cells[0] if c.cells else T("oob")
        return T("select", I.freeze(o, st), k)
    return T("item", I.freeze(o, st), I.freeze(k, st))


def arr_set(I, o, c, k, v, st, node):
    n = len(c.cells)
    if isinstance(k, bool):
        k = int(k)

    def put(cells, writes):
        arr_put(I, o, cells, writes, st, node, k, v)

    if isinstance(k, int):
        if not -n <= k < n:
            I.event("index", node, st, target=o, idx=k, length=n, ok=False)
            I.raise_now(st, "IndexError", node)
        if c.writes:
            put(c.cells, c.writes + ((k % n, v),))
        else:
            cells = list(c.cells)
            cells[k % n] = v
            put(cells, ())
        return
    if isinstance(k, SliceV):
        r = slice_range(k, n)
        vc = I.cell(st, v)
        if r is not None:
            vals = None
            if is_const(v) or isinstance(v, (Lin, T)) and vc is None:
                vals = [v] * len(r)
            else:
                it = I.concrete_items(v, st)
                if it is not None:
                    if len(it) != len(r):
                        if len(it) == 1:
                            it = it * len(r)
                        else:
                            I.event("shape", node, st, expected=len(r), got=len(it))
                            I.raise_now(st, "ValueError", node)
                    vals = it
                elif vc is not None and vc.kind == "arr" and len(vc.cells) == len(r):
                    cells = list(c.cells)
                    for j, i in enumerate(r):
                        cells[i] = vc.cells[j]
                    put(cells, c.writes + tuple(shift_writes(vc, r.start)))
                    return
            if vals is not None:
                if c.writes:
                    put(c.cells, c.writes + tuple((i, x) for i, x in zip(r, vals)))
                else:
                    cells = list(c.cells)
                    for i, x in zip(r, vals):
                        cells[i] = x
                    put(cells, ())
                return
        put([T("unkcell")] * n, ())
        return
    items = I.concrete_items(k, st) if not isinstance(k, Tup) else None
    if items and all(type(i) is bool for i in items):
        if len(items) != n:
            I.raise_now(st, "IndexError", node)
        items = [i for i, x in enumerate(items) if x]
    if items is not None and all(type(i) is int for i in items):
        vs = I.concrete_items(v, st) if I.cell(st, v) is not None else [v] * len(items)
        if vs is not None and len(vs) != len(items):
            if len(vs) != 1:
                I.raise_now(st, "ValueError", node)
            vs = vs * len(items)
        for i, x in zip(items, vs or [T("unkcell")] * len(items)):
            arr_set(I, o, I.cell(st, o), i, x, st, node)
        return
    if to_lin(k) is not None and not isinstance(k, Tup):
        I.check_index(o, k, n, st, node)
        put(c.cells, c.writes + ((k, v),))
        return
    put([T("unkcell")] * n, ())


def arr_eq(I, a, b, ca, cb, st):
    if ca is not None and ca.kind == "arr" and not ca.writes:
        if cb is not None and cb.kind == "arr" and not cb.writes and len(ca.cells) == len(cb.cells):
            return mkarr(I, st, [I.equal(x, y, st, None) for x, y in zip(ca.cells, cb.cells)])
        if cb is None:
            return mkarr(I, st, [I.equal(x, b, st, None) for x in ca.cells])
    if cb is not None and cb.kind == "arr" and not cb.writes and ca is None:
        return mkarr(I, st, [I.equal(x, a, st, None) for x in cb.cells])
    return None


def cell_binop(I, op, a, b, ca, cb, st, node):
    if op == "Add" and ca is not None and cb is not None and ca.kind == cb.kind == "list":
        return I.mklist(st, ca.items + cb.items, unordered=ca.unordered or cb.unordered)
    if op == "Mult":
        for x, cx, y in ((a, ca, b), (b, cb, a)):
            if cx is not None and cx.kind == "list":
                if isinstance(y, int) and cx.known() and y * len(cx.items) <= E.MAX_UNROLL:
                    return I.mklist(st, cx.items * y)
                if len(cx.items) == 1 and to_lin(y) is not None:
                    return I.mklist(st, [Star(T("idx", "r"), T("range", 0, y, 1), cx.items[0], True)])
                return NotImplemented
    if ca is not None and cb is not None and ca.kind == cb.kind == "set":
        if op == "Sub":
            return I.new(st, E.SCell([i for i in ca.items if i not in cb.items]))
        if op == "BitOr":
            return I.new(st, E.SCell(ca.items + cb.items))
        if op == "BitAnd":
            return I.new(st, E.SCell([i for i in ca.items if i in cb.items]))
    if pdm.is_pd(ca) or pdm.is_pd(cb):
        return pdm.elementwise(I, op, a, b, st, node)
    if ca is not None and ca.kind == "mat" or cb is not None and cb.kind == "mat":
        return nd.elementwise(I, lambda p, q: I.binop(op, p, q, st, node), a, b, st, node)
    xa = ca is not None and ca.kind == "arr"
    xb = cb is not None and cb.kind == "arr"
    if xa and not ca.writes and (xb and not cb.writes or cb is None and not isinstance(b, (str, Tup)) or cb is not None and cb.kind == "list" and cb.known()):
        bs = list(cb.cells) if xb else (list(cb.items) if cb is not None else [b] * len(ca.cells))
        if len(bs) == len(ca.cells):
            return mkarr(I, st, [I.binop(op, x, y, st, node) for x, y in zip(ca.cells, bs)], unordered=ca.unordered)
    if xb and not cb.writes and ca is None and not isinstance(a, (str, Tup)):
        return mkarr(I, st, [I.binop(op, a, y, st, node) for y in cb.cells], unordered=cb.unordered)
    return NotImplemented


# ------------------------------------------------------------------ helpers


def length(I, v, st, node):
    v = I.resolve(v, st)
    if E.is_ite(v):
        return E.ite(v.args[0], length(I, v.args[1], st, node), length(I, v.args[2], st, node))
    if isinstance(v, str):
        return len(v)
    if isinstance(v, Tup):
        return len(v.items)
    c = I.cell(st, v)
    if c is not None:
        if c.kind == "list":
            if c.known():
                return len(c.items)
            stars = [i for i in c.items if isinstance(i, Star)]
            n = len(c.items) - len(stars)
            if all(s.guard is True and not (isinstance(s.val, T) and s.val.op in ("items", "spread")) for s in stars):
                out = n
                for s in stars:
                    ln = I.iter_len(s.it, st)
                    if ln is None:
                        ln = T("len", s.it)
                    out = lin_add(out, ln)
                return out
            return T("len", I.freeze(v, st))
        if c.kind == "dict":
            return len(c.items) if not c.open else T("len", I.freeze(v, st))
        if c.kind == "set":
            if any(isinstance(i, T) for i in c.items):
                return T("len", I.freeze(v, st))
            return len(c.items)
        if c.kind == "arr":
            return len(c.cells)
        if c.kind == "mat":
            return c.shape[0]
        if pdm.is_pd(c):
            return pdm.length(c)
        if c.kind == "obj" and isinstance(c.cls, ClassV):
            f, _ = c.cls.lookup("__len__")
            if f is not None:
                return I.call(BoundV(f, v), [], {}, st, node)
            if all(isinstance(b, ClassV) or isinstance(b, ExtV) and b.name in ("builtins.object", "object") for b in c.cls.mro()):
                I.raise_now(st, "TypeError", node)
    if isinstance(v, ClassV) and v.is_enum:
        return len(v.members)
    items = I.concrete_items(v, st)
    if items is not None:
        return len(items)
    if v is None:
        I.event("none_deref", node, st, what="len")
        I.raise_now(st, "TypeError", node)
    if is_num(v) or isinstance(v, (EnumV, Lin)):
        I.event("badop", node, st, op="len", a=v, b=None)
        I.raise_now(st, "TypeError", node)
    if isinstance(v, ExtV) and v.name == "pandas.NA":
        I.raise_now(st, "TypeError", node)
    if isinstance(v, T) and v.op == "range":
        ln = I.iter_len(v, st)
        if ln is not None:
            return ln
    cls = I.typeof(v)
    if isinstance(cls, ClassV):
        f, _ = cls.lookup("__len__")
        if f is not None:
            return I.call(BoundV(f, v), [], {}, st, node)
    I.opaque_ops += 1
    return T("len", I.freeze(v, st))


def sort_items(I, items, st, node, key=None, rev=False):
    def k(x):
        return I.call(key, [x], {}, st, node) if key is not None else x

    ks = [k(x) for x in items]

    def cmp(i, j):
        a, b = ks[i], ks[j]
        c = I.truth(I.compare("Lt", a, b, st, node), st)
        if c is True:
            return -1
        c2 = I.truth(I.compare("Lt", b, a, st, node), st)
        if c2 is True:
            return 1
        if c is False and c2 is False:
            return 0
        raise TypeError

    try:
        order = sorted(range(len(items)), key=functools.cmp_to_key(cmp), reverse=rev)
    except TypeError:
        return None
    return [items[i] for i in order]


def to_list(I, v, st, node, pytype="list"):
    c = I.cell(st, v)
    un = c is not None and (c.kind == "set" or getattr(c, "unordered", False))
    items = I.concrete_items(v, st)
    if items is not None:
        if un:
            I.event("set_iter", node, st, it=v)
        return I.mklist(st, items, unordered=un)
    if c is not None and c.kind == "list":
        return I.mklist(st, c.items, unordered=un)
    if isinstance(v, T) and v.op == "range" and v.args[2] == 1:
        idx = T("idx", "r")
        return I.mklist(st, [Star(idx, v, I.iter_elem(v, idx, st), True)])
    if isinstance(v, T) and v.op in ("enumerate", "zip", "dictitems", "dictkeys", "dictvalues"):
        idx = T("idx", "r")
        fz = I.freeze(v, st)
        return I.mklist(st, [Star(idx, fz, I.iter_elem(fz, idx, st), True)])
    I.opaque_ops += 1
    return T("listof", I.freeze(v, st))


def sum_items(I, v, st, node):
    items = I.concrete_items(v, st)
    c = I.cell(st, v)
    if items is not None:
        acc = 0
        for x in items:
            acc = I.binop("Add", acc, x, st, node)
        return acc
    if c is not None and c.kind == "list":
        acc = 0
        for x in c.items:
            if isinstance(x, Star):
                if isinstance(x.val, T) and x.val.op in ("items", "spread") or to_lin(x.val) is None:
                    I.opaque_ops += 1
                    return T("sumof", I.freeze(v, st))
                acc = lin_add(acc, E.mk_sum(x.it, x.idx, x.val, x.guard)) if to_lin(acc) is not None else T("sumof", I.freeze(v, st))
            else:
                acc = I.binop("Add", acc, x, st, node)
        return acc
    I.opaque_ops += 1
    return T("sumof", I.freeze(v, st))


def minmax(I, which, vals, st):
    vals = [I.resolve(v, st) for v in vals]
    flat = []
    for v in vals:
        if isinstance(v, T) and v.op == which:
            flat.extend(v.args)
        else:
            flat.append(v)
    vals = flat
    if all(is_num(v) for v in vals):
        return min(vals) if which == "min" else max(vals)
    if all(isinstance(v, str) for v in vals):
        return min(vals) if which == "min" else max(vals)
    if vals and all(isinstance(v, Tup) and all(is_num(x) for x in v.items) for v in vals):
        return min(vals, key=lambda v: tuple(v.items)) if which == "min" else max(vals, key=lambda v: tuple(v.items))
    if all(to_lin(v) is not None for v in vals):
        keep = []
        for v in vals:
            dom = False
            for w in vals:
                if w is v or same(v, w):
                    continue
                lo, hi = I.bounds(lin_add(v, w, -1), st)
                if which == "min" and lo is not None and lo >= 0 or which == "max" and hi is not None and hi <= 0:
                    if not any(same(w, z) for z in ()):
                        dom = True
                        break
            if not dom and not any(same(v, z) for z in keep):
                keep.append(v)
        if not keep:
            keep = vals[:1]
        if len(keep) == 1:
            return keep[0]
        return T(which, *sorted(keep, key=repr))
    return None


# ------------------------------------------------------------------ builtin / library functions


def call_ext(I, name, args, kw, st, node):
    hk = I.hooks.get(name)
    if hk is not None:
        return hk(I, args, kw, st, node)
    if name.startswith("builtins."):
        b = name[9:]
        if b in ("exit", "quit"):
            I.raise_now(st, "SystemExit", node, tuple(args))
        h = B.get(b)
        if h is not None:
            r = h(I, args, kw, st, node)
            if r is not NotImplemented:
                return r
        elif "." in b and b.split(".")[0] in ("str", "list", "set", "tuple") and args:
            return call_method(I, I.resolve(args[0], st), b.split(".")[1], list(args[1:]), kw, st, node)
        elif b in E.EXC_PARENTS or b.endswith("Error") or b.endswith("Exception"):
            return E.Exc(b, tuple(args), node)
        return opaque_call(I, b, args, kw, st, node)
    last = name.split(".")[-1]
    if name in ("argparse.ArgumentError",):
        I.event("excctor", node, st, name=name, args=list(args))
        return E.Exc("ArgumentError", tuple(args), node)
    if last.endswith("Error") or last.endswith("Exception"):
        return E.Exc(last, tuple(args), node)
    if name == "logging.getLogger":
        return ExtV("logging.root")
    if last == "isEnabledFor" and name.startswith("logging."):
        return False  # analysed with debug logging off
    if name == "torch.transpose":
        name = "numpy.swapaxes"
    elif name in ("torch.zeros", "torch.ones") and all(type(x) is int for x in args) and args:
        name, args = "numpy." + last, [Tup(args)]
    elif name in ("torch.tensor", "torch.from_numpy", "torch.as_tensor"):
        name = "numpy.array" if last == "tensor" else "numpy.asarray"
    if name.startswith("numpy.") and kw.get("out") is not None:
        out = kw["out"].items[0] if isinstance(kw["out"], Tup) and len(kw["out"].items) == 1 else kw["out"]
        k2 = {k: v for k, v in kw.items() if k != "out"}
        if "where" not in kw and I.cell(st, out) is not None:
            r = call_ext(I, name, args, k2, st, node)
            if I.cell(st, r) is not None:
                I.setitem(out, SliceV(None, None, None), r, st, node)
                return out
        havoc(I, out, st, node, name)
        return out
    h = X.get(name)
    isnp = name.startswith("numpy.") and name.count(".") == 1
    if isnp and any(nd.is_mat(I, x, st) for x in args):
        r = nd.np_call(I, name, args, kw, st, node)
        if r is not NotImplemented:
            return r
    if h is not None:
        r = h(I, args, kw, st, node)
        if r is not NotImplemented:
            return r
    if isnp:
        r = nd.np_call(I, name, args, kw, st, node)
        if r is not NotImplemented:
            return r
    if name.startswith(("logging.", "warnings.", "tqdm.", "super.")) or ".logging." in name:
        I.event("extcall", node, st, name=name, args=list(args), kw=dict(kw))
        if last in ("tqdm",) and args:
            return args[0]
        return None if name.startswith(("logging.", "warnings.")) else T("ext:" + name, *_frz(I, args, st))
    return opaque_call(I, name, args, kw, st, node)


def b_len(I, a, kw, st, n):
    return length(I, a[0], st, n)


def b_range(I, a, kw, st, n):
    a = [I.resolve(x, st) for x in a]
    if len(a) == 1:
        a = [0] + a
    if len(a) == 2:
        a = a + [1]
    a = [int(x) if isinstance(x, bool) else x for x in a]
    # normalise integer-valued forms
    for i, x in enumerate(a):
        if E.is_ite(x) and E.ite_size(x) <= 4:
            c = x.args[0]
            return E.ite(c, b_range(I, a[:i] + [x.args[1]] + a[i + 1:], kw, st, n), b_range(I, a[:i] + [x.args[2]] + a[i + 1:], kw, st, n))
    return T("range", *a)


def b_enumerate(I, a, kw, st, n):
    return T("enumerate", a[0], a[1] if len(a) > 1 else kw.get("start", 0))


def b_zip(I, a, kw, st, n):
    return T("zip", *a)


def b_sorted(I, a, kw, st, n):
    items = I.concrete_items(a[0], st)
    rev = kw.get("reverse", False)
    if items is not None and isinstance(rev, bool):
        r = sort_items(I, items, st, n, kw.get("key"), rev)
        if r is not None:
            return I.mklist(st, r)
    return NotImplemented


def b_set(I, a, kw, st, n):
    if not a:
        return I.new(st, E.SCell([]))
    items = I.concrete_items(a[0], st)
    if items is not None:
        return I.new(st, E.SCell(items))
    c = I.cell(st, a[0])
    if c is not None and c.kind == "list":
        return I.new(st, E.SCell([T("each", x.idx, x.it, x.val) if isinstance(x, Star) else x for x in c.items]))
    return NotImplemented


def b_list(I, a, kw, st, n):
    if not a:
        return I.mklist(st, [])
    return to_list(I, I.resolve(a[0], st), st, n)


def b_tuple(I, a, kw, st, n):
    if not a:
        return Tup(())
    items = I.concrete_items(a[0], st)
    if items is not None:
        return Tup(items)
    return NotImplemented


def b_dict(I, a, kw, st, n):
    items, open_ = [], "**" in kw
    if a:
        c = I.cell(st, a[0])
        if c is not None and c.kind == "dict":
            items, open_ = list(c.items), open_ or c.open
        else:
            it = I.concrete_items(a[0], st)
            if it is None:
                if isinstance(a[0], T):
                    return T("dictof", I.freeze(a[0], st))
                return NotImplemented
            for x in it:
                p = I.concrete_items(x, st)
                if p is None or len(p) != 2:
                    return NotImplemented
                items = [(k, v) for k, v in items if not same(k, p[0])] + [(p[0], p[1])]
    for k, v in kw.items():
        if k != "**":
            items = [(x, y) for x, y in items if not same(x, k)] + [(k, v)]
    return I.new(st, E.DCell(items, open_=open_))


def b_str(I, a, kw, st, n):
    if not a:
        return ""
    return I.to_str(a[0], st)


def b_int(I, a, kw, st, n):
    if not a:
        return 0
    v = I.resolve(a[0], st)
    if is_const(v) and v is not None:
        try:
            return int(v)
        except (ValueError, TypeError):
            I.raise_now(st, "ValueError", n)
    if E.is_intval(v):
        return v
    if E.is_ite(v):
        return E.ite(v.args[0], b_int(I, [v.args[1]], {}, st, n), b_int(I, [v.args[2]], {}, st, n))
    if I.is_cond(v):
        return E.ite(v, 1, 0)
    I.opaque_ops += 1
    return T("int", I.freeze(v, st))


def b_float(I, a, kw, st, n):
    v = I.resolve(a[0], st)
    if is_const(v) and v is not None:
        try:
            return float(v)
        except (ValueError, TypeError):
            I.raise_now(st, "ValueError", n)
    return T("float", I.freeze(v, st))


def b_bool(I, a, kw, st, n):
    return I.truth(a[0], st) if a else False


def b_abs(I, a, kw, st, n):
    v = I.resolve(a[0], st)
    if is_num(v):
        return abs(v)
    if to_lin(v) is not None:
        lo, hi = I.bounds(v, st)
        if lo is not None and lo >= 0:
            return v
        if hi is not None and hi <= 0:
            return lin_scale(v, -1)
        w = lin_scale(v, -1)
        return T("abs", v if repr(v) <= repr(w) else w)
    return NotImplemented


def _mm(which):
    def f(I, a, kw, st, n):
        key = kw.get("key")
        vals = a if len(a) > 1 else I.concrete_items(a[0], st)
        if vals is None:
            return NotImplemented
        if not vals:
            if "default" in kw:
                return kw["default"]
            I.raise_now(st, "ValueError", n)
        if key is not None:
            s = sort_items(I, list(vals), st, n, key, which == "max")
            if s is None:
                return NotImplemented
            return s[0]
        r = minmax(I, which, vals, st)
        if r is None and all(isinstance(v, Ref) and I.cell(st, v) is not None and I.cell(st, v).kind == "obj" for v in vals):
            best = vals[0]
            for x in vals[1:]:
                c = I.truth(I.compare("Gt" if which == "max" else "Lt", x, best, st, n), st)
                if c is True:
                    best = x
                elif c is not False:
                    return NotImplemented
            return best
        return NotImplemented if r is None else r

    return f


def b_sum(I, a, kw, st, n):
    r = sum_items(I, a[0], st, n)
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    return I.binop("Add", r, start, st, n) if start != 0 else r


def b_any(I, a, kw, st, n):
    items = I.concrete_items(a[0], st)
    if items is not None:
        return E.mk_or([I.truth(x, st) for x in items])
    c = I.cell(st, a[0])
    if c is not None and c.kind == "list":
        return T("any", I.freeze(a[0], st))
    I.opaque_ops += 1
    return T("any", I.freeze(a[0], st))


def b_all(I, a, kw, st, n):
    items = I.concrete_items(a[0], st)
    if items is not None:
        return E.mk_and([I.truth(x, st) for x in items])
    I.opaque_ops += 1
    return T("all", I.freeze(a[0], st))


TYPEMAP = {"int": (int,), "str": (str,), "float": (float,), "bool": (bool,)}


def isinst(I, v, cls, st):
    v = I.resolve(v, st)
    if isinstance(cls, Tup):
        return E.mk_or([isinst(I, v, c, st) for c in cls.items])
    if E.is_ite(v):
        return I.bite(v.args[0], isinst(I, v.args[1], cls, st), isinst(I, v.args[2], cls, st))
    c = I.cell(st, v)
    nm = cls.name.split(".")[-1] if isinstance(cls, (ExtV, ClassV)) else None
    if v is None:
        return nm in ("object", "NoneType")
    if isinstance(v, ExtV) and v.name in ("sys.stdin", "sys.stdout", "sys.stderr") and nm is not None:
        return nm in ("object", "TextIOWrapper", "TextIOBase", "IOBase", "TextIO", "IO")
    if isinstance(v, EnumV):
        return nm in (v.cls, "Enum", "object")
    if is_const(v):
        if nm in TYPEMAP:
            return isinstance(v, TYPEMAP[nm])
        if nm == "Number" or nm in ("Integral", "Real"):
            return is_num(v)
        if isinstance(cls, (ClassV, ExtV)):
            return nm == "object" or (nm == "Fraction" and isinstance(v, Fraction))
        return T("isinstance", v, cls)
    if isinstance(v, SliceV):
        return nm in ("slice", "object")
    if isinstance(v, ExtV) and v.name == "pandas.NA" and nm is not None:
        return nm in ("object", "NAType")
    if isinstance(v, Tup):
        return nm in ("tuple", "object", "Tuple", "Iterable", "Sequence")
    if isinstance(v, Lin) or E.is_intval(v):
        if nm in ("int", "object", "Number"):
            return True
        return False if nm in ("str", "list", "dict", "tuple", "slice") or isinstance(cls, ClassV) else T("isinstance", v, cls)
    if c is not None:
        if c.kind == "obj":
            if isinstance(cls, ClassV):
                return cls in c.cls.mro() if isinstance(c.cls, ClassV) else False
            return nm == "object"
        return nm in {"list": ("list", "List"), "dict": ("dict", "Dict", "Mapping"), "set": ("set",), "arr": ("ndarray",), "mat": ("ndarray",), "df": ("DataFrame",), "ser": ("Series",), "pidx": ("Index", "MultiIndex")}.get(c.kind, ()) or nm in ("object", "Iterable")
    t = I.typeof(v)
    if isinstance(t, ClassV) and isinstance(cls, ClassV):
        if cls in t.mro():
            return True
        if t not in cls.mro():
            return False
    return T("isinstance", v, cls)


def b_isinstance(I, a, kw, st, n):
    return isinst(I, a[0], a[1], st)


def b_getattr(I, a, kw, st, n):
    nm = I.resolve(a[1], st)
    if isinstance(nm, str):
        o = I.resolve(a[0], st)
        if len(a) > 2:
            c = I.cell(st, o)
            if c is not None and c.kind == "obj" and nm not in c.attrs and not (isinstance(c.cls, ClassV) and c.cls.lookup(nm)[0]):
                return a[2]
        return I.getattr(o, nm, st, n)
    I.opaque_ops += 1
    return T("dynattr", I.freeze(a[0], st), I.freeze(nm, st))


def b_setattr(I, a, kw, st, n):
    if isinstance(a[1], str):
        I.setattr(a[0], a[1], a[2], st, n)
        return None
    I.effect(n, st, "setattr", a[0], T("dyn", I.freeze(a[1], st)), a[2])
    return None


def b_delattr(I, a, kw, st, n):
    if len(a) == 2 and isinstance(a[1], str):
        I.delattr(a[0], a[1], st, n)
        return None
    return NotImplemented


def b_hasattr(I, a, kw, st, n):
    o = I.resolve(a[0], st)
    c = I.cell(st, o)
    if c is not None and c.kind == "obj" and isinstance(a[1], str):
        return a[1] in c.attrs or bool(isinstance(c.cls, ClassV) and c.cls.lookup(a[1])[0])
    return T("cond", "hasattr", I.freeze(o, st), a[1])


def b_reversed(I, a, kw, st, n):
    items = I.concrete_items(a[0], st)
    if items is not None:
        return I.mklist(st, list(reversed(items)))
    return T("reversed", I.freeze(a[0], st))


def b_map(I, a, kw, st, n):
    items = I.concrete_items(a[1], st)
    if items is not None and len(a) == 2:
        return I.mklist(st, [I.call(a[0], [x], {}, st, n) for x in items])
    if len(a) == 2:
        idx = I.loop_index()
        I.idepth += 1
        v = I.call(a[0], [I.iter_elem(a[1], idx, st)], {}, st, n)
        I.idepth -= 1
        return I.mklist(st, [Star(idx, I.freeze(a[1], st), v, True)])
    return NotImplemented


def b_filter(I, a, kw, st, n):
    items = I.concrete_items(a[1], st)
    if items is not None and a[0] is not None:
        out = []
        for x in items:
            c = I.truth(I.call(a[0], [x], {}, st, n), st)
            if c is True:
                out.append(x)
            elif c is not False:
                out.append(Star(T("idx", "one"), T("once"), x, c))
        return I.mklist(st, out)
    return NotImplemented


def b_super(I, a, kw, st, n):
    if len(a) == 2:
        return T("super", a[0], a[1])
    fr = I.stack[-1]
    if fr.fn is not None and fr.fn.cls is not None:
        first = fr.fn.node.args.args[0].arg
        return T("super", fr.fn.cls, st.env.get(first))
    return NotImplemented


def b_locals(I, a, kw, st, n):
    if a or kw:
        return NotImplemented
    return I.new(st, E.DCell([(k, v) for k, v in st.env.items() if isinstance(k, str)], open_=True))


def b_type(I, a, kw, st, n):
    c = I.cell(st, a[0])
    if c is not None and c.kind == "obj":
        return c.cls
    t = I.typeof(a[0])
    if t is not None:
        return t
    if isinstance(a[0], EnumV):
        e = I.enum_class(a[0])
        if e is not None:
            return e
    return T("type", I.freeze(a[0], st))


def b_divmod(I, a, kw, st, n):
    return Tup((I.binop("FloorDiv", a[0], a[1], st, n), I.binop("Mod", a[0], a[1], st, n)))


def b_round(I, a, kw, st, n):
    if is_num(a[0]) and all(is_const(x) for x in a):
        return round(*a)
    if E.is_intval(a[0]) and len(a) == 1:
        return a[0]
    return NotImplemented


def b_print(I, a, kw, st, n):
    I.event("extcall", n, st, name="print", args=list(a), kw=dict(kw))
    return None


def b_slice(I, a, kw, st, n):
    a = list(a)
    if len(a) == 1:
        a = [None] + a
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


def b_iter(I, a, kw, st, n):
    items = I.concrete_items(a[0], st)
    if items is not None and len(a) == 1:
        return I.mklist(st, items, pytype="iter")
    return a[0]


def b_next(I, a, kw, st, n):
    items = I.concrete_items(a[0], st)
    c = I.cell(st, a[0])
    if items is not None and c is not None and c.kind == "list" and c.pytype == "iter":
        if items:
            I.put(st, a[0], E.LCell(tuple(items[1:]), c.unordered, c.origin, c.pytype))
            return items[0]
        if len(a) > 1:
            return a[1]
        I.raise_now(st, "StopIteration", n)
    if items:
        return items[0]
    if items is not None and len(a) > 1:
        return a[1]
    if c is not None and c.kind == "list" and len(c.items) >= 1 and all(isinstance(x, Star) for x in c.items) :
        # first element satisfying its guard
        res = a[1] if len(a) > 1 else T("bottom")
        if all(x.it == T("once") for x in c.items):
            for x in reversed(c.items):
                res = E.ite(x.guard, x.val, res)
            return res
    return NotImplemented


def b_fromkeys(I, a, kw, st, n):
    items = I.concrete_items(a[0], st)
    if items is None or not all(is_const(x) or isinstance(x, (EnumV, Tup)) for x in items):
        return NotImplemented
    c = I.cell(st, a[0])
    if c is not None and (c.kind == "set" or getattr(c, "unordered", False)):
        I.event("set_iter", n, st, it=a[0])
    out = []
    for x in items:
        if not any(same(x, y) for y, _ in out):
            out.append((x, a[1] if len(a) > 1 else None))
    return I.new(st, E.DCell(out))


def b_id(I, a, kw, st, n):
    v = I.resolve(a[0], st)
    if isinstance(v, Ref) and isinstance(v.id, int):
        return 10**12 + v.id
    return NotImplemented


def b_repr(I, a, kw, st, n):
    if isinstance(a[0], str):
        return repr(a[0])
    if isinstance(a[0], int):
        return repr(a[0])
    return NotImplemented


def b_chr(I, a, kw, st, n):
    return chr(a[0]) if type(a[0]) is int and 0 <= a[0] < 1114112 else NotImplemented


def b_ord(I, a, kw, st, n):
    return ord(a[0]) if isinstance(a[0], str) and len(a[0]) == 1 else NotImplemented


def b_pow(I, a, kw, st, n):
    return I.binop("Pow", a[0], a[1], st, n) if len(a) == 2 else NotImplemented


def b_maketrans(I, a, kw, st, n):
    if len(a) == 2 and all(isinstance(x, str) for x in a) and len(a[0]) == len(a[1]):
        return I.new(st, E.DCell([(ord(x), y) for x, y in zip(*a)]))
    c = I.cell(st, a[0]) if len(a) == 1 else None
    if c is not None and c.kind == "dict" and not c.open and all(isinstance(k, str) for k, _ in c.items):
        return I.new(st, E.DCell([(ord(k), v) for k, v in c.items]))
    return NotImplemented


def lit(f):
    """constant folding of a pure library function"""
    import math  # noqa: F401

    def g(I, a, kw, st, n):
        a = [I.resolve(x, st) for x in a]
        if kw or not all(is_num(x) for x in a):
            return NotImplemented
        try:
            return f(*a)
        except (ValueError, ZeroDivisionError):
            I.raise_now(st, "ValueError", n)
        except (TypeError, OverflowError):
            return NotImplemented

    return g


def x_floorceil(which):
    def g(I, a, kw, st, n):
        import math

        x = I.resolve(a[0], st)
        if is_num(x):
            return getattr(math, which)(x)
        if isinstance(x, T) and x.op == "div":
            if which == "floor":
                return I.binop("FloorDiv", x.args[0], x.args[1], st, n)
        return NotImplemented

    return g


def x_from_iterable(I, a, kw, st, n):
    items = I.concrete_items(a[0], st)
    return x_chain(I, items, kw, st, n) if items is not None else NotImplemented


def x_zip_longest(I, a, kw, st, n):
    its = [I.concrete_items(x, st) for x in a]
    if any(i is None for i in its):
        return NotImplemented
    import itertools

    return I.mklist(st, [Tup(t) for t in itertools.zip_longest(*its, fillvalue=kw.get("fillvalue"))])


def x_itertool(name):
    def g(I, a, kw, st, n):
        import itertools

        if name == "repeat":
            if len(a) == 2 and type(a[1]) is int:
                return I.mklist(st, [a[0]] * a[1])
            return T("repeated", a[0]) if len(a) == 1 and not kw else NotImplemented
        if name == "count":
            a = [*a, *([0, 1][len(a):])]
            a = [kw.get("start", a[0]), kw.get("step", a[1])]
            return T("countfrom", *a) if all(type(x) is int for x in a) else NotImplemented
        if name == "starmap":
            items = I.concrete_items(a[1], st)
            sub = [I.concrete_items(x, st) for x in items] if items is not None else None
            if sub is None or any(x is None for x in sub):
                return NotImplemented
            return I.mklist(st, [I.call(a[0], x, {}, st, n) for x in sub])
        items = I.concrete_items(a[0], st)
        if items is None or not all(x is None or type(x) is int for x in a[1:]) and name != "accumulate":
            return NotImplemented
        if name == "islice":
            if any(x is not None and x < 0 for x in a[1:]):
                return NotImplemented
            return I.mklist(st, list(itertools.islice(items, *a[1:])))
        if name in ("combinations", "permutations"):
            return I.mklist(st, [Tup(t) for t in getattr(itertools, name)(items, *a[1:])])
        if name == "accumulate":
            out, acc = [], None
            for i, x in enumerate(items):
                if i == 0:
                    acc = x
                elif len(a) > 1:
                    acc = I.call(a[1], [acc, x], {}, st, n)
                else:
                    acc = I.binop("Add", acc, x, st, n)
                out.append(acc)
            return I.mklist(st, out)
        return NotImplemented

    return g


def x_partial(I, a, kw, st, n):
    return T("partial", a[0], Tup(a[1:]), Tup(Tup((k, v)) for k, v in kw.items()))


def x_getter(kind):
    return lambda I, a, kw, st, n: T("getter", kind, a[0]) if len(a) == 1 else NotImplemented


def opr(name):
    return lambda I, a, kw, st, n: I.binop(name, a[0], a[1], st, n)


def cmpr(name):
    return lambda I, a, kw, st, n: I.compare(name, a[0], a[1], st, n)


def b_vars(I, a, kw, st, n):
    c = I.cell(st, a[0]) if len(a) == 1 else None
    if c is None or c.kind != "obj":
        return NotImplemented
    return I.dictview(st, a[0], c)


B = {
    "vars": b_vars,
    "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "sorted": b_sorted,
    "set": b_set, "frozenset": b_set, "list": b_list, "tuple": b_tuple, "dict": b_dict,
    "str": b_str, "int": b_int, "float": b_float, "bool": b_bool, "abs": b_abs,
    "min": _mm("min"), "max": _mm("max"), "sum": b_sum, "any": b_any, "all": b_all,
    "isinstance": b_isinstance, "getattr": b_getattr, "setattr": b_setattr, "delattr": b_delattr, "hasattr": b_hasattr,
    "reversed": b_reversed, "map": b_map, "filter": b_filter, "super": b_super, "type": b_type, "locals": b_locals,
    "divmod": b_divmod, "round": b_round, "print": b_print, "slice": b_slice, "iter": b_iter, "id": b_id,
    "next": b_next, "dict.fromkeys": b_fromkeys, "repr": b_repr, "chr": b_chr, "ord": b_ord, "pow": b_pow,
    "str.maketrans": b_maketrans,
}


# ------------------------------------------------------------------ numpy and friends


def empty_of(val, dt):
    """np.empty of objects holds None"""
    if isinstance(val, T) and val.op == "uninit" and (isinstance(dt, ExtV) and dt.name.split(".")[-1] in ("object", "object_") or dt == "object"):
        return None
    return val


def np_full(val0):
    def f(I, a, kw, st, n):
        val = empty_of(val0, kw.get("dtype", a[1] if len(a) > 1 else None))
        v = a[0] if a else kw.get("shape")
        v = I.resolve(v, st)
        if isinstance(v, Tup) and len(v.items) == 1:
            v = v.items[0]
        if E.is_ite(v) and E.ite_size(v) <= 3:
            c = v.args[0]
            return E.ite(c, f(I, [v.args[1]], kw, st, n), f(I, [v.args[2]], kw, st, n))
        if isinstance(v, int) and v <= E.MAX_UNROLL:
            if v < 0:
                I.raise_now(st, "ValueError", n)
            return mkarr(I, st, [val] * v)
        if I.cell(st, v) is not None and I.cell(st, v).kind == "list":
            I.event("badop", n, st, op="np.zeros(list)", a=v, b=None)
        return NotImplemented

    return f


def np_fullv(I, a, kw, st, n):
    if isinstance(a[0], int) and len(a) > 1:
        return mkarr(I, st, [a[1]] * a[0])
    return NotImplemented


def dtype_kind(d):
    """'int' | 'bool' | 'float' | None"""
    if isinstance(d, ExtV):
        last = d.name.split(".")[-1]
        if last.startswith(("int", "uint", "long")):
            return "int"
        if last.startswith("bool"):
            return "bool"
        if last.startswith(("float", "half", "double")):
            return "float"
    if isinstance(d, str):
        return "int" if d.startswith(("int", "uint")) else "bool" if d.startswith("bool") else "float" if d.startswith("float") else None
    return None


def cast(I, ref, d, st):
    """apply an element type to a freshly made array (constant elements only)"""
    k = dtype_kind(d)
    c = I.cell(st, ref)
    if k not in ("int", "bool") or c is None:
        return ref

    def f(x):
        if isinstance(x, (float, Fraction)) and x == x and abs(x) != float("inf"):
            return int(x) if k == "int" else bool(x)
        if k == "bool" and type(x) is int:
            return bool(x)
        if k == "int" and isinstance(x, bool):
            return int(x)
        return x

    if c.kind == "arr":
        I.put(st, ref, E.ACell([f(x) for x in c.cells], tuple((i, f(v)) for i, v in c.writes), c.origin, c.view))
    elif c.kind == "mat":
        b = I.cell(st, c.buf)
        I.put(st, c.buf, nd.BufCell([f(x) for x in b.vals]))
    return ref


def np_array(I, a, kw, st, n):
    r = np_array0(I, a, kw, st, n)
    if r is not NotImplemented:
        d = kw.get("dtype", a[1] if len(a) > 1 else None)
        r = cast(I, r, d, st)
    return r


def np_asarray(I, a, kw, st, n):
    c = I.cell(st, a[0])
    if c is not None and c.kind in ("arr", "mat") and len(a) == 1 and not kw:
        return a[0]
    return np_array(I, a, kw, st, n)


def np_array0(I, a, kw, st, n):
    items = I.concrete_items(a[0], st)
    c = I.cell(st, a[0])
    if items is not None and all(is_const(x) or isinstance(x, (Lin,)) or isinstance(x, T) and not isinstance(I.cell(st, x), E.Cell) for x in items):
        return mkarr(I, st, items, unordered=c is not None and (c.kind == "set" or getattr(c, "unordered", False)))
    if c is not None and c.kind == "arr":
        return mkarr(I, st, c.cells, c.writes)
    return NotImplemented


def np_concat(I, a, kw, st, n):
    parts = I.concrete_items(a[0], st)
    if parts is None:
        return NotImplemented
    cells, writes = [], []
    for p in parts:
        p = I.resolve(p, st)
        c = I.cell(st, p)
        off = len(cells)
        if c is not None and c.kind == "arr":
            cells.extend(c.cells)
            writes.extend(shift_writes(c, off))
        else:
            it = I.concrete_items(p, st)
            if it is None:
                return NotImplemented
            if any(I.cell(st, x) is not None for x in it):
                return NotImplemented
            cells.extend(it)
    return mkarr(I, st, cells, writes)


def np_sum(I, a, kw, st, n):
    if kw.get("axis") is not None or len(a) > 1:
        return NotImplemented
    c = I.cell(st, a[0])
    if c is not None and c.kind == "arr" and c.writes:
        return NotImplemented
    if isinstance(a[0], T):
        return NotImplemented
    return sum_items(I, a[0], st, n)


def np_mean(I, a, kw, st, n):
    if kw or len(a) > 1:
        return NotImplemented
    items = I.concrete_items(a[0], st)
    if not items or not all(isinstance(x, (int, float, Fraction)) and not isinstance(x, bool) for x in items):
        return NotImplemented
    return float(sum(items) / len(items))


def np_where(I, a, kw, st, n):
    if len(a) == 1:
        items = I.concrete_items(a[0], st)
        if items is not None and all(isinstance(x, bool) for x in items):
            return Tup((mkarr(I, st, [i for i, x in enumerate(items) if x]),))
    if len(a) == 3:
        c = I.cell(st, a[0])
        if c is None and (I.is_cond(a[0]) or isinstance(a[0], bool)):
            return E.ite(a[0], a[1], a[2])
    return NotImplemented


def np_roll(I, a, kw, st, n):
    c = I.cell(st, a[0])
    k = a[1] if len(a) > 1 else kw.get("shift")
    if c is not None and c.kind == "arr":
        m = len(c.cells)
        if isinstance(k, int) and not c.writes:
            return mkarr(I, st, [c.cells[(i - k) % m] for i in range(m)])
        if not isinstance(k, int) and to_lin(k) is not None:
            # symbolic roll: express as writes at shifted positions over the fill value
            vals = [x for x in c.cells]
            zero = 0
            if not c.writes and all(x == 0 or x == 1 for x in vals):
                return mkarr(I, st, [0] * m, [(mk_mod(lin_add(k, i), m), x) for i, x in enumerate(vals) if x != 0])
        if isinstance(k, int) and c.writes:
            return mkarr(I, st, [c.cells[(i - k) % m] for i in range(m)], [(I.binop("Mod", lin_add(i, k), m, st, n), v) for i, v in c.writes if to_lin(i) is not None])
    return NotImplemented


def np_arange(I, a, kw, st, n):
    if all(isinstance(x, int) for x in a):
        return mkarr(I, st, list(range(*a)))
    return NotImplemented


def np_like(val):
    def f(I, a, kw, st, n):
        c = I.cell(st, a[0])
        if c is not None and c.kind == "arr":
            return mkarr(I, st, [val] * len(c.cells))
        if c is not None and c.kind == "list" and c.known():
            return mkarr(I, st, [val] * len(c.items))
        return NotImplemented

    return f


def np_id(I, a, kw, st, n):
    return a[0]


def x_product(I, a, kw, st, n):
    rep = kw.get("repeat", 1)
    args = list(a) * rep if isinstance(rep, int) else list(a)
    for x in args:
        c = I.cell(st, x)
        if x is None or isinstance(x, (int, float, Fraction)):
            I.raise_now(st, "TypeError", n)
        if c is not None and (c.kind == "set" or getattr(c, "unordered", False)):
            items = I.concrete_items(T("product", *args), st)
            if items is not None:
                return I.mklist(st, items, unordered=True)
    return T("product", *args)


def x_chain(I, a, kw, st, n):
    out = []
    for x in a:
        it = I.concrete_items(x, st)
        if it is None:
            c = I.cell(st, x)
            if c is not None and c.kind == "list":
                it = list(c.items)
            else:
                it = [Star(T("idx", "s"), I.freeze(x, st), T("item", I.freeze(x, st), T("idx", "s")), True)]
        out.extend(it)
    return I.mklist(st, out)


def x_getfullargspec(I, a, kw, st, n):
    f = I.resolve(a[0], st)
    bound = False
    if isinstance(f, BoundV):
        f, bound = f.fn, True
    if isinstance(f, ClassV):
        f = f.lookup("__init__")[0]
    if isinstance(f, FuncV):
        names = [x.arg for x in list(getattr(f.node.args, "posonlyargs", [])) + list(f.node.args.args)]
        return I.new(st, E.OCell(ExtV("inspect.FullArgSpec"), {"args": I.mklist(st, names), "kwonlyargs": I.mklist(st, [x.arg for x in f.node.args.kwonlyargs])}))
    return NotImplemented


def x_signature(I, a, kw, st, n):
    f = I.resolve(a[0], st)
    bound = False
    if isinstance(f, BoundV):
        f, bound = f.fn, True
    if isinstance(f, ClassV):
        f, bound = f.lookup("__init__")[0], True
    if isinstance(f, FuncV):
        names = [x.arg for x in list(f.node.args.args) + list(f.node.args.kwonlyargs)]
        if bound:
            names = names[1:]
        return I.new(st, E.OCell(ExtV("inspect.Signature"), {"parameters": I.new(st, E.DCell([(x, T("param", x)) for x in names]))}))
    return NotImplemented


def x_defaultdict(I, a, kw, st, n):
    return I.new(st, E.DCell([], a[0] if a else None))


def x_copy(I, a, kw, st, n):
    c = I.cell(st, a[0])
    if c is not None:
        import copy as _c

        c2 = _c.copy(c)
        c2.origin = None
        if c2.kind == "arr":
            c2.view = None
        if c2.kind == "mat":
            return nd.mk(I, st, c.shape, nd.values(I, c, st))
        return I.new(st, c2)
    if is_const(a[0]) or isinstance(a[0], (EnumV, Tup, Lin)):
        return a[0]
    return NotImplemented


def x_deepcopy(I, a, kw, st, n):
    c = I.cell(st, a[0])
    if c is not None or isinstance(a[0], Tup):
        return deep_clone(I, a[0], st, {})
    if is_const(a[0]) or isinstance(a[0], (EnumV, Lin)):
        return a[0]
    return NotImplemented


def deep_clone(I, v, st, memo):
    import copy as _c

    if isinstance(v, Tup):
        return Tup(deep_clone(I, x, st, memo) for x in v.items)
    if not isinstance(v, Ref):
        return v
    if v.id in memo:
        return memo[v.id]
    c = I.cell(st, v)
    if c is None:
        return v
    if c.kind == "mat":
        memo[v.id] = nd.mk(I, st, c.shape, nd.values(I, c, st))
        return memo[v.id]
    c2 = _c.copy(c)
    c2.origin = None
    r = I.new(st, c2)
    memo[v.id] = r
    if c.kind == "list":
        c2.items = tuple(deep_clone(I, x, st, memo) for x in c.items)
    elif c.kind == "dict":
        c2.items = tuple((a, deep_clone(I, b, st, memo)) for a, b in c.items)
    elif c.kind == "obj":
        c2.attrs = {a: deep_clone(I, b, st, memo) for a, b in c.attrs.items()}
    elif c.kind == "arr":
        c2.view = None
    return r


def x_fraction(I, a, kw, st, n):
    a = [I.resolve(x, st) for x in a]
    if all(isinstance(x, (int, str, Fraction)) and not isinstance(x, bool) for x in a) and a:
        try:
            return Fraction(*a)
        except ZeroDivisionError:
            I.raise_now(st, "ZeroDivisionError", n)
        except ValueError:
            I.raise_now(st, "ValueError", n)
    if not a:
        return Fraction(0)
    if len(a) == 1 and isinstance(a[0], float):
        if a[0] != a[0]:
            I.raise_now(st, "ValueError", n)
        if a[0] in (float("inf"), float("-inf")):
            I.raise_now(st, "OverflowError", n)
        return Fraction(a[0])
    if len(a) == 1 and isinstance(a[0], (T, Lin)) and not E.is_ite(a[0]):
        if E.is_intval(a[0]):
            return a[0]
        return T("Fraction", a[0])
    if len(a) == 2 and all(to_lin(x) is not None for x in a):
        return I.binop("Div", a[0], a[1], st, n) if not all(is_num(x) for x in a) else Fraction(*a)
    return NotImplemented


def x_isnull(I, a, kw, st, n):
    v = I.resolve(a[0], st)
    if v is None:
        return True
    if isinstance(v, float):
        return v != v
    if is_const(v) or isinstance(v, (EnumV, Lin)):
        return False
    if E.is_ite(v):
        return I.bite(v.args[0], x_isnull(I, [v.args[1]], kw, st, n), x_isnull(I, [v.args[2]], kw, st, n))
    I.opaque_ops += 1
    return T("cond", "isnull", I.freeze(v, st))


def x_reduce(I, a, kw, st, n):
    items = I.concrete_items(a[1], st)
    if items is None:
        return NotImplemented
    if len(a) > 2:
        acc = a[2]
    else:
        if not items:
            I.raise_now(st, "TypeError", n)
        acc, items = items[0], items[1:]
    for x in items:
        acc = I.call(a[0], [acc, x], {}, st, n)
    return acc


def x_namedtuple(I, a, kw, st, n):
    return NotImplemented


def x_arrmax(which):
    def f(I, a, kw, st, n):
        items = I.concrete_items(a[0], st) if len(a) == 1 and not kw else (a if which in ("min", "max") and len(a) == 2 and not kw else None)
        if items:
            r = minmax(I, which, items, st)
            if r is not None:
                return r
        return NotImplemented

    return f


def np_clip(I, a, kw, st, n):
    if len(a) == 3 and to_lin(a[0]) is not None and I.cell(st, a[0]) is None and not isinstance(a[0], T):
        r = minmax(I, "max", [a[0], a[1]], st)
        if r is not None:
            r = minmax(I, "min", [r, a[2]], st)
        return NotImplemented if r is None else r
    return NotImplemented


def np_put(I, a, kw, st, n):
    c = I.cell(st, a[0])
    if c is not None and c.kind == "arr" and len(a) == 3 and not kw:
        ix = I.concrete_items(a[1], st) if I.cell(st, a[1]) is not None or isinstance(a[1], Tup) else [a[1]]
        vs = I.concrete_items(a[2], st) if I.cell(st, a[2]) is not None or isinstance(a[2], Tup) else [a[2]]
        if ix is not None and vs:
            for j, i in enumerate(ix):
                I.setitem(a[0], i, vs[j % len(vs)], st, n)
            return None
    return NotImplemented


def np_copyto(I, a, kw, st, n):
    if len(a) == 2 and not kw and I.cell(st, a[0]) is not None:
        I.setitem(a[0], SliceV(None, None, None), a[1], st, n)
        return None
    return NotImplemented


def np_at(op):
    def f(I, a, kw, st, n):
        if len(a) != 3 or kw or I.cell(st, a[0]) is None:
            return NotImplemented
        ix = I.concrete_items(a[1], st) if I.cell(st, a[1]) is not None else [a[1]] if not isinstance(a[1], Tup) else None
        if ix is None:
            return NotImplemented
        vs = I.concrete_items(a[2], st) if I.cell(st, a[2]) is not None else [a[2]] * len(ix)
        if vs is None or len(vs) != len(ix):
            return NotImplemented
        for i, v in zip(ix, vs):
            I.setitem(a[0], i, I.binop(op, I.getitem(a[0], i, st, n), v, st, n), st, n)
        return None

    return f


X = {
    "numpy.put": np_put, "numpy.copyto": np_copyto, "numpy.add.at": np_at("Add"), "numpy.subtract.at": np_at("Sub"), "numpy.multiply.at": np_at("Mult"),
    "numpy.zeros": np_full(0), "numpy.ones": np_full(1), "numpy.empty": np_full(T("uninit")),
    "numpy.full": np_fullv, "numpy.array": np_array, "numpy.asarray": np_asarray,
    "numpy.concatenate": np_concat, "numpy.hstack": np_concat, "numpy.sum": np_sum, "numpy.mean": np_mean, "numpy.average": np_mean,
    "numpy.where": np_where, "numpy.roll": np_roll, "numpy.arange": np_arange,
    "numpy.empty_like": np_like(T("uninit")), "numpy.zeros_like": np_like(0), "numpy.ones_like": np_like(1),
    "numpy.max": x_arrmax("max"), "numpy.min": x_arrmax("min"),
    "numpy.maximum": x_arrmax("max"), "numpy.minimum": x_arrmax("min"), "numpy.clip": np_clip,
    "numpy.int64": b_int, "numpy.mod": lambda I, a, kw, st, n: I.binop("Mod", a[0], a[1], st, n),
    "numpy.copy": x_copy,
    "itertools.product": x_product, "itertools.chain": x_chain, "functools.reduce": x_reduce,
    "inspect.getfullargspec": x_getfullargspec, "inspect.signature": x_signature,
    "collections.defaultdict": x_defaultdict, "collections.OrderedDict": b_dict,
    "copy.copy": x_copy, "copy.deepcopy": x_deepcopy, "fractions.Fraction": x_fraction,
    **pdm.FUNCS,
    "tqdm.tqdm": np_id, "typing.cast": lambda I, a, kw, st, n: a[1],
    "itertools.chain.from_iterable": x_from_iterable, "itertools.zip_longest": x_zip_longest,
    **{"itertools." + k: x_itertool(k) for k in ("repeat", "count", "starmap", "islice", "combinations", "permutations", "accumulate")},
    "functools.partial": x_partial, "operator.itemgetter": x_getter("item"), "operator.attrgetter": x_getter("attr"),
    "operator.sub": opr("Sub"), "operator.mod": opr("Mod"), "operator.floordiv": opr("FloorDiv"), "operator.truediv": opr("Div"),
    "operator.eq": cmpr("Eq"), "operator.ne": cmpr("NotEq"), "operator.lt": cmpr("Lt"), "operator.le": cmpr("LtE"), "operator.gt": cmpr("Gt"), "operator.ge": cmpr("GtE"),
    "operator.getitem": lambda I, a, kw, st, n: I.getitem(a[0], a[1], st, n),
    "operator.neg": lambda I, a, kw, st, n: I.binop("Sub", 0, a[0], st, n),
    "sys.exit": lambda I, a, kw, st, n: I.raise_now(st, "SystemExit", n, tuple(a)),
    "os._exit": lambda I, a, kw, st, n: I.raise_now(st, "SystemExit", n, tuple(a)),
    "math.floor": x_floorceil("floor"), "math.ceil": x_floorceil("ceil"),
    **{"math." + k: lit(getattr(__import__("math"), k)) for k in ("gcd", "fabs", "log", "log2", "exp", "sqrt", "isnan", "isinf", "trunc", "fmod", "isclose")},
    "operator.add": lambda I, a, kw, st, n: I.binop("Add", a[0], a[1], st, n),
    "operator.mul": lambda I, a, kw, st, n: I.binop("Mult", a[0], a[1], st, n),
}


# primitives of the source models in models/


def _re(how):
    import re

    def spans(m):
        return Tup((Tup([Tup(m.span(k)) for k in range(m.re.groups + 1)]), Tup([Tup(x) for x in m.re.groupindex.items()])))

    def g(I, a, kw, st, n):
        a = [I.resolve(x, st) for x in a]
        if not all(isinstance(x, (str, int)) for x in a):
            if how == "find" and len(a) > 3 and (a[3] is None or isinstance(a[3], float)):
                I.raise_now(st, "TypeError", n)
            return NotImplemented
        try:
            if how == "escape":
                return re.escape(a[0])
            if how == "find":
                m = getattr(re.compile(a[1], a[2]), a[0])(a[3], a[4])
                return None if m is None else spans(m)
            if how == "all":
                return I.mklist(st, [spans(m) for m in re.finditer(a[0], a[2], a[1])])
            if how == "sub":
                return re.sub(a[0], a[2], a[3], count=a[4], flags=a[1])
            return I.mklist(st, re.split(a[0], a[2], maxsplit=a[3], flags=a[1]))
        except re.error:
            I.raise_now(st, "error", n)

    return g


def _argv(I, a, kw, st, n):
    v = getattr(I, "argv", None)
    return NotImplemented if v is None else I.mklist(st, list(v))


def _fs(what):
    def g(I, a, kw, st, n):
        fs = getattr(I, "fs", None)
        p = I.resolve(a[0], st)
        if fs is None or not isinstance(p, str):
            return NotImplemented
        if p in fs:
            return True
        return what == "exists" and any(f.startswith(p + "/") for f in fs)

    return g


X.update({"vprim.argv": _argv, "vprim.re_find": _re("find"), "vprim.re_all": _re("all"), "vprim.re_sub": _re("sub"), "vprim.re_split": _re("split"), "vprim.re_escape": _re("escape"), "vprim.fs_exists": _fs("exists"), "vprim.fs_is_file": _fs("file")})


# ------------------------------------------------------------------ methods


def call_method(I, o, name, a, kw, st, node):
    c = I.cell(st, o)
    if isinstance(o, str):
        return str_method(I, o, name, a, kw, st, node)
    if isinstance(o, T) and o.op in ("sconcat", "srepeat"):
        I.opaque_ops += 1
        return T("strmeth", o, name, *_frz(I, a, st))
    if isinstance(o, Tup):
        if name == "index":
            return seq_index(I, list(o.items), a, st, node)
        if name == "count":
            return sum(1 for x in o.items if same(x, a[0]))
    if isinstance(o, (int, float, Fraction)) and not isinstance(o, bool):
        if name == "item":
            return o
        if name == "is_integer":
            return float(o).is_integer()
        if hasattr(str, name) and not name.startswith("__") and name not in ("encode",):
            I.raise_now(st, "AttributeError", node)
    if o is None and not name.startswith("__"):
        I.event("none_deref", node, st, what=name)
        I.raise_now(st, "AttributeError", node)
    pyt = str if isinstance(o, str) else tuple if isinstance(o, Tup) else None
    if c is not None and c.kind in ("dict", "set") or c is not None and c.kind == "list" and c.pytype == "list":
        pyt = {"list": list, "dict": dict, "set": set}[c.kind]
    if pyt is not None and not hasattr(pyt, name) and not (c is not None and c.kind == "dict" and name in ("most_common", "elements", "move_to_end", "default_factory", "subtract", "total")):
        I.raise_now(st, "AttributeError", node)
    if name == "__iter__" and not a and (c is None or c.kind != "obj"):
        return b_iter(I, [o], {}, st, node)
    if name == "__len__" and not a and (c is None or c.kind != "obj"):
        return length(I, o, st, node)
    if c is not None:
        f = {"list": list_method, "dict": dict_method, "set": set_method, "arr": arr_method, "mat": nd.method, "df": pdm.method, "ser": pdm.method, "pidx": pdm.method}.get(c.kind)
        if f is not None:
            r = f(I, o, c, name, a, kw, st, node)
            if r is not NotImplemented:
                return r
    return call_opaque_method(I, o, name, a, kw, st, node)


# methods of lists, dictionaries, sets, arrays and tables that change the receiver
MUTATING = MUTATORS | {
    "partition", "itemset", "setflags", "setfield", "byteswap", "__setitem__", "__delitem__", "__setattr__", "isetitem", "set_axis", "difference_update",
    "intersection_update", "symmetric_difference_update", "move_to_end", "subtract", "rotate", "extendleft", "put", "popitem", "swaplevel_", "__delattr__",
}


def is_pure(I, f, st):
    """no store, deletion or call of a mutating method in the function"""
    if not isinstance(f, (FuncV, BoundV)):
        return not isinstance(f, BMeth)
    fn = f.fn if isinstance(f, BoundV) else f
    for n in ast.walk(fn.node):
        if isinstance(n, (ast.Global, ast.Nonlocal, ast.Delete, ast.AugAssign, ast.Yield)):
            return False
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
            return False
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING:
            return False
    return True


def call_opaque_method(I, o, name, a, kw, st, node):
    """method call on a value without a model"""
    hk = I.hooks.get("method." + name)
    if hk is not None:
        r = hk(I, [o, *a], kw, st, node)
        if r is not NotImplemented:
            return r
    if isinstance(o, T) and o.op == "pd_str":
        r = pdm.str_accessor(I, o.args[0], name, a, kw, st, node)
        if r is not NotImplemented:
            return r
    if name == "__iter__" and not a and isinstance(o, T):
        return b_iter(I, [o], {}, st, node)
    c = I.cell(st, o)
    if name in ("__setitem__", "__getitem__", "__delitem__", "__contains__") and (c is None or c.kind != "obj"):
        if name == "__setitem__" and len(a) == 2:
            I.setitem(o, a[0], a[1], st, node)
            return None
        if name == "__getitem__" and len(a) == 1:
            return I.getitem(o, a[0], st, node)
    I.opaque_name = "." + name
    I.opaque_ops += 1
    ip = kw.get("inplace")
    I.event("mcall", node, st, target=o, name=name, args=list(a), kw=dict(kw))
    if name in MUTATORS or name.endswith("_") and not name.startswith("_") or ip is True:
        I.effect(node, st, "method:" + name, o, None, a[0] if a else None)
    if c is not None and c.kind in PY_MUTABLE:
        if ip is not None and ip is not False or name in MUTATING or name.startswith("__i") and name not in ("__iter__", "__init__", "__int__", "__index__"):
            havoc(I, o, st, node, name)
        elif c.kind in ("df", "ser", "arr", "mat") and any(calls_back(I, x, st) for x in [*a, *kw.values()]) and not all(is_pure(I, x, st) for x in [*a, *kw.values()]):
            lose(I, st, node, name)
        if kw.get("out") is not None:
            havoc(I, kw["out"], st, node, name)
    if o is None:
        I.event("none_deref", node, st, what=name)
    return T("mcall", I.freeze(o, st), name, *_frz(I, a, st), *_kwf(I, kw, st))


def str_method(I, o, name, a, kw, st, node):
    a = [I.resolve(x, st) for x in a]
    if name == "join":
        items = I.concrete_items(a[0], st)
        if items is not None:
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(o)
                parts.append(x)
            return I.concat_str(parts)
    elif name == "translate" and len(a) == 1 and I.cell(st, a[0]) is not None and I.cell(st, a[0]).kind == "dict" and not I.cell(st, a[0]).open and all(is_const(k) and is_const(v) for k, v in I.cell(st, a[0]).items):
        return o.translate(dict(I.cell(st, a[0]).items))
    elif name == "format" and isinstance(o, str) and "**" not in kw and not any(isinstance(x, Star) for x in a):
        import string

        parts, k = [], 0
        for lit, field, spec, conv in string.Formatter().parse(o):
            parts.append(lit)
            if field is None:
                continue
            if spec or conv or not (field == "" or field.isidentifier() or field.isdigit()):
                break
            if field == "":
                field, k = str(k), k + 1
            if field.isdigit() and int(field) < len(a) or field in kw:
                parts.append(I.to_str(a[int(field)] if field.isdigit() else kw[field], st))
            else:
                break
        else:
            return I.concat_str(parts)
    elif all(is_const(x) for x in a) and not kw:
        fn = getattr(o, name, None)
        if fn is not None and name not in ("format",):
            try:
                r = fn(*a)
            except ValueError:
                I.raise_now(st, "ValueError", node)
            except TypeError:
                return T("strmeth", o, name)
            if isinstance(r, list):
                return I.mklist(st, r)
            if isinstance(r, tuple):
                return Tup(r)
            return r
    I.opaque_ops += 1
    return T("strmeth", o, name, *_frz(I, a, st))


def seq_index(I, items, a, st, node):
    x = a[0]
    for i, y in enumerate(items):
        if isinstance(y, Star):
            break
        e = I.equal(x, y, st, node)
        e = I.decide(e, st) if not isinstance(e, bool) else e
        if e is True:
            return i
        if e is None:
            break
    else:
        I.raise_now(st, "ValueError", node)
    res = None
    if not any(isinstance(y, Star) for y in items) and len(items) <= 60:
        res = T("bottom")
        for i, y in reversed(list(enumerate(items))):
            res = E.ite(I.equal(x, y, st, node), i, res)
        return res
    return T("indexof", I.freeze(x, st), T("list", *_frz(I, items, st)))


def list_method(I, o, c, name, a, kw, st, node):
    if name == "append":
        I.effect(node, st, "append", o, None, a[0])
        I.put(st, o, E.LCell(c.items + (a[0],), c.unordered, c.origin, c.pytype))
        return None
    if name == "extend":
        I.list_extend(o, a[0], st, node)
        return None
    if name == "copy":
        return I.mklist(st, c.items, unordered=c.unordered)
    if name == "insert":
        I.effect(node, st, "insert", o, a[0], a[1])
        if c.known() and isinstance(a[0], int):
            it = list(c.items)
            it.insert(a[0], a[1])
            I.put(st, o, E.LCell(it, c.unordered, c.origin, c.pytype))
            return None
    if name == "index":
        return seq_index(I, list(c.items), a, st, node)
    if name == "count" and c.known() and all(is_const(x) or isinstance(x, EnumV) for x in c.items):
        return sum(1 for x in c.items if same(x, a[0]))
    if name == "pop":
        I.effect(node, st, "pop", o, a[0] if a else -1)
        k = a[0] if a else -1
        if c.known() and isinstance(k, int):
            if not -len(c.items) <= k < len(c.items):
                I.raise_now(st, "IndexError", node)
            it = list(c.items)
            v = it.pop(k)
            I.put(st, o, E.LCell(it, c.unordered, c.origin, c.pytype))
            return v
    if name in ("sort", "reverse"):
        I.effect(node, st, name, o, None)
        if name == "reverse" and c.known():
            I.put(st, o, E.LCell(tuple(reversed(c.items)), c.unordered, c.origin, c.pytype))
            return None
        if name == "sort" and c.known():
            r = sort_items(I, list(c.items), st, node, kw.get("key"), kw.get("reverse", False) is True)
            if r is not None:
                I.put(st, o, E.LCell(r, False, c.origin, c.pytype))
                return None
    if name == "clear":
        I.effect(node, st, "clear", o, None)
        I.put(st, o, E.LCell((), False, c.origin, c.pytype))
        return None
    if name in MUTATORS:
        I.effect(node, st, name, o, None, a[0] if a else None)
        I.opaque_ops += 1
        I.put(st, o, E.LCell([Star(T("idx", "h"), T("havoc", name), T("unk", name), True)], c.unordered, c.origin, c.pytype))
        return T("unk", f"list.{name}")
    return NotImplemented


def dict_method(I, o, c, name, a, kw, st, node):
    if name == "items":
        return T("dictitems", o)
    if name == "keys":
        return T("dictkeys", o)
    if name == "values":
        return T("dictvalues", o)
    if name == "get":
        k = I.resolve(a[0], st)
        d = a[1] if len(a) > 1 else kw.get("default")
        if c.has(k):
            return c.get(k)
        if not c.open and (is_const(k) or isinstance(k, (EnumV, Tup))):
            return d
        if not c.open and all(is_const(x) or isinstance(x, EnumV) for x, _ in c.items) and len(c.items) <= 40:
            res = d
            for x, v in reversed(c.items):
                res = E.ite(I.equal(k, x, st, node), v, res)
            return res
        I.opaque_ops += 1
        return T("dictget", I.freeze(o, st), I.freeze(k, st), I.freeze(d, st))
    if name == "copy":
        return I.new(st, E.DCell(c.items, c.default, None, c.open))
    if name == "update":
        I.effect(node, st, "update", o, None, a[0] if a else None)
        items, op = list(c.items), c.open
        src = []
        if a:
            d = I.cell(st, a[0])
            if d is not None and d.kind == "dict":
                src = list(d.items)
                op = op or d.open
            else:
                op = True
        src += [(k, v) for k, v in kw.items() if k != "**"]
        for k, v in src:
            if any(same(x, k) for x, _ in items):
                items = [(x, v if same(x, k) else y) for x, y in items]
            else:
                items.append((k, v))
        I.put(st, o, E.DCell(items, c.default, c.origin, op))
        return None
    if name == "pop":
        I.effect(node, st, "pop", o, a[0])
        if c.has(a[0]):
            v = c.get(a[0])
            I.put(st, o, E.DCell([(x, y) for x, y in c.items if not same(x, a[0])], c.default, c.origin, c.open))
            return v
        return a[1] if len(a) > 1 and not c.open else T("dictget", I.freeze(o, st), I.freeze(a[0], st))
    if name == "setdefault":
        I.effect(node, st, "setdefault", o, a[0], a[1] if len(a) > 1 else None)
        if c.has(a[0]):
            return c.get(a[0])
        if not c.open:
            v = a[1] if len(a) > 1 else None
            I.put(st, o, E.DCell(c.items + ((a[0], v),), c.default, c.origin, c.open))
            return v
    if name == "clear":
        I.effect(node, st, "clear", o, None)
        I.put(st, o, E.DCell((), c.default, c.origin))
        return None
    return NotImplemented


def set_method(I, o, c, name, a, kw, st, node):
    if name == "add":
        I.effect(node, st, "add", o, None, a[0])
        I.put(st, o, E.SCell(c.items + (a[0],), c.origin))
        return None
    if name in ("union", "intersection", "difference", "issubset", "issuperset"):
        it = I.concrete_items(a[0], st)
        if it is not None:
            if name == "union":
                return I.new(st, E.SCell(list(c.items) + it))
            if name == "intersection":
                return I.new(st, E.SCell([x for x in c.items if x in it]))
            if name == "difference":
                return I.new(st, E.SCell([x for x in c.items if x not in it]))
            if name == "issubset":
                return all(x in it for x in c.items)
            return all(x in c.items for x in it)
    if name == "update":
        I.effect(node, st, "update", o, None, a[0])
        it = I.concrete_items(a[0], st)
        if it is not None:
            I.put(st, o, E.SCell(list(c.items) + it, c.origin))
            return None
    if name == "copy":
        return I.new(st, E.SCell(c.items))
    if name in MUTATORS:
        I.effect(node, st, name, o, None, a[0] if a else None)
        x = I.resolve(a[0], st) if a else None
        if name == "clear":
            I.put(st, o, E.SCell([], c.origin))
            return None
        if name in ("remove", "discard") and (is_const(x) or isinstance(x, EnumV)) and all(is_const(y) or isinstance(y, EnumV) for y in c.items):
            if name == "remove" and not any(same(y, x) for y in c.items):
                I.raise_now(st, "KeyError", node)
            I.put(st, o, E.SCell([y for y in c.items if not same(y, x)], c.origin))
            return None
        if name == "pop" and len(c.items) == 1:
            I.put(st, o, E.SCell([], c.origin))
            return c.items[0]
        lose(I, st, node, "set." + name)
        return T("unk", "set." + name)
    return NotImplemented


def arr_method(I, o, c, name, a, kw, st, node):
    if name in ("copy", "astype", "flatten", "ravel"):
        if kw.get("copy") is False:
            return o
        if name == "ravel":
            return o
        r = mkarr(I, st, c.cells, c.writes, unordered=c.unordered)
        return cast(I, r, kw.get("dtype", a[0] if a else None), st) if name == "astype" else r
    if name == "sum" and not a and not kw:
        return np_sum(I, [o], {}, st, node)
    if name in ("numpy", "detach", "cpu") and not a:
        return o
    if name in ("float", "long", "int", "clone", "double") and not a:
        return mkarr(I, st, c.cells, c.writes, unordered=c.unordered)
    if name == "squeeze" and (a or kw):
        r = nd.np_call(I, "numpy.squeeze", [o] + list(a), kw, st, node)
        if r is not NotImplemented:
            return r
    if name == "tolist":
        if not c.writes:
            return I.mklist(st, c.cells)
    if name in ("max", "min") and not a and not kw and not c.writes and c.cells:
        r = minmax(I, name, list(c.cells), st)
        if r is not None:
            return r
    if name == "item" and len(c.cells) == 1:
        return c.cells[0]
    if name == "reshape" and len(a) == 1 and a[0] == -1:
        return o
    if name == "argmax" and not c.writes and all(is_num(x) for x in c.cells) and c.cells:
        return max(range(len(c.cells)), key=lambda i: c.cells[i])
    if name == "put" and len(a) == 2:
        r = np_put(I, [o, *a], kw, st, node)
        if r is not NotImplemented:
            return r
    if name == "fill":
        I.effect(node, st, "fill", o, None)
        arr_put(I, o, [a[0]] * len(c.cells), (), st, node)
        return None
    if name in ("any", "all", "max", "min", "argmax", "argmin", "nonzero", "cumsum", "argsort", "mean", "prod", "ptp", "std", "reshape", "clip", "repeat", "searchsorted", "take", "transpose", "squeeze"):
        f = X.get("numpy." + name)
        r = f(I, [o, *a], kw, st, node) if f is not None else NotImplemented
        return nd.np_call(I, "numpy." + name, [o, *a], kw, st, node) if r is NotImplemented else r
    return NotImplemented
