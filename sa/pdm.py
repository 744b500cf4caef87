"""Abstract data frames: tables whose shape, column names and row labels are known and whose
elements are abstract values (constants, affine forms, guarded values).

Cells: `df` (frame), `ser` (series: a column or a row), `pidx` (index).  Frames are values
with copy-on-write semantics; `loc`/`iloc`/`at` are indexer terms over the frame reference.
Operations whose result shape would depend on an undetermined condition stay opaque.
"""
import ast
from fractions import Fraction

from . import engine as E
from .values import BMeth, EnumV, ExtV, Lin, Ref, SliceV, Star, T, Tup, V, is_const, is_num, same

NA = ExtV("pandas.NA")
NULLS = {"pandas.NA", "numpy.nan", "numpy.NaN", "pandas.NaT", "numpy.NAN"}


class FCell(E.Cell):
    kind = "df"

    def __init__(self, cols, data, index, names, origin=None):
        self.cols, self.data = tuple(cols), tuple(tuple(c) for c in data)
        self.index, self.names, self.origin = tuple(index), tuple(names), origin

    def col(self, name):
        for i, c in enumerate(self.cols):
            if same(c, name):
                return i
        return None

    def key(self):
        return (self.cols, self.data, self.index, self.names)


class SerCell(E.Cell):
    kind = "ser"

    def __init__(self, index, vals, names=(None,), name=None, origin=None):
        self.index, self.vals, self.names, self.name, self.origin = tuple(index), tuple(vals), tuple(names), name, origin

    def key(self):
        return (self.index, self.vals, self.names, self.name)


class IxCell(E.Cell):
    kind = "pidx"

    def __init__(self, vals, names=(None,), origin=None):
        self.vals, self.names, self.origin = tuple(vals), tuple(names), origin

    def key(self):
        return (self.vals, self.names)


KINDS = ("df", "ser", "pidx")


def is_pd(c):
    return c is not None and c.kind in KINDS


def frame(I, st, rows=None, cols=None, data=None, index=None, names=(None,)):
    """build a frame from {col: [values]}"""
    if data is not None:
        cols = list(data)
        cd = [list(data[c]) for c in cols]
        n = len(cd[0]) if cd else 0
    else:
        cd = [[r[j] for r in rows] for j in range(len(cols))]
        n = len(rows)
    return I.new(st, FCell(cols, cd, index if index is not None else range(n), names))


def series(I, st, index, vals, names=(None,), name=None):
    return I.new(st, SerCell(index, vals, names, name))


def is_null(v):
    """True / False / None (unknown)"""
    if v is None or isinstance(v, float) and v != v:
        return True
    if isinstance(v, ExtV):
        return v.name in NULLS
    if is_const(v) or isinstance(v, (EnumV, Lin, Tup)):
        return False
    if isinstance(v, T) and v.op == "sym" and len(v.args) > 1 and v.args[1] in ("int", "nn", "str", "frac"):
        return False
    return None


def null_cond(I, v, st):
    r = is_null(v)
    if r is not None:
        return r
    if E.is_ite(v):
        return I.bite(v.args[0], null_cond(I, v.args[1], st), null_cond(I, v.args[2], st))
    if I.cell(st, v) is not None:
        return False
    return T("cond", "isnull", I.freeze(v, st))


def rows(c):
    return list(zip(*c.data)) if c.data else [() for _ in c.index]


def row_series(I, st, c, i):
    return series(I, st, c.cols, [d[i] for d in c.data], (None,), c.index[i])


def take(c, ix):
    if c.kind == "df":
        return FCell(c.cols, [[d[i] for i in ix] for d in c.data], [c.index[i] for i in ix], c.names, None)
    if c.kind == "pidx":
        return IxCell([c.vals[i] for i in ix], c.names)
    return SerCell([c.index[i] for i in ix], [c.vals[i] for i in ix], c.names, c.name)


def vals_of(I, v, st):
    """list of element values of an array-like/series/index, or None"""
    v = I.resolve(v, st)
    c = I.cell(st, v)
    if c is not None and c.kind in ("ser", "pidx"):
        return list(c.vals)
    if c is not None and c.kind == "arr":
        return I.ext.nd.arr_values(I, c, st)
    it = I.concrete_items(v, st)
    if it is None or any(isinstance(x, Star) for x in it):
        return None
    return it


def boolmask(I, v, st, n):
    """list of (True|False|cond) if v is a boolean mask of length n"""
    vs = vals_of(I, v, st) if not isinstance(v, (str, SliceV)) else None
    if vs is None or len(vs) != n:
        return None
    out = []
    for x in vs:
        if isinstance(x, bool):
            out.append(x)
        elif isinstance(x, ExtV) and x.name in NULLS:
            out.append(False)
        elif I.is_cond(x):
            d = I.decide(x, st)
            out.append(x if d is None else d)
        elif E.is_ite(x) and all(isinstance(l, bool) for _, l in E.leaves(x)):
            out.append(I.truth(x, st))
        else:
            return None
    return out


def positions(I, c, k, st, node, allow_cond=False):
    """row positions selected by a loc-style key: (list of positions, scalar?) | ('mask', conds) | None"""
    n = len(c.index)
    if isinstance(k, SliceV):
        if k.lo is None and k.hi is None and k.step is None:
            return list(range(n)), False
        # label slice, ends included
        try:
            lo = 0 if k.lo is None else next(i for i, x in enumerate(c.index) if same(x, k.lo))
            hi = n - 1 if k.hi is None else max(i for i, x in enumerate(c.index) if same(x, k.hi))
            return list(range(lo, hi + 1)), False
        except (StopIteration, ValueError):
            return None
    cell = I.cell(st, k)
    if cell is not None and cell.kind == "ser" and cell.vals and all(isinstance(x, bool) for x in cell.vals) and cell.index != c.index:
        # a mask aligned on labels
        mp = {_h(a): b for a, b in zip(cell.index, cell.vals)}
        if len(mp) != len(cell.index) or any(_h(a) not in mp for a in c.index):
            return None
        return [i for i, a in enumerate(c.index) if mp[_h(a)]], False
    if cell is not None and (n or True):
        m = boolmask(I, k, st, n) if n or (cell.kind in ("ser", "arr")) else None
        if m is not None and (n or cell.kind == "ser"):
            if all(isinstance(x, bool) for x in m):
                if cell.kind == "ser" and cell.index != c.index:
                    # aligned on labels
                    mp = {_h(a): b for a, b in zip(cell.index, m)}
                    try:
                        m = [mp[_h(a)] for a in c.index]
                    except KeyError:
                        return None
                return [i for i, x in enumerate(m) if x], False
            return ("mask", m) if allow_cond else None
        ks = vals_of(I, k, st)
        if ks is None:
            return None
        out = []
        for x in ks:
            p = [i for i, y in enumerate(c.index) if lab_eq(x, y)]
            if not p and not isinstance(x, Tup):  # first level of a multi-index
                p = [i for i, y in enumerate(c.index) if isinstance(y, Tup) and lab_eq(x, y.items[0])]
            if not p:
                if not (is_const(x) or isinstance(x, Tup)):
                    return None
                I.raise_now(st, "KeyError", node)
            out += p
        return out, False
    if is_const(k) or isinstance(k, (Tup, EnumV)):
        p = [i for i, y in enumerate(c.index) if lab_eq(k, y)]
        if not p:
            if isinstance(k, Tup) and not any(isinstance(y, Tup) for y in c.index):
                return None
            # first level of a multi-index
            p = [i for i, y in enumerate(c.index) if isinstance(y, Tup) and lab_eq(k, y.items[0])]
            if p:
                return p, "level"
            I.raise_now(st, "KeyError", node)
        return p, len(p) == 1
    return None


def lab_eq(a, b):
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(lab_eq(x, y) for x, y in zip(a.items, b.items))
    if is_const(a) and is_const(b):
        return a == b
    return same(a, b)


def _h(a):
    if isinstance(a, Tup):
        return tuple(_h(x) for x in a.items)
    return a


def opq(I, what, st, *parts):
    I.opaque_ops += 1
    return T("pd:" + what, *[I.freeze(p, st) for p in parts])


# ---------------------------------------------------------------- item access


def getitem(I, o, c, k, st, node):
    if c.kind == "df":
        if isinstance(k, (str, int)) and not isinstance(k, bool) or isinstance(k, ExtV):
            j = c.col(k)
            if j is None:
                I.event("nocolumn", node, st, target=o, name=k)
                I.raise_now(st, "KeyError", node)
            r = series(I, st, c.index, c.data[j], c.names, k)
            I.cell(st, r).src = (o, k)
            return r
        cell = I.cell(st, k)
        if cell is not None:
            if cell.kind == "list":
                ks = list(cell.items)
                if ks and all(isinstance(x, str) for x in ks):
                    return I.new(st, pickcols(I, c, ks, st, node))
            m = boolmask(I, k, st, len(c.index))
            if m is not None and all(isinstance(x, bool) for x in m):
                return I.new(st, take(c, [i for i, x in enumerate(m) if x]))
        if isinstance(k, SliceV):
            r = I.ext.slice_range(k, len(c.index))
            if r is not None:
                return I.new(st, take(c, list(r)))
        return opq(I, "getitem", st, o, k)
    if c.kind == "pidx":
        if isinstance(k, int) and not isinstance(k, bool):
            if not -len(c.vals) <= k < len(c.vals):
                I.raise_now(st, "IndexError", node)
            return c.vals[k]
        p = iloc_pos(I, k, len(c.vals), st, node)
        if p is None:
            return opq(I, "getitem", st, o, k)
        return I.new(st, take(c, p))
    # series
    if isinstance(k, SliceV):
        r = I.ext.slice_range(k, len(c.vals))
        return I.new(st, take(c, list(r))) if r is not None else opq(I, "getitem", st, o, k)
    if is_const(k) or isinstance(k, (Tup, EnumV)):
        for a, b in zip(c.index, c.vals):
            if lab_eq(a, k):
                return b
        if isinstance(k, int) and not isinstance(k, bool) and c.index and all(isinstance(a, str) for a in c.index):
            if -len(c.vals) <= k < len(c.vals):
                return c.vals[k]
            I.raise_now(st, "IndexError", node)
        I.event("nocolumn", node, st, target=o, name=k)
        I.raise_now(st, "KeyError", node)
    p = positions(I, c, k, st, node)
    if p is None:
        return opq(I, "getitem", st, o, k)
    return I.new(st, take(c, p[0]))


def pickcols(I, c, ks, st, node):
    js = []
    for x in ks:
        j = c.col(x)
        if j is None:
            I.event("nocolumn", node, st, name=x)
            I.raise_now(st, "KeyError", node)
        js.append(j)
    return FCell(ks, [c.data[j] for j in js], c.index, c.names)


def iloc_pos(I, k, n, st, node):
    if isinstance(k, SliceV):
        r = I.ext.slice_range(k, n)
        return None if r is None else list(r)
    vs = vals_of(I, k, st)
    if vs is None:
        return None
    if vs and all(isinstance(x, bool) for x in vs):
        if len(vs) != n:
            I.raise_now(st, "IndexError", node)
        return [i for i, x in enumerate(vs) if x]
    if all(type(x) is int for x in vs):
        if any(not -n <= x < n for x in vs):
            I.raise_now(st, "IndexError", node)
        return [x % n for x in vs]
    return None


def colsel(I, c, k, st, node):
    """(list of columns, scalar?) or None"""
    if isinstance(k, str):
        return [k], True
    if isinstance(k, SliceV) and k.lo is None and k.hi is None:
        return list(c.cols), False
    vs = vals_of(I, k, st)
    if vs is not None and all(isinstance(x, str) for x in vs):
        return vs, False
    return None


def idx_get(I, ix, k, st, node):
    """loc / iloc / at / iat [k]"""
    mode, o = ix.op[3:], ix.args[0]
    c = I.cell(st, o)
    if c.kind == "ser":
        if mode in ("iloc", "iat"):
            if type(k) is int:
                if not -len(c.vals) <= k < len(c.vals):
                    I.raise_now(st, "IndexError", node)
                return c.vals[k]
            p = iloc_pos(I, k, len(c.vals), st, node)
            return I.new(st, take(c, p)) if p is not None else opq(I, mode, st, o, k)
        p = positions(I, c, k, st, node)
        if p is None or p[0] == "mask":
            return opq(I, mode, st, o, k)
        return c.vals[p[0][0]] if p[1] is True else I.new(st, take(c, p[0]))
    rk, ck = k, None
    if isinstance(k, Tup) and len(k.items) == 2 and not (mode == "loc" and any(isinstance(x, Tup) for x in c.index) and not is_colkey(I, c, k.items[1], st)):
        rk, ck = k.items
    if mode in ("iloc", "iat"):
        n = len(c.index)
        if ck is not None:
            if isinstance(ck, int):
                names, cs = [c.cols[ck]], True
            elif isinstance(ck, SliceV) and I.ext.slice_range(ck, len(c.cols)) is not None:
                names, cs = [c.cols[j] for j in I.ext.slice_range(ck, len(c.cols))], False
            else:
                return opq(I, mode, st, o, k)
        else:
            names, cs = None, False
        if type(rk) is int:
            if not -n <= rk < n:
                I.raise_now(st, "IndexError", node)
            pos, sc = [rk % n], True
        else:
            pos, sc = iloc_pos(I, rk, n, st, node), False
            if pos is None:
                return opq(I, mode, st, o, k)
    else:
        r = positions(I, c, rk, st, node)
        if r is None or r[0] == "mask":
            return opq(I, mode, st, o, k)
        pos, sc = r
        names, cs = None, False
        if ck is not None:
            cc = colsel(I, c, ck, st, node)
            if cc is None:
                return opq(I, mode, st, o, k)
            names, cs = cc
    sub = take(c, pos)
    if sc == "level":
        sub = FCell(sub.cols, sub.data, [Tup(x.items[1:]) if len(x.items) > 2 else x.items[1] for x in sub.index], sub.names[1:])
        sc = False
    if names is not None:
        sub = pickcols(I, sub, names, st, node)
    if sc and cs:
        return sub.data[0][0]
    if sc:
        return row_series(I, st, sub, 0)
    if cs:
        return series(I, st, sub.index, sub.data[0], sub.names, names[0])
    return I.new(st, sub)


def is_colkey(I, c, k, st):
    if isinstance(k, str):
        return c.col(k) is not None
    if isinstance(k, SliceV):
        return True
    vs = vals_of(I, k, st)
    return vs is not None and len(vs) > 0 and all(isinstance(x, str) and c.col(x) is not None for x in vs)


def setcol(I, c, name, vals):
    j = c.col(name)
    cols, data = list(c.cols), [list(d) for d in c.data]
    if j is None:
        cols.append(name)
        data.append(list(vals))
    else:
        data[j] = list(vals)
    return FCell(cols, data, c.index, c.names, c.origin)


def rhs_column(I, v, index, st, node, names=None):
    """values to store in a column with the given row labels, or None"""
    vc = I.cell(st, v)
    if vc is not None and vc.kind == "ser":
        if vc.index == tuple(index):
            return list(vc.vals)
        mp = {}
        for a, b in zip(vc.index, vc.vals):
            if _h(a) in mp:
                if len(vc.index) == len(index):
                    return list(vc.vals)
                return None
            mp[_h(a)] = b
        return [mp.get(_h(a), float("nan")) for a in index]
    if vc is None and not isinstance(v, Tup) or isinstance(v, str) or vc is not None and vc.kind in ("dict", "obj", "set"):
        if isinstance(v, T) and (v.op.startswith(("pd:", "ext:")) or v.op in ("mcall", "item")):
            return None
        return [v] * len(index)
    vs = vals_of(I, v, st)
    if vs is None:
        return None
    if len(vs) != len(index):
        I.event("shape", node, st, expected=len(index), got=len(vs))
        I.raise_now(st, "ValueError", node)
    return vs


def setitem(I, o, c, k, v, st, node):
    if c.kind == "df" and isinstance(k, str):
        vs = rhs_column(I, v, c.index, st, node)
        if vs is None:
            vs = [T("unkcell")] * len(c.index)
        I.put(st, o, setcol(I, c, k, vs))
        return
    if c.kind == "ser":
        r = positions(I, c, k, st, node, allow_cond=True) if not (is_const(k) and not isinstance(k, bool) and not any(lab_eq(k, x) for x in c.index)) else None
        if r is None:
            if is_const(k):
                I.put(st, o, SerCell(c.index + (k,), c.vals + (v,), c.names, c.name, c.origin))
                return
            I.put(st, o, SerCell(c.index, [T("unkcell")] * len(c.vals), c.names, c.name, c.origin))
            return
        I.put(st, o, SerCell(c.index, put_vals(I, c.vals, c.index, r, v, st, node), c.names, c.name, c.origin))
        return
    if c.kind == "df":
        m = None
        cell = I.cell(st, k)
        if cell is not None and cell.kind == "list" and all(isinstance(x, str) for x in cell.items):
            nc = c
            cols = list(cell.items)
            grid = grid_of(I, v, len(c.index), len(cols), st, node)
            for j, name in enumerate(cols):
                nc = setcol(I, nc, name, [grid[i][j] if grid else T("unkcell") for i in range(len(c.index))])
            I.put(st, o, nc)
            return
        I.put(st, o, FCell(c.cols, [[T("unkcell")] * len(c.index) for _ in c.cols], c.index, c.names, c.origin))


def put_vals(I, old, index, r, v, st, node):
    new = list(old)
    if r[0] == "mask":
        vc = I.cell(st, v)
        if vc is not None and vc.kind == "ser" and vc.index == tuple(index):
            src = list(vc.vals)
        elif vc is None and not isinstance(v, Tup):
            src = [v] * len(new)
        else:
            return [x if m is False else T("unkcell") for x, m in zip(new, r[1])]
        return [s if m is True else x if m is False else E.ite(m, s, x) for x, m, s in zip(new, r[1], src)]
    pos = r[0]
    vs = rhs_column(I, v, [index[i] for i in pos], st, node)
    for j, i in enumerate(pos):
        new[i] = T("unkcell") if vs is None else vs[j]
    return new


def grid_of(I, v, nr, nc, st, node):
    """rows x columns of a value assigned to a block"""
    vc = I.cell(st, v)
    if vc is None and not isinstance(v, Tup):
        if isinstance(v, T) and (v.op.startswith(("pd:", "ext:")) or v.op in ("mcall", "item")):
            return None
        return [[v] * nc for _ in range(nr)]
    if vc is not None and vc.kind == "df":
        return [list(r) for r in rows(vc)] if len(vc.cols) == nc and len(vc.index) == nr else None
    lv = I.ext.nd.look(I, v, st)
    if lv is not None:
        sh, flat = lv
        if len(sh) == 2 and sh == (nr, nc):
            return [flat[i * nc : (i + 1) * nc] for i in range(nr)]
        if len(sh) == 2 and nr == 0:
            return []
        if len(sh) == 1 and sh[0] == nc:
            return [list(flat) for _ in range(nr)]
        if len(sh) == 1 and sh[0] == 0 and nr == 0:
            return []
        I.event("shape", node, st, expected=(nr, nc), got=sh)
        I.raise_now(st, "ValueError", node)
    it = I.concrete_items(v, st)
    if it is not None and len(it) == nr:
        out = [I.concrete_items(x, st) for x in it]
        if all(x is not None and len(x) == nc for x in out):
            return out
    return None


def idx_set(I, ix, k, v, st, node):
    mode, o = ix.op[3:], ix.args[0]
    c = I.cell(st, o)
    I.effect(node, st, "setitem", o, k, v)
    if c.kind == "ser":
        if mode in ("iloc", "iat"):
            p = ([k % len(c.vals)] if type(k) is int else iloc_pos(I, k, len(c.vals), st, node))
            r = None if p is None else (p, False)
        else:
            r = positions(I, c, k, st, node, allow_cond=True)
        vals = [T("unkcell")] * len(c.vals) if r is None else put_vals(I, c.vals, c.index, r, v, st, node)
        I.put(st, o, SerCell(c.index, vals, c.names, c.name, c.origin))
        return
    rk, ck = k, SliceV(None, None, None)
    if isinstance(k, Tup) and len(k.items) == 2:
        rk, ck = k.items
    if mode in ("iloc", "iat"):
        p = [rk % len(c.index)] if type(rk) is int and c.index else iloc_pos(I, rk, len(c.index), st, node)
        r = None if p is None else (p, False)
        cc = None
        if type(ck) is int:
            cc = [c.cols[ck]], True
        elif isinstance(ck, SliceV):
            rr = I.ext.slice_range(ck, len(c.cols))
            cc = None if rr is None else ([c.cols[j] for j in rr], False)
    else:
        r = positions(I, c, rk, st, node, allow_cond=True)
        cc = colsel(I, c, ck, st, node)
    if cc is None:
        I.put(st, o, FCell(c.cols, [[T("unkcell")] * len(c.index) for _ in c.cols], c.index, c.names, c.origin))
        return
    names, scal = cc
    nc = c
    full = r is not None and r[0] != "mask" and r[0] == list(range(len(c.index)))
    for name in names:
        if nc.col(name) is None:
            if not scal and not full:
                I.raise_now(st, "KeyError", node)
            nc = setcol(I, nc, name, [float("nan")] * len(c.index))
    if r is None:
        for name in names:
            nc = setcol(I, nc, name, [T("unkcell")] * len(c.index))
    elif scal:
        old = nc.data[nc.col(names[0])]
        nc = setcol(I, nc, names[0], put_vals(I, old, c.index, r, v, st, node))
    elif r[0] == "mask":
        vc = I.cell(st, v)
        for name in names:
            old = nc.data[nc.col(name)]
            if vc is None and not isinstance(v, Tup):
                nc = setcol(I, nc, name, put_vals(I, old, c.index, r, v, st, node))
            else:
                nc = setcol(I, nc, name, [x if m is False else T("unkcell") for x, m in zip(old, r[1])])
    else:
        pos = r[0]
        g = grid_of(I, v, len(pos), len(names), st, node)
        for j, name in enumerate(names):
            col = list(nc.data[nc.col(name)])
            for a, i in enumerate(pos):
                col[i] = T("unkcell") if g is None else g[a][j]
            nc = setcol(I, nc, name, col)
    I.put(st, o, nc)


# ---------------------------------------------------------------- attributes


def getattr_(I, o, c, name, st, node):
    if name in ("loc", "iloc", "at", "iat"):
        return T("pd_" + name, o)
    if name in ("values", "array"):
        return to_numpy(I, o, c, st)
    if c.kind == "df":
        if name == "index":
            return I.new(st, IxCell(c.index, c.names))
        if name == "columns":
            return I.new(st, IxCell(c.cols, (None,)))
        if name == "shape":
            return Tup((len(c.index), len(c.cols)))
        if name == "empty":
            return not c.index or not c.cols
        if name == "size":
            return len(c.index) * len(c.cols)
        if c.col(name) is not None and name not in ("index",):
            return getitem(I, o, c, name, st, node)
    elif c.kind == "ser":
        if name == "index":
            return I.new(st, IxCell(c.index, c.names))
        if name == "shape":
            return Tup((len(c.vals),))
        if name in ("size",):
            return len(c.vals)
        if name == "empty":
            return not c.vals
        if name == "name":
            return c.name
        if name == "dtype":
            return T("dtype", o)
        if name == "str":
            return T("pd_str", o)
        if any(isinstance(x, str) and x == name for x in c.index):
            return getitem(I, o, c, name, st, node)
    else:
        if name == "names":
            return I.mklist(st, c.names)
        if name == "name":
            return c.names[0] if len(c.names) == 1 else None
        if name == "size":
            return len(c.vals)
        if name == "shape":
            return Tup((len(c.vals),))
    return BMeth(o, name)


def to_numpy(I, o, c, st):
    nd = I.ext.nd
    if c.kind == "df":
        return nd.mk(I, st, (len(c.index), len(c.cols)), [x for r in rows(c) for x in r])
    return I.ext.mkarr(I, st, list(c.vals))


# ---------------------------------------------------------------- elementwise


def scalar_op(I, op, x, y, st, node, cmp_):
    nx, ny = is_null(x), is_null(y)
    if cmp_:
        if nx or ny:
            isna = any(isinstance(v, ExtV) and v.name == "pandas.NA" for v in (x, y))
            return NA if isna else op == "NotEq"
        return I.compare(op, x, y, st, node)
    if op in ("BitOr", "BitAnd", "BitXor"):
        if nx or ny:
            o = y if nx else x
            if op == "BitOr" and o is True or op == "BitAnd" and o is False:
                return o
            return NA
        if all(isinstance(v, bool) or I.is_cond(v) for v in (x, y)):
            if op == "BitOr":
                return E.mk_or([x, y])
            if op == "BitAnd":
                return E.mk_and([x, y])
            return I.bite(x, E.neg(y), y)
        return I.binop(op, x, y, st, node)
    if nx or ny:
        return NA if any(isinstance(v, ExtV) and v.name == "pandas.NA" for v in (x, y)) else float("nan")
    return I.binop(op, x, y, st, node)


def elementwise(I, op, a, b, st, node, cmp_=False):
    ca, cb = I.cell(st, a), I.cell(st, b)
    f = lambda x, y: scalar_op(I, op, x, y, st, node, cmp_)  # noqa: E731
    for main, cm, oth, co, left in ((a, ca, b, cb, True), (b, cb, a, ca, False)):
        if not is_pd(cm):
            continue
        if is_pd(co) and co.kind == "ser" and cm.kind == "pidx":
            continue
        if cm.kind == "df":
            if co is None and not isinstance(oth, Tup):
                return I.new(st, FCell(cm.cols, [[f(x, oth) if left else f(oth, x) for x in d] for d in cm.data], cm.index, cm.names))
            if co is not None and co.kind == "df" and co.cols == cm.cols and co.index == cm.index:
                return I.new(st, FCell(cm.cols, [[f(x, y) for x, y in zip(d, e)] for d, e in zip(cm.data, co.data)], cm.index, cm.names))
            return NotImplemented
        vals = list(cm.vals)
        if co is not None and co.kind == "ser" and cm.kind == "ser":
            if co.index == cm.index:
                ov = list(co.vals)
            elif cmp_:
                if len(co.index) != len(cm.index):
                    I.raise_now(st, "ValueError", node)
                return NotImplemented
            else:
                ma = {_h(k): v for k, v in zip(cm.index, cm.vals)}
                mb = {_h(k): v for k, v in zip(co.index, co.vals)}
                if len(ma) != len(cm.index) or len(mb) != len(co.index):
                    return NotImplemented
                keys = list(cm.index) + [k for k in co.index if _h(k) not in ma]
                na = float("nan")
                res = [f(ma.get(_h(k), na), mb.get(_h(k), na)) for k in keys]
                return I.new(st, SerCell(keys, res, cm.names, cm.name))
        elif co is None and not (isinstance(oth, Tup) and len(oth.items) == len(vals) and cm.kind != "pidx"):
            if isinstance(oth, T) and (oth.op.startswith(("pd:", "ext:")) or oth.op == "mcall"):
                return NotImplemented
            ov = [oth] * len(vals)
        else:
            ov = vals_of(I, oth, st)
            if ov is None:
                return NotImplemented
            if len(ov) != len(vals):
                I.event("shape", node, st, expected=len(vals), got=len(ov))
                I.raise_now(st, "ValueError", node)
        res = [f(x, y) if left else f(y, x) for x, y in zip(vals, ov)]
        if cm.kind == "pidx":
            return I.ext.mkarr(I, st, res)
        return I.new(st, SerCell(cm.index, res, cm.names, cm.name))
    return NotImplemented


def invert(I, o, c, st):
    def n(x):
        if isinstance(x, ExtV) and x.name in NULLS:
            return x
        if isinstance(x, bool) or I.is_cond(x):
            return E.neg(x)
        return T("not", x)

    if c.kind == "df":
        return I.new(st, FCell(c.cols, [[n(x) for x in d] for d in c.data], c.index, c.names))
    if c.kind == "ser":
        return I.new(st, SerCell(c.index, [n(x) for x in c.vals], c.names, c.name))
    return NotImplemented


def items(I, c, st):
    """iteration: columns of a frame, values of a series or index"""
    return list(c.cols) if c.kind == "df" else list(c.vals)


def length(c):
    return len(c.index) if c.kind == "df" else len(c.vals)


def bools(I, vs, st, kind):
    ts = []
    for x in vs:
        if is_null(x):
            continue
        ts.append(I.truth(x, st))
    return E.mk_or(ts) if kind == "any" else E.mk_and(ts)


# ---------------------------------------------------------------- methods


def axis_of(kw, a, pos=0, default=0):
    v = kw.get("axis", a[pos] if len(a) > pos else default)
    return {"columns": 1, "index": 0, "rows": 0}.get(v, v) if isinstance(v, str) else v


def method(I, o, c, name, a, kw, st, node):
    f = METHODS.get((c.kind, name)) or METHODS.get(("*", name))
    if f is None:
        return NotImplemented
    METH_NAME[0] = name
    r = f(I, o, c, a, kw, st, node)
    if r is NotImplemented or kw.get("inplace") is not True:
        return r
    # in-place variants replace the receiver
    I.effect(node, st, "method:" + name, o, None)
    rc = I.cell(st, r)
    rc = rc.__class__(*rc.key()) if rc.kind != "df" else FCell(rc.cols, rc.data, rc.index, rc.names)
    rc.origin = c.origin
    I.put(st, o, rc)
    src = getattr(c, "src", None)
    if src is not None and rc.kind == "ser":
        # a column changed in place changes its frame (as the pinned pandas does)
        rc.src = src
        f = I.cell(st, src[0])
        if f is not None and f.kind == "df" and f.index == rc.index and f.col(src[1]) is not None and f.data[f.col(src[1])] == c.vals:
            I.put(st, src[0], setcol(I, f, src[1], rc.vals))
    return None


METHODS = {}
METH_NAME = [None]


def M(kinds, *names):
    def deco(f):
        for k in kinds.split():
            for n in names:
                METHODS[(k, n)] = f
        return f

    return deco


@M("df ser pidx", "copy", "infer_objects", "convert_dtypes", "to_frame0")
def m_copy(I, o, c, a, kw, st, node):
    return I.new(st, take(c, range(length(c))))


@M("df ser pidx", "to_numpy")
def m_np(I, o, c, a, kw, st, node):
    return to_numpy(I, o, c, st)


@M("df ser pidx", "tolist", "to_list")
def m_tolist(I, o, c, a, kw, st, node):
    return I.mklist(st, list(c.vals)) if c.kind != "df" else NotImplemented


@M("df", "query", "eval")
def m_query(I, o, c, a, kw, st, node):
    """conditions written as text: columns and @variables of the calling function"""
    if not (a and isinstance(a[0], str)) or "`" in a[0]:
        return NotImplemented
    name = METH_NAME[0]
    text = a[0].replace("@", "_at_")
    try:
        e = ast.parse(text.strip(), mode="eval").body
    except SyntaxError:
        return NotImplemented

    class Sub(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            r = n.values[0]
            for x in n.values[1:]:
                r = ast.BinOp(r, ast.BitAnd() if isinstance(n.op, ast.And) else ast.BitOr(), x)
            return r

        def visit_UnaryOp(self, n):
            self.generic_visit(n)
            return ast.UnaryOp(ast.Invert(), n.operand) if isinstance(n.op, ast.Not) else n

        def visit_Compare(self, n):
            self.generic_visit(n)
            parts, left = [], n.left
            for op, r in zip(n.ops, n.comparators):
                if isinstance(op, (ast.In, ast.NotIn)):
                    x = ast.Call(ast.Attribute(left, "isin", ast.Load()), [r], [])
                    parts.append(x if isinstance(op, ast.In) else ast.UnaryOp(ast.Invert(), x))
                else:
                    parts.append(ast.Compare(left, [op], [r]))
                left = r
            out = parts[0]
            for x in parts[1:]:
                out = ast.BinOp(out, ast.BitAnd(), x)
            return out

    e = ast.fix_missing_locations(ast.copy_location(Sub().visit(e), node))
    for n in ast.walk(e):
        if hasattr(n, "lineno") and node is not None:
            n.lineno = n.end_lineno = node.lineno
    env = {}
    for n in ast.walk(e):
        if isinstance(n, ast.Name):
            if n.id.startswith("_at_"):
                if n.id[4:] not in st.env:
                    return NotImplemented
                env[n.id] = st.env[n.id[4:]]
            elif c.col(n.id) is not None:
                env[n.id] = getitem(I, o, c, n.id, st, node)
            else:
                return NotImplemented
    old = {k: st.env[k] for k in env if k in st.env}
    st.env.update(env)
    try:
        m = I.ev(e, st)
    finally:
        for k in env:
            if k in old:
                st.env[k] = old[k]
            else:
                st.env.pop(k, None)
    if name == "eval":
        return m
    return getitem(I, o, c, m, st, node)


@M("df", "squeeze")
def m_squeeze(I, o, c, a, kw, st, node):
    if len(c.index) == 1 and len(c.cols) == 1:
        return c.data[0][0]
    if len(c.index) == 1:
        return row_series(I, st, c, 0)
    if len(c.cols) == 1:
        return series(I, st, c.index, c.data[0], c.names, c.cols[0])
    return o


@M("ser", "squeeze")
def m_squeeze_s(I, o, c, a, kw, st, node):
    return c.vals[0] if len(c.vals) == 1 else o


@M("ser", "item")
def m_item(I, o, c, a, kw, st, node):
    if len(c.vals) == 1:
        return c.vals[0]
    I.raise_now(st, "ValueError", node)


def pattern_of(I, v, st):
    """(pattern, flags) of a regular expression given as text or compiled"""
    v = I.resolve(v, st)
    if isinstance(v, str):
        return v, 0
    c = I.cell(st, v)
    if c is not None and c.kind == "obj" and getattr(c.cls, "name", "") == "Pattern":
        p, f = I.resolve(c.attrs.get("pattern"), st), I.resolve(c.attrs.get("flags", 0), st)
        if isinstance(p, str) and isinstance(f, int):
            return p, f
    return None


def str_accessor(I, o, name, a, kw, st, node):
    """methods of Series.str on constant strings"""
    import re

    c = I.cell(st, o)
    if c is None or c.kind != "ser":
        return NotImplemented
    vals = [I.resolve(x, st) for x in c.vals]
    if not all(isinstance(x, str) or is_null(x) for x in vals):
        return NotImplemented
    nan = float("nan")

    def each(f, na=nan):
        return I.new(st, SerCell(c.index, [na if is_null(x) else f(x) for x in vals], c.names, c.name))

    if name in ("contains", "match", "fullmatch", "extract"):
        p = pattern_of(I, a[0] if a else kw.get("pat"), st)
        if p is None or set(kw) - {"pat", "regex", "na", "flags", "expand", "case"} or len(a) > 1 or kw.get("case", True) is not True:
            return NotImplemented
        flags = kw.get("flags", 0)
        if not isinstance(flags, int):
            return NotImplemented
        if name == "contains" and kw.get("regex", True) is False:
            return each(lambda x: p[0] in x, kw.get("na", nan))
        try:
            rx = re.compile(p[0], p[1] | flags)
        except re.error:
            I.raise_now(st, "error", node)
        if name != "extract":
            f = {"contains": rx.search, "match": rx.match, "fullmatch": rx.fullmatch}[name]
            return each(lambda x: f(x) is not None, kw.get("na", nan))
        if rx.groups == 0:
            I.raise_now(st, "ValueError", node)
        if kw.get("expand", True) is not True:
            return NotImplemented
        ms = [None if is_null(x) else rx.search(x) for x in vals]
        back = {v: k for k, v in rx.groupindex.items()}
        data = [[nan if m is None or m.group(g) is None else m.group(g) for m in ms] for g in range(1, rx.groups + 1)]
        return I.new(st, FCell([back.get(g, g - 1) for g in range(1, rx.groups + 1)], data, c.index, c.names))
    if kw or not all(isinstance(x, (str, int)) for x in a):
        return NotImplemented
    if name in ("startswith", "endswith", "lower", "upper", "strip", "lstrip", "rstrip", "title", "isupper", "islower", "isdigit", "find"):
        return each(lambda x: getattr(x, name)(*a))
    if name == "len":
        return each(len)
    if name == "get" and len(a) == 1:
        return each(lambda x: x[a[0]] if -len(x) <= a[0] < len(x) else nan)
    return NotImplemented


@M("df", "iterrows")
def m_iterrows(I, o, c, a, kw, st, node):
    return I.mklist(st, [Tup((c.index[i], row_series(I, st, c, i))) for i in range(len(c.index))])


@M("ser", "items", "iteritems")
def m_items(I, o, c, a, kw, st, node):
    return I.mklist(st, [Tup(x) for x in zip(c.index, c.vals)])


@M("ser", "keys")
def m_keys(I, o, c, a, kw, st, node):
    return I.new(st, IxCell(c.index, c.names))


@M("ser", "get")
def m_get(I, o, c, a, kw, st, node):
    for x, y in zip(c.index, c.vals):
        if lab_eq(x, a[0]):
            return y
    return a[1] if len(a) > 1 else kw.get("default")


@M("ser", "to_dict")
def m_todict(I, o, c, a, kw, st, node):
    return I.new(st, E.DCell(list(zip(c.index, c.vals))))


@M("df", "apply")
def m_apply(I, o, c, a, kw, st, node):
    kw = dict(kw)
    f = kw.pop("func", a[0] if a else None)
    ax = kw.pop("axis", a[1] if len(a) > 1 else 0)
    ax = {"columns": 1, "index": 0}.get(ax, ax) if isinstance(ax, str) else ax
    extra = kw.pop("args", None)
    extra = list(extra.items) if isinstance(extra, Tup) else []
    if ax != 1:
        return NotImplemented
    if not c.index:
        return I.new(st, FCell(c.cols, c.data, c.index, c.names))
    out = [I.call(f, [row_series(I, st, c, i)] + extra, kw, st, node) for i in range(len(c.index))]
    return series(I, st, c.index, out, c.names)


@M("ser", "apply", "map")
def m_sapply(I, o, c, a, kw, st, node):
    f = a[0] if a else kw.get("func", kw.get("arg"))
    fc = I.cell(st, f)
    if fc is not None and fc.kind == "dict":
        out = []
        for x in c.vals:
            v = fc.get(x)
            out.append(v if v is not None or fc.has(x) else float("nan"))
        return I.new(st, SerCell(c.index, out, c.names, c.name))
    kw = {k: v for k, v in kw.items() if k not in ("func", "arg")}
    return I.new(st, SerCell(c.index, [I.call(f, [x], kw, st, node) for x in c.vals], c.names, c.name))


@M("df ser", "isnull", "isna")
def m_isnull(I, o, c, a, kw, st, node):
    g = lambda x: null_cond(I, x, st)  # noqa: E731
    if c.kind == "df":
        return I.new(st, FCell(c.cols, [[g(x) for x in d] for d in c.data], c.index, c.names))
    return I.new(st, SerCell(c.index, [g(x) for x in c.vals], c.names, c.name))


@M("df ser", "notnull", "notna")
def m_notnull(I, o, c, a, kw, st, node):
    r = m_isnull(I, o, c, a, kw, st, node)
    return invert(I, r, I.cell(st, r), st)


@M("df ser", "fillna")
def m_fillna(I, o, c, a, kw, st, node):
    v = a[0] if a else kw.get("value")
    vc = I.cell(st, v)
    if vc is not None and vc.kind == "ser" and c.kind == "ser" and vc.index == c.index:
        out = []
        for x, y in zip(c.vals, vc.vals):
            n = null_cond(I, x, st)
            out.append(y if n is True else x if n is False else E.ite(n, y, x))
        return I.new(st, SerCell(c.index, out, c.names, c.name))
    if vc is not None:
        return NotImplemented

    def g(x):
        n = null_cond(I, x, st)
        return v if n is True else x if n is False else E.ite(n, v, x)

    if c.kind == "df":
        return I.new(st, FCell(c.cols, [[g(x) for x in d] for d in c.data], c.index, c.names))
    return I.new(st, SerCell(c.index, [g(x) for x in c.vals], c.names, c.name))


@M("df ser", "shift")
def m_shift(I, o, c, a, kw, st, node):
    n = a[0] if a else kw.get("periods", 1)
    fill = kw.get("fill_value", float("nan"))
    if type(n) is not int:
        return NotImplemented

    def g(d):
        d = list(d)
        if n >= 0:
            return ([fill] * min(n, len(d)) + d)[: len(d)]
        return (d + [fill] * min(-n, len(d)))[-len(d) :] if d else d

    if c.kind == "df":
        return I.new(st, FCell(c.cols, [g(d) for d in c.data], c.index, c.names))
    return I.new(st, SerCell(c.index, g(c.vals), c.names, c.name))


def _cmp(op):
    def f(I, o, c, a, kw, st, node):
        return elementwise(I, op, o, a[0] if a else kw.get("other"), st, node, cmp_=True)

    return f


for _n, _o in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE")):
    METHODS[("df", _n)] = METHODS[("ser", _n)] = _cmp(_o)


def _bin(op):
    def f(I, o, c, a, kw, st, node):
        return elementwise(I, op, o, a[0], st, node)

    return f


for _n, _o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("div", "Div"), ("floordiv", "FloorDiv"), ("mod", "Mod")):
    METHODS[("ser", _n)] = _bin(_o)


def _anyall(kind):
    def f(I, o, c, a, kw, st, node):
        if c.kind == "df":
            ax = axis_of(kw, a)
            if ax == 1:
                return series(I, st, c.index, [bools(I, r, st, kind) for r in rows(c)], c.names)
            if ax == 0:
                return series(I, st, c.cols, [bools(I, d, st, kind) for d in c.data])
            return NotImplemented
        return bools(I, c.vals, st, kind)

    return f


for _k in ("df", "ser", "pidx"):
    METHODS[(_k, "any")] = _anyall("any")
    METHODS[(_k, "all")] = _anyall("all")


@M("ser", "sum")
def m_sum(I, o, c, a, kw, st, node):
    t = 0
    for x in c.vals:
        t = I.binop("Add", t, x, st, node)
    return t


@M("ser pidx", "max", "min")
def m_minmax(I, o, c, a, kw, st, node):
    name = node.func.attr if hasattr(node, "func") and hasattr(node.func, "attr") else None
    if name not in ("max", "min"):
        return NotImplemented
    vs = [x for x in c.vals if not is_null(x)]
    r = I.ext.minmax(I, name, vs, st) if vs else float("nan")
    return NotImplemented if r is None else r


@M("ser pidx", "isin")
def m_isin(I, o, c, a, kw, st, node):
    vs = vals_of(I, a[0], st)
    if vs is None:
        return NotImplemented
    res = []
    for x in c.vals:
        if is_null(x):
            res.append(any(is_null(y) for y in vs))
        else:
            res.append(E.mk_or([I.equal(x, y, st, node) if not isinstance(x, Tup) else (lab_eq(x, y) if isinstance(y, Tup) else False) for y in vs]))
    if c.kind == "pidx":
        return I.ext.mkarr(I, st, res)
    return I.new(st, SerCell(c.index, res, c.names, c.name))


@M("ser", "replace")
def m_replace(I, o, c, a, kw, st, node):
    if kw or not 1 <= len(a) <= 2:
        return NotImplemented
    d = I.cell(st, a[0])
    if len(a) == 1:
        pairs = list(d.items) if d is not None and d.kind == "dict" and not d.open else None
    else:
        olds = I.concrete_items(a[0], st) if d is not None else [a[0]]
        pairs = [(x, a[1]) for x in olds] if olds is not None and I.cell(st, a[1]) is None else None
    if pairs is None or not all(is_const(x) and not is_null(x) and not is_null(y) for x, y in pairs):
        return NotImplemented
    out = []
    for x in c.vals:
        r = x
        if not is_null(x):
            for old, new in reversed(pairs):
                r = E.ite(I.equal(x, old, st, node), new, r)
        out.append(r)
    return I.new(st, SerCell(c.index, out, c.names, c.name))


@M("ser", "unique")
def m_unique(I, o, c, a, kw, st, node):
    if not all(is_const(x) or isinstance(x, Tup) for x in c.vals):
        return NotImplemented
    out = []
    for x in c.vals:
        if not any(lab_eq(x, y) for y in out):
            out.append(x)
    return I.ext.mkarr(I, st, out)


@M("pidx", "unique")
def m_iunique(I, o, c, a, kw, st, node):
    out = []
    for x in c.vals:
        if not any(lab_eq(x, y) for y in out):
            out.append(x)
    return I.new(st, IxCell(out, c.names))


@M("ser", "astype")
def m_astype(I, o, c, a, kw, st, node):
    d = I.resolve(a[0] if a else kw.get("dtype"), st)

    def g(x):
        if is_null(x):
            if d == "Int64" or isinstance(d, ExtV) and d.name.endswith("Int64Dtype"):
                return NA
            return x
        if I.ext.dtype_kind(d) == "int" or d == "Int64":
            if isinstance(x, (float, Fraction)) and x == int(x):
                return int(x)
            if isinstance(x, bool):
                return int(x)
        if I.ext.dtype_kind(d) == "bool" and type(x) is int:
            return bool(x)
        return x

    return I.new(st, SerCell(c.index, [g(x) for x in c.vals], c.names, c.name))


@M("df", "astype")
def m_dastype(I, o, c, a, kw, st, node):
    return I.new(st, take(c, range(len(c.index))))


@M("df", "assign")
def m_assign(I, o, c, a, kw, st, node):
    nc = FCell(c.cols, c.data, c.index, c.names)
    for k, v in kw.items():
        if k == "inplace":
            continue
        vc = I.cell(st, v)
        if not is_pd(vc) and hasattr(v, "node"):
            v = I.call(v, [I.new(st, nc)], {}, st, node)
        vs = rhs_column(I, v, c.index, st, node)
        nc = setcol(I, nc, k, vs if vs is not None else [T("unkcell")] * len(c.index))
    return I.new(st, nc)


@M("df", "drop")
def m_drop(I, o, c, a, kw, st, node):
    ax = axis_of(kw, a, 1)
    labels = kw.get("labels", a[0] if a else None)
    if "columns" in kw:
        labels, ax = kw["columns"], 1
    elif "index" in kw:
        labels, ax = kw["index"], 0
    labels = I.resolve(labels, st)
    ls = [labels] if isinstance(labels, (str, int)) else vals_of(I, labels, st)
    if ls is None:
        return NotImplemented
    if ax == 1:
        miss = [x for x in ls if c.col(x) is None]
        if miss:
            if kw.get("errors") != "ignore":
                I.raise_now(st, "KeyError", node)
        keep = [i for i, x in enumerate(c.cols) if not any(same(x, y) for y in ls)]
        return I.new(st, FCell([c.cols[i] for i in keep], [c.data[i] for i in keep], c.index, c.names))
    for x in ls:
        if not any(lab_eq(x, y) for y in c.index) and kw.get("errors") != "ignore":
            I.raise_now(st, "KeyError", node)
    return I.new(st, take(c, [i for i, x in enumerate(c.index) if not any(lab_eq(x, y) for y in ls)]))


@M("df ser", "reset_index")
def m_reset(I, o, c, a, kw, st, node):
    n = len(c.index)
    if kw.get("drop") is True:
        if c.kind == "ser":
            return I.new(st, SerCell(range(n), c.vals, (None,), c.name))
        return I.new(st, FCell(c.cols, c.data, range(n), (None,)))
    if kw.get("level") is not None or a:
        return NotImplemented
    if c.kind == "ser":
        c = FCell([c.name if c.name is not None else 0], [c.vals], c.index, c.names)
    cols, data = [], []
    for j, nm in enumerate(c.names):
        cols.append(nm if nm is not None else ("index" if len(c.names) == 1 else f"level_{j}"))
        data.append([x.items[j] if isinstance(x, Tup) and len(c.names) > 1 else x for x in c.index])
    return I.new(st, FCell(cols + list(c.cols), data + list(c.data), range(n), (None,)))


@M("df", "set_index")
def m_setindex(I, o, c, a, kw, st, node):
    ks = a[0] if a else kw.get("keys")
    ks = [ks] if isinstance(ks, str) else vals_of(I, ks, st)
    if ks is None or not all(isinstance(x, str) for x in ks):
        return NotImplemented
    sub = pickcols(I, c, ks, st, node)
    ix = [r[0] if len(ks) == 1 else Tup(r) for r in rows(sub)]
    keep = [i for i, x in enumerate(c.cols) if x not in ks] if kw.get("drop") is not False else range(len(c.cols))
    return I.new(st, FCell([c.cols[i] for i in keep], [c.data[i] for i in keep], ix, ks))


@M("pidx", "get_level_values")
def m_level(I, o, c, a, kw, st, node):
    k = a[0] if a else kw.get("level")
    j = k if type(k) is int else (list(c.names).index(k) if k in c.names else None)
    if j is None:
        I.raise_now(st, "KeyError", node)
    return I.new(st, IxCell([x.items[j] if isinstance(x, Tup) and len(c.names) > 1 else x for x in c.vals], (c.names[j],)))


@M("pidx", "duplicated")
def m_idup(I, o, c, a, kw, st, node):
    return I.ext.mkarr(I, st, dups(c.vals, kw.get("keep", a[0] if a else "first")))


def dups(vals, keep):
    out = []
    for i, x in enumerate(vals):
        if keep is False:
            out.append(any(j != i and lab_eq(x, y) for j, y in enumerate(vals)))
        elif keep == "last":
            out.append(any(lab_eq(x, y) for y in vals[i + 1 :]))
        else:
            out.append(any(lab_eq(x, y) for y in vals[:i]))
    return out


@M("df", "drop_duplicates", "duplicated")
def m_dropdup(I, o, c, a, kw, st, node):
    sub = kw.get("subset", a[0] if a else None)
    ks = list(c.cols) if sub is None else ([sub] if isinstance(sub, str) else vals_of(I, sub, st))
    if ks is None:
        return NotImplemented
    rs = [Tup(r) for r in rows(pickcols(I, c, ks, st, node))]
    if not all(is_const(x) or isinstance(x, Tup) or is_null(x) for r in rs for x in r.items):
        return NotImplemented
    d = dups(rs, kw.get("keep", "first"))
    if getattr(getattr(node, "func", None), "attr", "") == "duplicated":
        return series(I, st, c.index, d, c.names)
    return I.new(st, take(c, [i for i, x in enumerate(d) if not x]))


@M("ser pidx", "value_counts")
def m_counts(I, o, c, a, kw, st, node):
    keys, n = [], []
    for x in c.vals:
        for j, y in enumerate(keys):
            if lab_eq(x, y):
                n[j] += 1
                break
        else:
            keys.append(x)
            n.append(1)
    order = sorted(range(len(keys)), key=lambda j: -n[j])
    return series(I, st, [keys[j] for j in order], [n[j] for j in order], c.names)


def sort_key(v):
    if isinstance(v, Tup):
        return tuple(sort_key(x) for x in v.items)
    return v


@M("df ser", "sort_index")
def m_sortindex(I, o, c, a, kw, st, node):
    try:
        order = sorted(range(len(c.index)), key=lambda i: sort_key(c.index[i]), reverse=kw.get("ascending") is False)
    except TypeError:
        return NotImplemented
    return I.new(st, take(c, order))


@M("df", "sort_values")
def m_sortvalues(I, o, c, a, kw, st, node):
    by = a[0] if a else kw.get("by")
    by = [by] if isinstance(by, str) else vals_of(I, by, st)
    if by is None:
        return NotImplemented
    rs = rows(pickcols(I, c, by, st, node))
    try:
        order = sorted(range(len(rs)), key=lambda i: tuple(sort_key(x) for x in rs[i]), reverse=kw.get("ascending") is False)
    except TypeError:
        return NotImplemented
    return I.new(st, take(c, order))


@M("df", "head")
def m_head(I, o, c, a, kw, st, node):
    n = a[0] if a else 5
    return I.new(st, take(c, range(len(c.index))[:n])) if type(n) is int else NotImplemented


@M("df ser", "tail")
def m_tail(I, o, c, a, kw, st, node):
    n = a[0] if a else kw.get("n", 5)
    return I.new(st, take(c, range(len(c.index))[-n:] if n else [])) if type(n) is int else NotImplemented


@M("ser", "head")
def m_shead(I, o, c, a, kw, st, node):
    n = a[0] if a else kw.get("n", 5)
    return I.new(st, take(c, range(len(c.index))[:n])) if type(n) is int else NotImplemented


@M("ser", "dropna")
def m_sdropna(I, o, c, a, kw, st, node):
    n = [null_cond(I, x, st) for x in c.vals]
    if a or set(kw) - {"inplace"} or not all(type(x) is bool for x in n):
        return NotImplemented
    return I.new(st, take(c, [i for i, x in enumerate(n) if not x]))


@M("df", "dropna")
def m_dropna(I, o, c, a, kw, st, node):
    if a or set(kw) - {"inplace", "how", "subset"} or kw.get("how", "any") not in ("any", "all"):
        return NotImplemented
    sub = kw.get("subset")
    ks = list(c.cols) if sub is None else ([sub] if isinstance(sub, str) else vals_of(I, sub, st))
    if ks is None:
        return NotImplemented
    n = [[null_cond(I, x, st) for x in r] for r in rows(pickcols(I, c, ks, st, node))]
    if not all(type(x) is bool for r in n for x in r):
        return NotImplemented
    f = all if kw.get("how") == "all" else any
    return I.new(st, take(c, [i for i, r in enumerate(n) if not f(r)]))


@M("df ser", "where", "mask")
def m_where(I, o, c, a, kw, st, node):
    if len(a) not in (1, 2) or kw:
        return NotImplemented
    flip = METH_NAME[0] == "mask"
    q = I.cell(st, a[0])
    if q is not None and is_pd(q) and q.index != c.index:
        return NotImplemented
    vs = vals_of(I, a[0], st)
    other = a[1] if len(a) == 2 else float("nan")
    if vs is None or len(vs) != len(c.index) or not all(type(x) is bool for x in vs) or I.cell(st, other) is not None:
        return NotImplemented
    g = lambda d: [x if k != flip else other for x, k in zip(d, vs)]  # noqa: E731
    if c.kind == "df":
        return I.new(st, FCell(c.cols, [g(d) for d in c.data], c.index, c.names))
    return I.new(st, SerCell(c.index, g(c.vals), c.names, c.name))


@M("ser", "nunique")
def m_nunique(I, o, c, a, kw, st, node):
    if a or kw or not all(is_const(x) or isinstance(x, Tup) for x in c.vals):
        return NotImplemented
    out = []
    for x in c.vals:
        if not is_null(x) and not any(lab_eq(x, y) for y in out):
            out.append(x)
    return len(out)


@M("df", "rename")
def m_rename(I, o, c, a, kw, st, node):
    m = I.cell(st, kw.get("columns"))
    if m is None or m.kind != "dict":
        return NotImplemented
    return I.new(st, FCell([m.get(x) if m.has(x) else x for x in c.cols], c.data, c.index, c.names))


@M("df", "merge")
def m_merge(I, o, c, a, kw, st, node):
    return merge(I, [o] + list(a), kw, st, node)


@M("df", "keys")
def m_dkeys(I, o, c, a, kw, st, node):
    return I.new(st, IxCell(c.cols, (None,)))


@M("ser", "to_frame")
def m_toframe(I, o, c, a, kw, st, node):
    return I.new(st, FCell([c.name], [c.vals], c.index, c.names))


# ---------------------------------------------------------------- pandas functions


def x_isnull(I, a, kw, st, n):
    v = I.resolve(a[0], st)
    c = I.cell(st, v)
    if is_pd(c):
        return m_isnull(I, v, c, [], {}, st, n)
    return null_cond(I, v, st)


def x_notnull(I, a, kw, st, n):
    r = x_isnull(I, a, kw, st, n)
    c = I.cell(st, r)
    return invert(I, r, c, st) if c is not None else E.neg(r)


def x_series(I, a, kw, st, n):
    d = I.resolve(kw.get("data", a[0] if a else None), st)
    ix = kw.get("index", a[1] if len(a) > 1 else None)
    c = I.cell(st, d)
    if c is not None and c.kind == "dict" and not c.open and ix is None:
        return series(I, st, [k for k, _ in c.items], [v for _, v in c.items], (None,), kw.get("name"))
    if c is not None and c.kind == "ser" and ix is None:
        return I.new(st, take(c, range(len(c.vals))))
    vs = vals_of(I, d, st)
    if vs is None:
        return NotImplemented
    ixs = range(len(vs)) if ix is None else vals_of(I, ix, st)
    if ixs is None or len(list(ixs)) != len(vs):
        return NotImplemented
    ic = I.cell(st, ix)
    return series(I, st, ixs, vs, ic.names if is_pd(ic) and ic.kind == "pidx" else (None,), kw.get("name"))


def x_frame(I, a, kw, st, n):
    d = I.resolve(kw.get("data", a[0] if a else None), st)
    c = I.cell(st, d)
    ix = kw.get("index")
    cols = kw.get("columns")
    names = (None,)
    if c is not None and c.kind == "dict" and not c.open and cols is None:
        keys = [k for k, _ in c.items]
        if not all(isinstance(k, (str, int)) for k in keys):
            return NotImplemented
        cells = [I.cell(st, v) for _, v in c.items]
        data = []
        n_ = None
        index = None
        for (k, v), vc in zip(c.items, cells):
            vs = vals_of(I, v, st) if (vc is not None or isinstance(v, (Tup, T))) and not isinstance(v, str) else None
            if vc is not None and vc.kind == "ser":
                index = index or vc.index
            data.append(vs if vs is not None else v)
            if vs is not None:
                if n_ is not None and len(vs) != n_:
                    I.raise_now(st, "ValueError", n)
                n_ = len(vs)
            elif not (is_const(v) or isinstance(v, (EnumV, Lin))):
                return NotImplemented
        if n_ is None:
            return NotImplemented if keys else I.new(st, FCell([], [], [], (None,)))
        data = [d_ if isinstance(d_, list) else [d_] * n_ for d_ in data]
        if ix is not None:
            ic = I.cell(st, ix)
            index = vals_of(I, ix, st)
            if index is None or len(index) != n_:
                return NotImplemented
            if is_pd(ic) and ic.kind == "pidx":
                names = ic.names
        return I.new(st, FCell(keys, data, index if index is not None else range(n_), names))
    its = I.concrete_items(d, st) if d is not None else None
    if its is not None and cols is None and its and all((I.cell(st, x) is not None and I.cell(st, x).kind == "dict") for x in its):
        keys = []
        for x in its:
            for k, _ in I.cell(st, x).items:
                if k not in keys:
                    keys.append(k)
        data = [[(I.cell(st, x).get(k) if I.cell(st, x).has(k) else float("nan")) for x in its] for k in keys]
        return I.new(st, FCell(keys, data, range(len(its)), (None,)))
    return NotImplemented


def keys_match(I, xs, ys):
    for x, y in zip(xs, ys):
        nx, ny = is_null(x), is_null(y)
        if nx is None or ny is None:
            return None
        if nx or ny:
            if nx and ny:
                continue
            return False
        if is_const(x) and is_const(y):
            if x != y:
                return False
        elif not lab_eq(x, y):
            return None
    return True


def merge(I, a, kw, st, node):
    left = I.resolve(kw.get("left", a[0] if a else None), st)
    right = I.resolve(kw.get("right", a[1] if len(a) > 1 else None), st)
    lc, rc = I.cell(st, left), I.cell(st, right)
    if is_pd(lc) and lc.kind == "ser":
        lc = FCell([lc.name], [lc.vals], lc.index, lc.names)
    if is_pd(rc) and rc.kind == "ser":
        rc = FCell([rc.name], [rc.vals], rc.index, rc.names)
    if not (is_pd(lc) and lc.kind == "df" and is_pd(rc) and rc.kind == "df"):
        return NotImplemented
    how = kw.get("how", a[2] if len(a) > 2 else "inner")

    def ks(v):
        return None if v is None else [v] if isinstance(v, str) else vals_of(I, v, st)

    on, lo, ro = ks(kw.get("on", a[3] if len(a) > 3 else None)), ks(kw.get("left_on")), ks(kw.get("right_on"))
    if on is not None:
        lo = ro = on
    if lo is None or ro is None or len(lo) != len(ro) or how not in ("inner", "left"):
        return NotImplemented
    for q in kw:
        if q not in ("left", "right", "how", "on", "left_on", "right_on", "suffixes", "sort", "copy"):
            return NotImplemented
    suf = kw.get("suffixes")
    suf = ["_x", "_y"] if suf is None else vals_of(I, suf, st)

    def keycol(c, k):
        j = c.col(k)
        if j is not None:
            return list(c.data[j])
        if k in c.names:
            j = list(c.names).index(k)
            return [x.items[j] if isinstance(x, Tup) and len(c.names) > 1 else x for x in c.index]
        I.event("nocolumn", node, st, name=k)
        I.raise_now(st, "KeyError", node)

    lk = list(zip(*[keycol(lc, k) for k in lo]))
    rk = list(zip(*[keycol(rc, k) for k in ro]))
    pairs = []
    for i, x in enumerate(lk):
        hit = False
        for j, y in enumerate(rk):
            m = keys_match(I, x, y)
            if m is None:
                return NotImplemented
            if m:
                pairs.append((i, j))
                hit = True
        if not hit and how == "left":
            pairs.append((i, None))
    shared = [k for k, r in zip(lo, ro) if k == r]
    ridx = {k for k in ro if rc.col(k) is None}
    cols, data = [], []
    lset, rset = set(lc.cols), set(rc.cols)
    for j, k in enumerate(lc.cols):
        nm = k + suf[0] if k in rset and k not in shared else k
        cols.append(nm)
        data.append([lc.data[j][i] for i, _ in pairs])
    for k in shared:
        if k not in cols and lc.col(k) is None:
            cols.append(k)
            kv = keycol(lc, k)
            data.append([kv[i] for i, _ in pairs])
    for j, k in enumerate(rc.cols):
        if k in shared:
            continue
        nm = k + suf[1] if k in lset else k
        cols.append(nm)
        data.append([rc.data[j][q] if q is not None else float("nan") for _, q in pairs])
    return I.new(st, FCell(cols, data, range(len(pairs)), (None,)))


def x_merge(I, a, kw, st, n):
    return merge(I, a, kw, st, n)


def x_concat(I, a, kw, st, n):
    parts = I.concrete_items(a[0] if a else kw.get("objs"), st)
    if parts is None or axis_of(kw, a, 1) != 0:
        return NotImplemented
    cs = [I.cell(st, p) for p in parts if p is not None]
    if not cs:
        I.raise_now(st, "ValueError", n)
    if not all(is_pd(c) for c in cs) or len({c.kind for c in cs}) != 1:
        return NotImplemented
    if kw.get("keys") is not None:
        keys = vals_of(I, kw["keys"], st)
        if keys is None or cs[0].kind == "ser" or any(isinstance(x, Tup) for c in cs for x in c.index) or kw.get("ignore_index"):
            return NotImplemented
        pairs = [(k, I.cell(st, p)) for k, p in zip(keys, parts) if p is not None]
        nm = vals_of(I, kw["names"], st) if kw.get("names") is not None else None
        cols = []
        for _, c in pairs:
            cols += [k for k in c.cols if k not in cols]
        data = [[x for _, c in pairs for x in (c.data[c.col(k)] if c.col(k) is not None else [float("nan")] * len(c.index))] for k in cols]
        return I.new(st, FCell(cols, data, [Tup((k, x)) for k, c in pairs for x in c.index], tuple(nm) if nm is not None else (None, None)))
    if cs[0].kind == "ser":
        ix = [x for c in cs for x in c.index]
        return series(I, st, range(len(ix)) if kw.get("ignore_index") is True else ix, [x for c in cs for x in c.vals], cs[0].names)
    cols = []
    for c in cs:
        cols += [k for k in c.cols if k not in cols]
    data = [[x for c in cs for x in (c.data[c.col(k)] if c.col(k) is not None else [float("nan")] * len(c.index))] for k in cols]
    ix = [x for c in cs for x in c.index]
    if kw.get("ignore_index") is True:
        return I.new(st, FCell(cols, data, range(len(ix)), (None,)))
    return I.new(st, FCell(cols, data, ix, cs[0].names))


def x_midx(I, a, kw, st, n):
    vs = vals_of(I, a[0], st)
    nm = kw.get("names", a[1] if len(a) > 1 else None)
    nm = vals_of(I, nm, st) if nm is not None else None
    if vs is None:
        return NotImplemented
    vs = [x if isinstance(x, Tup) else Tup(I.concrete_items(x, st) or ()) for x in vs]
    return I.new(st, IxCell(vs, nm if nm is not None else (None,) * (len(vs[0].items) if vs else 1)))


FUNCS = {
    "pandas.isnull": x_isnull, "pandas.isna": x_isnull, "pandas.notnull": x_notnull, "pandas.notna": x_notnull,
    "pandas.Series": x_series, "pandas.DataFrame": x_frame, "pandas.merge": x_merge, "pandas.concat": x_concat,
    "pandas.MultiIndex.from_tuples": x_midx, "pandas.Index": lambda I, a, kw, st, n: NotImplemented,
}
