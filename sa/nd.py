"""Abstract n-dimensional arrays of known shape (element values are abstract values).

A `mat` cell describes a window (shape, positions) on a buffer cell; basic indexing gives a
view on the same buffer, advanced indexing a copy - as in numpy.
"""
import functools
import itertools

from . import engine as E
from .values import EnumV, Lin, Ref, SliceV, Star, T, Tup, is_const, is_num, lin_add, same, to_lin

MAXEL = 200000


class BufCell(E.Cell):
    kind = "buf"

    def __init__(self, vals, origin=None):
        self.vals, self.origin = tuple(vals), origin


class MCell(E.Cell):
    kind = "mat"

    def __init__(self, buf, shape, pos, origin=None):
        self.buf, self.shape, self.pos, self.origin = buf, tuple(shape), tuple(pos), origin


def is_mat(I, v, st):
    c = I.cell(st, v)
    return c is not None and c.kind == "mat"


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def values(I, c, st):
    b = I.cell(st, c.buf)
    return [b.vals[p] for p in c.pos]


def mk(I, st, shape, flat):
    shape = tuple(shape)
    if not shape:
        return flat[0]
    if len(shape) == 1:
        return I.ext.mkarr(I, st, flat)
    buf = I.new(st, BufCell(flat))
    return I.new(st, MCell(buf, shape, range(len(flat))))


def arr_values(I, c, st):
    if c.writes:
        return [I.ext.read_arr(I, c, i, st) for i in range(len(c.cells))]
    return list(c.cells)


def has_len(I, c):
    """an object which numpy would take for a sequence"""
    if not hasattr(c.cls, "lookup"):
        return True
    return any(c.cls.lookup(n)[0] is not None for n in ("__len__", "__array__"))


def look(I, v, st, nested=True):
    """(shape, flat values) of an array-like abstract value, or None"""
    v = I.resolve(v, st)
    c = I.cell(st, v)
    if c is not None and c.kind == "mat":
        return c.shape, values(I, c, st)
    if c is not None and c.kind == "arr":
        return (len(c.cells),), arr_values(I, c, st)
    if c is None and (is_const(v) or isinstance(v, (Lin, EnumV)) or isinstance(v, T)) and not isinstance(v, str):
        if isinstance(v, T) and v.op in ("range", "enumerate", "zip", "dictkeys", "dictvalues", "reversed"):
            it = I.concrete_items(v, st)
            return None if it is None else ((len(it),), it)
        if isinstance(v, T) and (v.op.startswith("ext:") or v.op in ("mcall", "item", "attr", "call", "unk", "listof")):
            return None
        return (), [v]
    if isinstance(v, str) or v is None:
        return (), [v]
    if c is not None and c.kind == "obj" and not has_len(I, c):
        return (), [v]
    if nested:
        it = I.concrete_items(v, st)
        if it is None or any(isinstance(x, Star) for x in it):
            return None
        if not it:
            return (0,), []
        subs = [look(I, x, st) for x in it]
        if any(s is None for s in subs) or len({s[0] for s in subs}) != 1:
            return None
        return (len(it),) + subs[0][0], [x for s in subs for x in s[1]]
    return None


def strides(shape):
    out, s = [], 1
    for d in reversed(shape):
        out.append(s)
        s *= d
    return out[::-1]


def index_plan(I, shape, k, st):
    """-> (result shape, flat offsets, is_view) or None (symbolic) or 'oob'"""
    ks = list(k.items) if isinstance(k, Tup) else [k]
    ks = [I.resolve(x, st) for x in ks]
    if any(isinstance(x, T) and x.op == "ellipsis" for x in ks):
        j = next(i for i, x in enumerate(ks) if isinstance(x, T) and x.op == "ellipsis")
        n = len(shape) - (len([x for x in ks if x is not None]) - 1)
        ks[j : j + 1] = [SliceV(None, None, None)] * n
    # boolean mask over several axes
    if len(ks) == 1:
        m = I.cell(st, ks[0])
        if m is not None and m.kind == "mat":
            vals = values(I, m, st)
            if all(type(x) is bool for x in vals) and m.shape == shape[: len(m.shape)]:
                rest = prod(shape[len(m.shape) :])
                offs = [i * rest + j for i, x in enumerate(vals) if x for j in range(rest)]
                return (sum(vals),) + tuple(shape[len(m.shape) :]), offs, False
            return None
    dims, adv = [], []
    ax = 0
    for x in ks:
        if x is None:
            dims.append(("new",))
            continue
        if ax >= len(shape):
            return "oob"
        n = shape[ax]
        if isinstance(x, bool):
            return None
        if isinstance(x, int):
            if not -n <= x < n:
                return "oob"
            dims.append(("int", x % n))
        elif isinstance(x, SliceV):
            r = I.ext.slice_range(x, n)
            if r is None:
                return None
            dims.append(("rng", list(r)))
        else:
            lv = look(I, x, st)
            if lv is None or len(lv[0]) != 1:
                return None
            if lv[1] and all(type(y) is bool for y in lv[1]):
                if len(lv[1]) != n:
                    return "oob"
                idx = [i for i, y in enumerate(lv[1]) if y]
            elif all(type(y) is int for y in lv[1]):
                if any(not -n <= y < n for y in lv[1]):
                    return "oob"
                idx = [y % n for y in lv[1]]
            else:
                return None
            dims.append(("adv", idx))
            adv.append(len(dims) - 1)
        ax += 1
    while ax < len(shape):
        dims.append(("rng", list(range(shape[ax]))))
        ax += 1
    st_ = strides(shape)
    # assign strides
    sidx = 0
    plan = []
    for d in dims:
        if d[0] == "new":
            plan.append((d, 0))
        else:
            plan.append((d, st_[sidx]))
            sidx += 1
    if adv:
        # an int together with advanced indexes broadcasts with them
        L = {len(plan[i][0][1]) for i in adv} - {1}
        if len(L) > 1:
            return "oob"
        n = L.pop() if L else 1
        if any(len(plan[i][0][1]) == 0 for i in adv):
            n = 0
        contiguous = adv == list(range(adv[0], adv[-1] + 1))
        axes = []
        advoff = [0] * n
        base = 0
        done = False
        for d, s in plan:
            if d[0] == "int":
                base += d[1] * s
            elif d[0] == "new":
                axes.append([0])
            elif d[0] == "rng":
                axes.append([i * s for i in d[1]])
            else:
                ix = d[1] if len(d[1]) == n else d[1] * n
                for j in range(n):
                    advoff[j] += ix[j] * s
                if not done:
                    axes.append("adv")
                    done = True
        if not contiguous:
            axes = ["adv"] + [a for a in axes if a != "adv"]
        axes = [advoff if a == "adv" else a for a in axes]
        offs = [base + sum(t) for t in itertools.product(*axes)]
        return tuple(len(a) for a in axes), offs, False
    base, axes = 0, []
    for d, s in plan:
        if d[0] == "int":
            base += d[1] * s
        elif d[0] == "new":
            axes.append([0])
        else:
            axes.append([i * s for i in d[1]])
    offs = [base + sum(t) for t in itertools.product(*axes)]
    return tuple(len(a) for a in axes), offs, True


def getitem(I, o, c, k, st, node):
    p = index_plan(I, c.shape, k, st)
    if p == "oob":
        I.event("index", node, st, target=o, idx=k, length=c.shape, ok=False)
        I.raise_now(st, "IndexError", node)
    if p is None:
        I.opaque_ops += 1
        return T("item", I.freeze(o, st), I.freeze(k, st))
    shape, offs, view = p
    pos = [c.pos[i] for i in offs]
    b = I.cell(st, c.buf)
    if not shape:
        return b.vals[pos[0]]
    if view:
        return I.new(st, MCell(c.buf, shape, pos, c.origin))
    return mk(I, st, shape, [b.vals[i] for i in pos])


def setitem(I, o, c, k, v, st, node):
    I.effect(node, st, "setitem", o, k, v)
    p = index_plan(I, c.shape, k, st)
    b = I.cell(st, c.buf)
    if p == "oob":
        I.event("index", node, st, target=o, idx=k, length=c.shape, ok=False)
        I.raise_now(st, "IndexError", node)
    vals = list(b.vals)
    if p is None:
        for i in c.pos:
            vals[i] = T("unkcell")
    else:
        shape, offs, _ = p
        rhs = look(I, v, st)
        got = None if rhs is None else broadcast_to(rhs, shape)
        if rhs is not None and got is None:
            I.event("shape", node, st, expected=shape, got=rhs[0])
            I.raise_now(st, "ValueError", node)
        for j, i in enumerate(offs):
            vals[c.pos[i]] = T("unkcell") if got is None else got[j]
    I.put(st, c.buf, BufCell(vals, b.origin))


def broadcast_to(sv, shape):
    s, f = sv
    if s == tuple(shape):
        return f
    while s and len(s) > len(shape) and s[0] == 1:
        s = s[1:]
    if len(s) > len(shape):
        return None
    s = (1,) * (len(shape) - len(s)) + tuple(s)
    if any(a != b and a != 1 for a, b in zip(s, shape)):
        return None
    ss = strides(s)
    out = []
    for ix in itertools.product(*[range(d) for d in shape]):
        out.append(f[sum((i if d != 1 else 0) * t for i, d, t in zip(ix, s, ss))])
    return out


def bshape(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x != y and 1 not in (x, y):
            return None
        out.append(y if x == 1 else x)
    return tuple(out)


def elementwise(I, f, a, b, st, node):
    x, y = look(I, a, st), look(I, b, st)
    if x is None or y is None:
        return NotImplemented
    sh = bshape(x[0], y[0])
    if sh is None:
        I.event("shape", node, st, expected=x[0], got=y[0])
        I.raise_now(st, "ValueError", node)
    xa, ya = broadcast_to(x, sh), broadcast_to(y, sh)
    return mk(I, st, sh, [f(p, q) for p, q in zip(xa, ya)])


def reduce_axis(I, sv, axis, f, st, keepdims=False):
    shape, flat = sv
    if axis is None:
        r = f(flat)
        return r
    axes = [axis] if isinstance(axis, int) else list(axis)
    axes = [a % len(shape) for a in axes]
    keep = [i for i in range(len(shape)) if i not in axes]
    ss = strides(shape)
    out = []
    for ix in itertools.product(*[range(shape[i]) for i in keep]):
        base = sum(i * ss[a] for i, a in zip(ix, keep))
        out.append(f([flat[base + sum(j * ss[a] for j, a in zip(jx, axes))] for jx in itertools.product(*[range(shape[a]) for a in axes])]))
    if any(r is NotImplemented for r in out):
        return NotImplemented
    sh = [1 if i in axes else shape[i] for i in range(len(shape))] if keepdims else [shape[i] for i in keep]
    return mk(I, st, sh, out)


def f_sum(I, st, node):
    def f(xs):
        t = 0
        for x in xs:
            t = I.binop("Add", t, x, st, node)
        return t

    return f


def math_fn(fn, x):
    """elementwise mathematical function: evaluated for constants, kept as a term otherwise"""
    import math

    if is_num(x):
        try:
            return {"log": math.log, "exp": math.exp, "sqrt": math.sqrt, "log2": math.log2, "log10": math.log10}[fn](x)
        except ValueError:
            return float("-inf") if x == 0 else float("nan")
    return T("mathfn", fn, x)


def np_call(I, name, a, kw, st, node):
    """numpy functions on arrays of known shape; NotImplemented when not modelled"""
    fn = name.split(".")[-1]
    axis = kw.get("axis", a[1] if fn in ("sum", "max", "min", "any", "all", "argmax", "argmin", "mean", "prod", "cumsum") and len(a) > 1 else None)
    if isinstance(axis, Tup):
        axis = axis.items
    if fn in ("zeros", "ones", "empty", "full"):
        sh = I.resolve(a[0] if a else kw.get("shape"), st)
        if isinstance(sh, Tup):
            dims = list(sh.items)
        else:
            c = I.cell(st, sh)
            dims = list(c.items) if c is not None and c.kind == "list" and c.known() else [sh]
        if not all(type(d) is int and d >= 0 for d in dims) or prod(dims) > MAXEL:
            return NotImplemented
        fill = {"zeros": 0, "ones": 1, "empty": T("uninit")}.get(fn, a[1] if len(a) > 1 else kw.get("fill_value"))
        if fn == "empty":
            fill = I.ext.empty_of(fill, kw.get("dtype", a[1] if len(a) > 1 else None))
        return mk(I, st, dims, [fill] * prod(dims))
    if fn in ("vstack", "hstack", "stack", "concatenate", "column_stack"):
        parts = I.concrete_items(a[0], st)
        if parts is None:
            return NotImplemented
        sv = [look(I, p, st) for p in parts]
        if not sv:
            I.raise_now(st, "ValueError", node)
        if any(s is None for s in sv):
            return NotImplemented
        ax = kw.get("axis", a[1] if len(a) > 1 else 0)
        if fn == "vstack":
            sv = [((1,) + s, f) if len(s) == 1 else (s, f) for s, f in sv]
            ax = 0
        elif fn == "hstack":
            ax = 0 if len(sv[0][0]) == 1 else 1
        elif fn == "stack":
            if not isinstance(ax, int):
                return NotImplemented
            if len({s for s, _ in sv}) != 1:
                I.raise_now(st, "ValueError", node)
            nd = len(sv[0][0]) + 1
            ax %= nd
            sv = [(s[:ax] + (1,) + s[ax:], f) for s, f in sv]
        elif fn == "column_stack":
            sv = [(s + (1,), f) if len(s) == 1 else (s, f) for s, f in sv]
            ax = 1
        if not isinstance(ax, int):
            return NotImplemented
        nd = len(sv[0][0])
        if nd == 0:
            return NotImplemented
        ax %= nd
        if any(len(s) != nd or s[:ax] + s[ax + 1 :] != sv[0][0][:ax] + sv[0][0][ax + 1 :] for s, _ in sv):
            I.event("shape", node, st, expected=sv[0][0], got=[s for s, _ in sv])
            I.raise_now(st, "ValueError", node)
        shape = list(sv[0][0])
        shape[ax] = sum(s[ax] for s, _ in sv)
        outer = prod(shape[:ax])
        out = []
        for o in range(outer):
            for s, f in sv:
                blk = prod(s[ax:])
                out.extend(f[o * blk : (o + 1) * blk])
        return mk(I, st, shape, out)
    if not a:
        return NotImplemented
    if fn in ("eye", "identity") and type(a[0]) is int:
        m = kw.get("M", a[1] if len(a) > 1 and fn == "eye" else None)
        k = kw.get("k", a[2] if len(a) > 2 else 0)
        m = a[0] if m is None else m
        if type(m) is not int or type(k) is not int:
            return NotImplemented
        return mk(I, st, (a[0], m), [int(j == i + k) for i in range(a[0]) for j in range(m)])
    sv = look(I, a[0], st)
    if sv is None and fn in ("array", "asarray"):
        return ragged(I, a[0], st, node)
    if sv is None:
        return NotImplemented
    shape, flat = sv
    if fn in ("array", "asarray", "copy", "ascontiguousarray"):
        if not shape:
            return NotImplemented
        c = I.cell(st, a[0])
        if fn != "array" and fn != "copy" and c is not None and c.kind in ("arr", "mat") and len(a) == 1 and not kw:
            return a[0]
        return I.ext.cast(I, mk(I, st, shape, flat), kw.get("dtype", a[1] if len(a) > 1 else None), st)
    if fn in ("zeros_like", "ones_like", "empty_like", "full_like"):
        fill = {"zeros_like": 0, "ones_like": 1, "empty_like": T("uninit")}.get(fn, a[1] if len(a) > 1 else kw.get("fill_value"))
        return mk(I, st, shape, [fill] * len(flat)) if shape else NotImplemented
    if fn == "sum":
        return reduce_axis(I, sv, axis, f_sum(I, st, node), st, kw.get("keepdims") is True)
    if fn in ("any", "all"):
        def g(xs):
            ts = [I.truth(x, st) for x in xs]
            return E.mk_or(ts) if fn == "any" else E.mk_and(ts)

        return reduce_axis(I, sv, axis, g, st)
    if fn in ("max", "min", "amax", "amin"):
        def g(xs):
            r = I.ext.minmax(I, fn[-3:], xs, st) if xs else None
            return NotImplemented if r is None else r

        return reduce_axis(I, sv, axis, g, st)
    if fn in ("argmax", "argmin"):
        def g(xs):
            if not xs or not all(is_num(x) or isinstance(x, bool) for x in xs):
                return NotImplemented
            return xs.index(max(xs) if fn == "argmax" else min(xs))

        return reduce_axis(I, sv, axis, g, st)
    if fn == "count_nonzero" and axis is None and all(is_const(x) for x in flat):
        return sum(1 for x in flat if x)
    if fn in ("where", "nonzero", "flatnonzero", "argwhere") and len(a) == 1:
        if not all(is_const(x) for x in flat) or not shape:
            return NotImplemented
        ixs = [ix for ix, x in zip(itertools.product(*[range(d) for d in shape]), flat) if x]
        if fn == "flatnonzero":
            return mk(I, st, (len(ixs),), [i for i, x in enumerate(flat) if x])
        if fn == "argwhere":
            return mk(I, st, (len(ixs), len(shape)), [j for ix in ixs for j in ix])
        return Tup(tuple(mk(I, st, (len(ixs),), [ix[d] for ix in ixs]) for d in range(len(shape))))
    if fn == "where" and len(a) == 3:
        y, z = look(I, a[1], st), look(I, a[2], st)
        if y is None or z is None:
            return NotImplemented
        sh = bshape(bshape(shape, y[0]) or (), z[0])
        if sh is None:
            return NotImplemented
        cs, ys, zs = (broadcast_to(q, sh) for q in (sv, y, z))
        return mk(I, st, sh, [E.ite(I.truth(p, st), q, r) for p, q, r in zip(cs, ys, zs)])
    if fn == "unique" and all(is_num(x) or isinstance(x, str) for x in flat):
        u = sorted(set(flat))
        res = [mk(I, st, (len(u),), u)]
        if kw.get("return_index") is True:
            res.append(mk(I, st, (len(u),), [flat.index(x) for x in u]))
        if kw.get("return_inverse") is True:
            res.append(mk(I, st, (len(flat),), [u.index(x) for x in flat]))
        if kw.get("return_counts") is True:
            res.append(mk(I, st, (len(u),), [flat.count(x) for x in u]))
        return res[0] if len(res) == 1 else Tup(res)
    if fn in ("transpose",) and len(shape) == 2:
        return mk(I, st, shape[::-1], [flat[i * shape[1] + j] for j in range(shape[1]) for i in range(shape[0])])
    c0 = I.cell(st, a[0]) if fn in ("ravel", "reshape") else None
    if c0 is not None and c0.kind == "mat" and list(c0.pos) == list(range(c0.pos[0], c0.pos[0] + len(c0.pos)) if c0.pos else []):
        # a contiguous array: the result is a view of it
        def mkv(dims):
            return I.new(st, MCell(c0.buf, dims, c0.pos))
    else:
        def mkv(dims):
            return mk(I, st, dims, flat)
    if fn in ("ravel", "flatten"):
        return mkv((len(flat),)) if fn == "ravel" else mk(I, st, (len(flat),), flat)
    if fn == "reshape":
        sh = a[1] if len(a) == 2 else Tup(a[1:])
        dims = list(sh.items) if isinstance(sh, Tup) else [sh]
        if all(type(d) is int for d in dims):
            if -1 in dims:
                r = prod(d for d in dims if d != -1)
                if r and len(flat) % r == 0:
                    dims[dims.index(-1)] = len(flat) // r
            if prod(dims) == len(flat) and -1 not in dims:
                return mkv(tuple(dims))
        return NotImplemented
    if fn in ("hsplit", "vsplit", "split", "array_split") and len(a) > 1:
        ax = (0 if len(shape) == 1 else 1) if fn == "hsplit" else 0 if fn == "vsplit" else kw.get("axis", a[2] if len(a) > 2 else 0)
        cuts = I.concrete_items(a[1], st) if not isinstance(a[1], int) else None
        if type(ax) is not int or not -len(shape) <= ax < len(shape):
            return NotImplemented
        ax %= len(shape)
        n = shape[ax]
        if type(a[1]) is int and a[1] > 0:
            if n % a[1]:
                if fn != "array_split":
                    I.raise_now(st, "ValueError", node)
                k, r = divmod(n, a[1])
                sizes = [k + 1] * r + [k] * (a[1] - r)
            else:
                sizes = [n // a[1]] * a[1]
            ends = list(itertools.accumulate(sizes))
            bounds = list(zip([0] + ends[:-1], ends))
        elif cuts is not None and all(type(x) is int for x in cuts):
            bounds = [range(n)[x:y] for x, y in zip([0] + cuts, cuts + [n])]
            bounds = [(b.start, max(b.stop, b.start)) for b in bounds]
        else:
            return NotImplemented
        ss = strides(shape)
        outs = []
        for lo, hi in bounds:
            sh = list(shape)
            sh[ax] = hi - lo
            outs.append(mk(I, st, sh, [flat[sum((i + (lo if d == ax else 0)) * ss[d] for d, i in enumerate(ix))] for ix in itertools.product(*[range(d) for d in sh])]))
        return I.mklist(st, outs)
    if fn == "squeeze":
        ax = kw.get("axis", a[1] if len(a) > 1 else None)
        if ax is None:
            return mk(I, st, [d for d in shape if d != 1], flat)
        axs = ax.items if isinstance(ax, Tup) else [ax]
        if not all(type(x) is int for x in axs):
            return NotImplemented
        axs = [x % len(shape) for x in axs]
        if any(shape[x] != 1 for x in axs):
            I.raise_now(st, "ValueError", node)
        return mk(I, st, [d for i, d in enumerate(shape) if i not in axs], flat)
    if fn in ("swapaxes",) and len(a) == 3 and all(type(x) is int for x in a[1:]):
        x, y = a[1] % len(shape), a[2] % len(shape)
        perm = list(range(len(shape)))
        perm[x], perm[y] = perm[y], perm[x]
        ss = strides(shape)
        sh = [shape[i] for i in perm]
        return mk(I, st, sh, [flat[sum(i * ss[p] for i, p in zip(ix, perm))] for ix in itertools.product(*[range(d) for d in sh])])
    if fn == "expand_dims" and isinstance(kw.get("axis", a[1] if len(a) > 1 else None), int):
        ax = kw.get("axis", a[1] if len(a) > 1 else None) % (len(shape) + 1)
        return mk(I, st, shape[:ax] + (1,) + shape[ax:], flat)
    if fn in ("isin", "in1d"):
        o = look(I, a[1], st)
        if o is not None and all(is_const(x) for x in flat + o[1]):
            return mk(I, st, shape, [x in o[1] for x in flat])
        return NotImplemented
    if fn in ("logical_not", "invert"):
        return mk(I, st, shape, [E.neg(I.truth(x, st)) for x in flat])
    if fn in ("logical_and", "logical_or") and len(a) == 2:
        g = E.mk_and if fn == "logical_and" else E.mk_or
        return elementwise(I, lambda x, y: g([I.truth(x, st), I.truth(y, st)]), a[0], a[1], st, node)
    if fn == "cumsum" and len(shape) == 1:
        out, t = [], 0
        for x in flat:
            t = I.binop("Add", t, x, st, node)
            out.append(t)
        return mk(I, st, shape, out)
    if fn == "diff" and len(shape) == 1 and len(a) == 1:
        return mk(I, st, (max(len(flat) - 1, 0),), [I.binop("Sub", y, x, st, node) for x, y in zip(flat, flat[1:])])
    if fn in ("log", "exp", "sqrt", "log2", "log10") and len(a) == 1:
        return mk(I, st, shape, [math_fn(fn, x) for x in flat]) if shape else math_fn(fn, flat[0])
    if fn in ("cumsum", "argsort", "sort", "take_along_axis") and len(shape) == 2:
        ax = kw.get("axis", a[1] if len(a) > 1 and fn != "take_along_axis" else a[2] if len(a) > 2 else -1 if fn != "cumsum" else None)
        if ax not in (-1, 1):
            return NotImplemented
        n = shape[1]
        rows = [flat[i * n : (i + 1) * n] for i in range(shape[0])]
        out = []
        if fn == "take_along_axis":
            ix = look(I, a[1], st)
            if ix is None or len(ix[0]) != 2 or ix[0][0] != shape[0] or not all(type(x) is int for x in ix[1]):
                return NotImplemented
            m = ix[0][1]
            for i, r in enumerate(rows):
                out.extend(r[j] for j in ix[1][i * m : (i + 1) * m])
            return mk(I, st, (shape[0], m), out)
        for r in rows:
            if fn == "cumsum":
                t = 0
                for x in r:
                    t = I.binop("Add", t, x, st, node)
                    out.append(t)
            elif not all(is_num(x) for x in r):
                return NotImplemented
            else:
                o = sorted(range(n), key=lambda j: r[j])
                out.extend(o if fn == "argsort" else [r[j] for j in o])
        return mk(I, st, shape, out)
    if fn in ("argsort", "sort") and len(shape) == 1 and all(is_num(x) for x in flat):
        o = sorted(range(len(flat)), key=lambda j: flat[j])
        return mk(I, st, shape, o if fn == "argsort" else [flat[j] for j in o])
    if fn == "clip" and len(a) == 3 and shape:
        lo, hi = a[1], a[2]
        if all(is_num(x) for x in flat) and (lo is None or is_num(lo)) and (hi is None or is_num(hi)):
            def cl(x):
                x = x if lo is None else max(x, lo)
                return x if hi is None else min(x, hi)

            return mk(I, st, shape, [cl(x) for x in flat])
    if fn == "roll" and len(shape) == 1 and type(kw.get("shift", a[1] if len(a) > 1 else None)) is int:
        k = kw.get("shift", a[1] if len(a) > 1 else None)
        n = len(flat)
        return mk(I, st, shape, [flat[(i - k) % n] for i in range(n)])
    if fn == "append" and len(a) > 1 and axis is None and len(a) < 3:
        o = look(I, a[1], st)
        if o is None:
            return NotImplemented
        return mk(I, st, (len(flat) + len(o[1]),), list(flat) + list(o[1]))
    if fn in ("append",) and len(a) > 1:
        return np_call(I, "numpy.concatenate", [I.mklist(st, [a[0], a[1]])], {"axis": kw.get("axis", a[2] if len(a) > 2 else None)}, st, node)
    if fn in ("median", "mean", "average", "std", "ptp", "prod") and axis is None and len(a) == 1 and not kw:
        if not flat or not all(is_num(x) for x in flat):
            return NotImplemented
        import statistics

        if fn == "prod":
            return prod(flat)
        if fn == "ptp":
            return max(flat) - min(flat)
        return float({"median": statistics.median, "mean": lambda v: sum(v) / len(v), "average": lambda v: sum(v) / len(v), "std": statistics.pstdev}[fn](flat))
    if fn in ("flip", "flipud") and len(shape) >= 1 and (fn == "flipud" or axis in (None, 0)) and len(a) == 1:
        if fn == "flip" and axis is None:
            return mk(I, st, shape, list(flat)[::-1])
        n = prod(shape[1:])
        return mk(I, st, shape, [x for i in reversed(range(shape[0])) for x in flat[i * n : (i + 1) * n]])
    if fn == "tile" and len(shape) <= 1 and len(a) > 1 and type(a[1]) is int:
        return mk(I, st, (len(flat) * a[1],), list(flat) * a[1])
    if fn == "repeat" and len(shape) <= 1 and len(a) > 1:
        r = look(I, a[1], st)
        if r is None or not all(type(x) is int and x >= 0 for x in r[1]):
            return NotImplemented
        reps = list(r[1]) * (len(flat) if len(r[1]) == 1 else 1)
        if len(reps) != len(flat):
            I.raise_now(st, "ValueError", node)
        return mk(I, st, (sum(reps),), [x for x, k in zip(flat, reps) for _ in range(k)])
    if fn == "delete" and len(shape) == 1 and len(a) == 2 and not kw:
        ix = look(I, a[1], st)
        if ix is None or not all(type(x) is int for x in ix[1]):
            return NotImplemented
        if any(not -len(flat) <= x < len(flat) for x in ix[1]):
            I.raise_now(st, "IndexError", node)
        gone = {x % len(flat) for x in ix[1]}
        out = [x for i, x in enumerate(flat) if i not in gone]
        return mk(I, st, (len(out),), out)
    if fn == "insert" and len(shape) == 1 and len(a) == 3 and not kw and type(a[1]) is int:
        o = look(I, a[2], st)
        if o is None or not -len(flat) <= a[1] <= len(flat):
            return NotImplemented
        out = list(flat)
        k = a[1] if a[1] >= 0 else a[1] + len(flat)
        out[k:k] = list(o[1])
        return mk(I, st, (len(out),), out)
    if fn == "searchsorted" and len(shape) == 1 and len(a) == 2 and all(is_num(x) for x in flat):
        import bisect

        o = look(I, a[1], st)
        if o is None or not all(is_num(x) for x in o[1]) or "sorter" in kw:
            return NotImplemented
        f = bisect.bisect_right if kw.get("side") == "right" else bisect.bisect_left
        out = [f(list(flat), x) for x in o[1]]
        return mk(I, st, o[0], out) if o[0] else out[0]
    if fn == "bincount" and len(shape) == 1 and all(type(x) is int and x >= 0 for x in flat):
        wt = kw.get("weights", a[1] if len(a) > 1 else None)
        ws = [1] * len(flat) if wt is None else look(I, wt, st)
        ws = ws if wt is None else None if ws is None else list(ws[1])
        n = kw.get("minlength", a[2] if len(a) > 2 else 0)
        if ws is None or type(n) is not int:
            return NotImplemented
        out = [0] * max(n, max(flat, default=-1) + 1)
        for x, y in zip(flat, ws):
            out[x] = I.binop("Add", out[x], y, st, node)
        return mk(I, st, (len(out),), out)
    if fn == "pad" and len(a) > 1 and kw.get("mode", a[2] if len(a) > 2 else "constant") == "constant":
        w = look(I, a[1], st)
        if w is None or not all(type(x) is int and x >= 0 for x in w[1]):
            return NotImplemented
        w = list(w[1])
        nd_ = len(shape)
        w = w * (2 * nd_) if len(w) == 1 else w * nd_ if len(w) == 2 else w
        fill = kw.get("constant_values", 0)
        if len(w) != 2 * nd_ or I.cell(st, fill) is not None or isinstance(fill, Tup):
            return NotImplemented
        sh = [d + w[2 * i] + w[2 * i + 1] for i, d in enumerate(shape)]
        ss = strides(shape)
        out = []
        for ix in itertools.product(*[range(d) for d in sh]):
            jx = [i - w[2 * d] for d, i in enumerate(ix)]
            out.append(flat[sum(j * q for j, q in zip(jx, ss))] if all(0 <= j < d for j, d in zip(jx, shape)) else fill)
        return mk(I, st, sh, out)
    if fn == "array_equal" and len(a) == 2:
        o = look(I, a[1], st)
        if o is None:
            return NotImplemented
        if o[0] != shape:
            return False
        return E.mk_and([I.equal(x, y, st, node) for x, y in zip(flat, o[1])])
    return NotImplemented


def ragged(I, v, st, node):
    """an array of sequences of different lengths: an array of objects"""
    it = I.concrete_items(v, st)
    if not it or any(isinstance(x, Star) for x in it):
        return NotImplemented
    subs = [look(I, x, st) for x in it]
    if any(s is None or not s[0] for s in subs):
        return NotImplemented
    if len({s[0][0] for s in subs}) == 1:
        I.raise_now(st, "ValueError", node)
    return I.ext.mkarr(I, st, it)


def method(I, o, c, name, a, kw, st, node):
    if name in ("copy", "astype"):
        if kw.get("copy") is False:
            return o
        r = mk(I, st, c.shape, values(I, c, st))
        return I.ext.cast(I, r, kw.get("dtype", a[0] if a else None), st) if name == "astype" else r
    if name == "tolist":
        def rec(shape, flat):
            if len(shape) == 1:
                return I.mklist(st, flat)
            n = len(flat) // shape[0] if shape[0] else 0
            return I.mklist(st, [rec(shape[1:], flat[i * n : (i + 1) * n]) for i in range(shape[0])])

        return rec(c.shape, values(I, c, st))
    if name == "fill":
        setitem(I, o, c, SliceV(None, None, None), a[0], st, node)
        return None
    if name in ("sum", "max", "min", "any", "all", "argmax", "argmin", "flatten", "ravel", "reshape", "squeeze", "transpose", "nonzero", "cumsum", "argsort"):
        return np_call(I, "numpy." + name, [o] + list(a), kw, st, node)
    if name in ("numpy", "float", "long", "int", "detach", "cpu", "clone", "double") and not a and not kw:
        return mk(I, st, c.shape, values(I, c, st)) if name in ("float", "long", "int", "clone", "double") else o
    if name == "item" and len(c.pos) == 1:
        return values(I, c, st)[0]
    return NotImplemented
