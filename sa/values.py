"""Abstract values of the analyser: constants, enum members, affine integer forms,
uninterpreted terms (value numbers), gated (phi) values and references to abstract heap cells.

Nothing in this package imports or executes code of the analysed repository; every value below
is derived from the syntax tree of its source.
"""
from fractions import Fraction


class V:
    __slots__ = ()


class EnumV(V):
    """A member of an Enum class of the analysed program."""

    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        return isinstance(o, EnumV) and (self.cls, self.name) == (o.cls, o.name)

    def __hash__(self):
        return hash(("enum", self.cls, self.name))

    def __repr__(self):
        return f"{self.cls}.{self.name}"


class T(V):
    """An uninterpreted term: operator plus arguments (arguments are values)."""

    __slots__ = ("op", "args", "_h")

    def __init__(self, op, *args):
        self.op, self.args = op, args
        self._h = hash(("T", op, tuple((type(a).__name__, a) for a in args)))

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, T) or self._h != o._h or self.op != o.op:
            return False
        return len(self.args) == len(o.args) and all(
            same(a, b) for a, b in zip(self.args, o.args)
        )

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.op == "sym":
            return str(self.args[0])
        if self.op == "attr":
            return f"{self.args[0]!r}.{self.args[1]}"
        if self.op == "item":
            return f"{self.args[0]!r}[{self.args[1]!r}]"
        if self.op == "ite":
            return f"({self.args[1]!r} if {self.args[0]!r} else {self.args[2]!r})"
        return f"{self.op}({', '.join(map(repr, self.args))})"


class Lin(V):
    """Affine form  sum(coef * atom) + const  (at least one atom)."""

    __slots__ = ("terms", "const", "_h")

    def __init__(self, terms, const):
        self.terms = terms  # tuple of (atom, coef), canonical order
        self.const = const
        self._h = hash(("Lin", terms, const))

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.terms == o.terms and (
            self.const == o.const
        )

    def __hash__(self):
        return self._h

    def __repr__(self):
        s = " + ".join((f"{c}*{a!r}" if c != 1 else repr(a)) for a, c in self.terms)
        return f"({s} + {self.const})" if self.const else f"({s})"


class Ref(V):
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return f"&{self.id}"


class Tup(V):
    __slots__ = ("items", "_h")

    def __init__(self, items):
        self.items = tuple(items)
        self._h = hash(("tup", tuple((type(a).__name__, a) for a in self.items)))

    def __eq__(self, o):
        return (
            isinstance(o, Tup)
            and self._h == o._h
            and len(self.items) == len(o.items)
            and all(same(a, b) for a, b in zip(self.items, o.items))
        )

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ",)"


class Star(V):
    """`vals` for every index of a loop over `it` (guard may restrict it): a summarised part of
    a list whose length is not known."""

    __slots__ = ("idx", "it", "val", "guard", "_h")

    def __init__(self, idx, it, val, guard):
        self.idx, self.it, self.val, self.guard = idx, it, val, guard
        self._h = hash(("star", idx, it, val, guard))

    def __eq__(self, o):
        return isinstance(o, Star) and (self.idx, self.it, self.guard) == (
            o.idx,
            o.it,
            o.guard,
        ) and same(self.val, o.val)

    def __hash__(self):
        return self._h

    def __repr__(self):
        g = "" if self.guard is True else f" if {self.guard!r}"
        return f"*[{self.val!r} for {self.idx!r} in {self.it!r}{g}]"


class FuncV(V):
    __slots__ = ("mod", "node", "closure", "qual", "cls", "kind", "defaults")

    def __init__(self, mod, node, closure, qual, cls=None, kind="func", defaults=None):
        self.mod, self.node, self.closure, self.qual = mod, node, closure, qual
        self.cls, self.kind, self.defaults = cls, kind, defaults

    def __eq__(self, o):
        return isinstance(o, FuncV) and o.node is self.node

    def __hash__(self):
        return hash(("func", self.qual, id(self.node)))

    def __repr__(self):
        return f"<fn {self.qual}>"


class BoundV(V):
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.fn == self.fn and same(o.self_, self.self_)

    def __hash__(self):
        return hash(("bound", self.fn, self.self_))

    def __repr__(self):
        return f"<bound {self.fn!r} of {self.self_!r}>"


class BMeth(V):
    """A method of a builtin-modelled value (list.append, str.split, ndarray.copy, ...)."""

    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __eq__(self, o):
        return isinstance(o, BMeth) and o.name == self.name and same(o.obj, self.obj)

    def __hash__(self):
        return hash(("bm", self.name, self.obj))

    def __repr__(self):
        return f"<{self.obj!r}.{self.name}>"


class ClassV(V):
    __slots__ = ("mod", "node", "qual", "name", "bases", "attrs", "is_enum", "members")

    def __init__(self, mod, node, qual, name, bases):
        self.mod, self.node, self.qual, self.name = mod, node, qual, name
        self.bases, self.attrs, self.is_enum, self.members = bases, {}, False, []

    def __hash__(self):
        return hash(("class", self.qual))

    def __eq__(self, o):
        return isinstance(o, ClassV) and o.qual == self.qual

    def __repr__(self):
        return f"<class {self.name}>"

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                if isinstance(c, ClassV):
                    todo.extend(c.bases)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassV) and name in c.attrs:
                return c.attrs[name], c
        return None, None

    def ext_bases(self):
        return [c for c in self.mro() if not isinstance(c, ClassV)]


class ModV(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(("mod", self.name))

    def __repr__(self):
        return f"<mod {self.name}>"


class ExtV(V):
    """Something from outside the repository, identified by dotted name (numpy.zeros, ...)."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return f"<{self.name}>"


class SliceV(V):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, SliceV) and all(
            same(a, b) for a, b in zip((self.lo, self.hi, self.step), (o.lo, o.hi, o.step))
        )

    def __hash__(self):
        return hash(("slice", self.lo, self.hi, self.step))

    def __repr__(self):
        return f"{self.lo}:{self.hi}:{self.step}"


NUM = (int, float, Fraction)


def is_const(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes, Fraction))


def is_num(v):
    return isinstance(v, NUM) and not isinstance(v, bool)


def same(a, b):
    """Structural identity that keeps True/1/1.0 apart where it matters (bool vs int)."""
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    try:
        return bool(a == b)
    except Exception:
        return a is b


def sym(name):
    return T("sym", name)


# ------------------------------------------------------------------ affine arithmetic


def akey(a):
    return repr(a)


def to_lin(v):
    """-> (dict atom->coef, const) or None when the value cannot be numeric."""
    if isinstance(v, bool):
        return {}, int(v)
    if isinstance(v, NUM):
        return {}, v
    if isinstance(v, Lin):
        return dict(v.terms), v.const
    if isinstance(v, T) and v.op != "ite":
        return {v: 1}, 0
    return None


def _norm(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def mk_lin(d, c):
    """Canonical affine value; folds  k*fdiv(e,k) + mod(e,k)  back into e."""
    d = {a: _norm(k) for a, k in d.items() if k != 0}
    c = _norm(c)
    # fdiv(e,k)*k*m == m*(e - mod(e,k))
    for a in list(d):
        if isinstance(a, T) and a.op == "fdiv" and a in d:
            e, k = a.args
            co = d[a]
            if isinstance(k, int) and isinstance(co, int) and k != 0 and co % k == 0:
                m = co // k
                del d[a]
                el, ec = to_lin(e)
                for x, y in el.items():
                    d[x] = d.get(x, 0) + m * y
                c += m * ec
                md = T("mod", e, k)
                d[md] = d.get(md, 0) - m
                d = {x: _norm(y) for x, y in d.items() if y != 0}
    if not d:
        return c
    if len(d) == 1 and c == 0:
        (a, k), = d.items()
        if k == 1:
            return a
    return Lin(tuple(sorted(d.items(), key=lambda t: akey(t[0]))), c)


def lin_add(a, b, sign=1):
    da, ca = to_lin(a)
    db, cb = to_lin(b)
    d = dict(da)
    for x, y in db.items():
        d[x] = d.get(x, 0) + sign * y
    return mk_lin(d, ca + sign * cb)


def lin_scale(a, k):
    da, ca = to_lin(a)
    return mk_lin({x: y * k for x, y in da.items()}, ca * k)


def mk_mod(e, k):
    """canonical e mod k for a positive integer constant k"""
    le = to_lin(e)
    d, c = le
    if not all(isinstance(y, int) for y in d.values()) or not isinstance(c, int):
        if not d:
            return c % k
        return T("mod", e, k)
    changed = True
    while changed:
        changed = False
        for a in list(d):
            if isinstance(a, T) and a.op == "mod" and isinstance(a.args[1], int) and (
                a.args[1] % k == 0
            ):
                co = d.pop(a)
                el, ec = to_lin(a.args[0])
                if not all(isinstance(y, int) for y in el.values()) or not isinstance(ec, int):
                    d[a] = co
                    continue
                for x, y in el.items():
                    d[x] = d.get(x, 0) + co * y
                c += co * ec
                changed = True
    d = {x: y % k for x, y in d.items() if y % k}
    c = c % k
    if not d:
        return c
    return T("mod", mk_lin(d, c), k)


def walk(v):
    """All sub-values of a value."""
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if isinstance(x, (V,)):
            if id(x) in seen:
                continue
            seen.add(id(x))
        yield x
        if isinstance(x, T):
            todo.extend(x.args)
        elif isinstance(x, Lin):
            todo.extend(a for a, _ in x.terms)
        elif isinstance(x, Tup):
            todo.extend(x.items)
        elif isinstance(x, Star):
            todo.extend([x.it, x.val, x.guard])
        elif isinstance(x, SliceV):
            todo.extend([x.lo, x.hi, x.step])
        elif isinstance(x, BMeth):
            todo.append(x.obj)
        elif isinstance(x, BoundV):
            todo.append(x.self_)
        elif isinstance(x, tuple):
            todo.extend(x)
