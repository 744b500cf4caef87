"""Abstract interpreter over the syntax trees of the analysed repository.

Domain: constants, enum members, affine integer forms with interval facts, uninterpreted terms
(value numbering), gated values at control-flow joins, abstract heap cells for lists, dicts,
sets, arrays and objects.  Branches on undecided conditions are analysed on both sides and
joined (gated phi values); loops over collections of unknown size are summarised by one
generic iteration (assigned variables are havoc'ed, appends and sums become summaries).
Calls into the repository are inlined (bounded depth); external calls become uninterpreted
terms unless modelled in ext.py.  The repository is never imported or executed.
"""
import ast
import copy
import builtins
import os
from fractions import Fraction

from .values import (
    NUM,
    BMeth,
    BoundV,
    ClassV,
    EnumV,
    ExtV,
    FuncV,
    Lin,
    ModV,
    Ref,
    SliceV,
    Star,
    T,
    Tup,
    V,
    is_const,
    is_num,
    lin_add,
    lin_scale,
    mk_lin,
    mk_mod,
    same,
    sym,
    to_lin,
    walk,
)

MAX_DEPTH = 40
MAX_UNROLL = 6000


class AnalysisBroken(Exception):
    """The analysis cannot answer (anchor vanished, unsupported program shape)."""


# ------------------------------------------------------------------ heap cells


class Cell:
    kind = "?"
    origin = None


class LCell(Cell):
    kind = "list"

    def __init__(self, items, unordered=False, origin=None, pytype="list"):
        self.items, self.unordered, self.origin = tuple(items), unordered, origin
        self.pytype = pytype

    def known(self):
        return not any(isinstance(i, Star) for i in self.items)


class DCell(Cell):
    kind = "dict"

    def __init__(self, items, default=None, origin=None, open_=False):
        self.items, self.default, self.origin = tuple(items), default, origin
        self.open = open_  # may hold further unknown entries

    def get(self, k):
        for a, b in self.items:
            if same(a, k):
                return b
        return None

    def has(self, k):
        return any(same(a, k) for a, _ in self.items)


class SCell(Cell):
    kind = "set"

    def __init__(self, items, origin=None):
        out = []
        for i in items:
            if not any(same(i, j) for j in out):
                out.append(i)
        self.items, self.origin = tuple(out), origin


class ACell(Cell):
    """1-d numpy array of known length: base cells plus a log of symbolic writes."""

    kind = "arr"

    def __init__(self, cells, writes=(), origin=None, view=None, unordered=False):
        self.cells, self.writes, self.origin = tuple(cells), tuple(writes), origin
        self.view = view  # (ref, offset) when this array is a view of another one
        self.unordered = unordered


class OCell(Cell):
    kind = "obj"

    def __init__(self, cls, attrs, origin=None):
        self.cls, self.attrs, self.origin = cls, dict(attrs), origin


LOST = -1
# un-modelled operations met so far (see kit.section: a section which met one reports no violation)
UNKNOWN = []


class LostCell(Cell):
    kind = "lost"

    def __init__(self, why):
        self.why = why


class Exc(V):
    __slots__ = ("cls", "args", "node")

    def __init__(self, cls, args=(), node=None):
        self.cls, self.args, self.node = cls, args, node

    def __repr__(self):
        return f"<exc {self.cls}>"

    def __eq__(self, o):
        return isinstance(o, Exc) and o.cls == self.cls

    def __hash__(self):
        return hash(("exc", self.cls))


EXC_PARENTS = {
    "SystemExit": "BaseException",
    "KeyboardInterrupt": "BaseException",
    "GeneratorExit": "BaseException",
    "KeyError": "LookupError",
    "IndexError": "LookupError",
    "LookupError": "Exception",
    "ValueError": "Exception",
    "TypeError": "Exception",
    "AttributeError": "Exception",
    "AssertionError": "Exception",
    "NotImplementedError": "RuntimeError",
    "RuntimeError": "Exception",
    "StopIteration": "Exception",
    "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception",
    "FileNotFoundError": "OSError",
    "FileExistsError": "OSError",
    "OSError": "Exception",
    "Exception": "BaseException",
    "ArgumentError": "Exception",
}


def exc_is(cls, parent):
    while cls is not None:
        if cls == parent:
            return True
        nxt = EXC_PARENTS.get(cls)
        if nxt is None and cls not in ("BaseException", "Exception"):
            nxt = "Exception"
        cls = nxt
    return False


# ------------------------------------------------------------------ state


class St:
    __slots__ = ("env", "heap", "fld", "facts", "fset", "iv", "yields")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.fld = {}
        self.facts = ()
        self.fset = frozenset()
        self.iv = {}
        self.yields = None

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.fld = dict(self.fld)
        s.facts = self.facts
        s.fset = self.fset
        s.iv = dict(self.iv)
        s.yields = self.yields
        return s


class Dead(Exception):
    """Current path ends (an exception was certainly raised)."""


def neg(c):
    if isinstance(c, bool):
        return not c
    if isinstance(c, T):
        if c.op == "not":
            return c.args[0]
        if c.op == "le0":
            return mk_lt0(lin_scale(c.args[0], -1))
        if c.op == "lt0":
            return mk_le0(lin_scale(c.args[0], -1))
        if c.op == "and":
            return mk_or([neg(x) for x in c.args])
        if c.op == "or":
            return mk_and([neg(x) for x in c.args])
    return T("not", c)


INT_OPS = {"mod", "fdiv", "idx", "len", "int"}


def atom_is_int(a):
    if isinstance(a, T):
        if a.op == "sym" and len(a.args) > 1 and a.args[1] == "int":
            return True
        return a.op in INT_OPS
    return False


def is_intval(e):
    if isinstance(e, bool) or isinstance(e, int):
        return True
    if isinstance(e, Lin):
        return isinstance(e.const, int) and all(
            isinstance(c, int) and atom_is_int(a) for a, c in e.terms
        )
    return atom_is_int(e)


def mk_le0(e):
    if is_num(e):
        return e <= 0
    return T("le0", _scale_norm(e))


def mk_lt0(e):
    if is_num(e):
        return e < 0
    if is_intval(e):
        return mk_le0(lin_add(e, 1))
    return T("lt0", _scale_norm(e))


def _scale_norm(e):
    if isinstance(e, Lin) and len(e.terms) == 1:
        k = abs(e.terms[0][1])
        if k != 1 and not is_intval(e):
            return lin_scale(e, Fraction(1) / Fraction(k)) if not isinstance(k, float) else e
    return e


def mk_eq0(e):
    if is_num(e):
        return e == 0
    e2 = lin_scale(e, -1)
    return T("eq0", e if repr(e) <= repr(e2) else e2)


def mk_and(cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if isinstance(c, T) and c.op == "and":
            out.extend(x for x in c.args if x not in out)
        elif c not in out:
            out.append(c)
    for c in out:
        if neg(c) in out:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return T("and", *sorted(out, key=repr))


def mk_or(cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        if isinstance(c, T) and c.op == "or":
            out.extend(x for x in c.args if x not in out)
        elif c not in out:
            out.append(c)
    for c in out:
        if neg(c) in out:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return T("or", *sorted(out, key=repr))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return neg(c)
    if isinstance(c, T) and c.op == "not":
        return ite(c.args[0], b, a)
    if isinstance(c, T) and c.op in ("le0", "lt0"):
        n = neg(c)
        if repr(n) < repr(c):
            return T("ite", n, b, a)
    if isinstance(a, T) and a.op == "ite" and a.args[0] == c:
        a = a.args[1]
    if isinstance(b, T) and b.op == "ite" and b.args[0] == c:
        b = b.args[2]
    if same(a, b):
        return a
    return T("ite", c, a, b)


def is_ite(v):
    return isinstance(v, T) and v.op == "ite"


def leaves(v, guard=True):
    """(guard, leaf) pairs of a gated value."""
    if is_ite(v):
        c, a, b = v.args
        yield from leaves(a, mk_and([guard, c]))
        yield from leaves(b, mk_and([guard, neg(c)]))
    else:
        yield guard, v


# ------------------------------------------------------------------ modules


class Module:
    def __init__(self, name, path, rel, tree, src):
        self.name, self.path, self.rel, self.tree, self.src = name, path, rel, tree, src
        self.env = None
        self.loading = False


class Repo:
    """All Python sources of the repository, parsed."""

    SKIP = ("tests", "build", ".git", "dist", "docs")

    def __init__(self, root):
        self.root = root
        self.mods = {}
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(
                x for x in dirs if not x.startswith(".") and x not in ("tests", "build", "dist")
                and not x.endswith(".egg-info")
            )
            for f in sorted(files):
                if not f.endswith(".py") or f.startswith("test_") or f == "conftest.py":
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                self.mods[name] = Module(name, p, rel, ast.parse(src, p), src)
        if not self.mods:
            raise AnalysisBroken(f"no sources under {root}")
        md = os.path.join(os.path.dirname(os.path.abspath(__file__)), "models")
        for f in sorted(os.listdir(md)):
            if f.endswith(".py") and f[:-3] not in self.mods:
                p = os.path.join(md, f)
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                self.mods[f[:-3]] = Module(f[:-3], p, "model:" + f, ast.parse(src, p), src)


# library classes analysed from a source model
MODELLED = {
    "torch.utils.data.dataloader.DataLoader": "vtorch.DataLoader", "torch.utils.data.DataLoader": "vtorch.DataLoader",
    "h5py.File": "vdata.File", "numpy.random.seed": "vdata.seed", "numpy.random.shuffle": "vdata.shuffle",
    "torch.utils.data.Dataset": "vtorch.Dataset", "torch.utils.data.dataset.Dataset": "vtorch.Dataset",
}


BUILTINS = set(dir(builtins)) | {"__file__", "__name__"}


class Frame:
    def __init__(self, mod, fn):
        self.mod, self.fn = mod, fn
        self.returns = []
        self.breaks = []
        self.conts = []


def stored_names(fn):
    """names a function binds anywhere in its body"""
    r = STORED.get(id(fn))
    if r is None:
        out, glob = set(), set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                glob |= set(n.names)
        r = (fn, out - glob)
        STORED[id(fn)] = r
    return r[1]


STORED = {}


def kind_of(v):
    if v is None:
        return "none"
    if isinstance(v, str) or isinstance(v, T) and v.op in ("sconcat", "srepeat"):
        return "str"
    if isinstance(v, Tup):
        return "tup"
    if isinstance(v, EnumV):
        return "enum"
    if isinstance(v, (ClassV, FuncV, ModV)):
        return "def"
    if isinstance(v, (bool, int, float, Fraction)):
        return "num"
    if isinstance(v, Lin):
        return "num"
    if isinstance(v, T) and v.op == "sym" and v.args[-1] in ("int", "nn", "frac"):
        return "num"
    return None


def legal_op(op, a, b):
    """False only when Python certainly raises TypeError"""
    if a is None or b is None:
        return True
    if a == "num" and b == "num":
        return True
    if op == "Mod" and a == "str":
        return True
    if op == "Add":
        return a == b and a in ("str", "tup")
    if op == "Mult":
        return {a, b} in ({"str", "num"}, {"tup", "num"})
    if op == "BitOr" and "def" in (a, b):
        return True
    return False


class Interp:
    def __init__(self, root="/repo"):
        self.max_rec = 3
        self.repo = Repo(root)
        self.root = root
        self.nref = 0
        self.views = {}
        self.gheap = {}
        self.view_bases = {}
        self.gmut = False
        self.stack = []
        self.raises = [[]]
        self.events = []
        self.mute = 0
        self.idepth = 0
        self.uid = 0
        self._opaque = 0
        self._stored = None
        self.funcs_seen = set()
        self.no_inline = set()
        self.hooks = {}
        self.modelled = dict(MODELLED)
        self.fs = None
        self.types = {}  # term -> ClassV  (declared types of opaque terms)
        self.infer = None
        self.set_rev = False  # analyse with the opposite iteration order of sets
        self.type_memo = {}
        self.max_budget = 3_000_000
        self.budget = self.max_budget
        from . import ext

        self.ext = ext

    # -------------------------------------------------------------- heap
    @property
    def opaque_ops(self):
        return self._opaque

    @opaque_ops.setter
    def opaque_ops(self, v):
        if v > self._opaque and not self.gmut:
            UNKNOWN.append(self.opaque_name or "operation")
        self.opaque_name = None
        self._opaque = v

    opaque_name = None

    def new(self, st, cell):
        self.nref += 1
        r = Ref(self.nref)
        (self.gheap if self.gmut else st.heap)[r.id] = cell
        return r

    def cell(self, st, v):
        if not isinstance(v, Ref):
            return None
        c = st.heap.get(v.id)
        return c if c is not None else self.gheap.get(v.id)

    def put(self, st, r, cell):
        if self.gmut:
            self.gheap[r.id] = cell
        else:
            st.heap[r.id] = cell
        if r.id in self.views:
            # an object and its __dict__ are one thing
            for other in self.views[r.id]:
                o = self.cell(st, other)
                if o is None or o.kind == cell.kind:
                    continue
                if o.kind == "obj" and cell.kind == "dict" and all(isinstance(k, str) for k, _ in cell.items):
                    new = OCell(o.cls, dict(cell.items), o.origin)
                elif o.kind == "dict" and cell.kind == "obj":
                    new = DCell(list(cell.attrs.items()), o.default, o.origin, o.open)
                else:
                    continue
                (self.gheap if self.gmut else st.heap)[other.id] = new
                for third in self.views[other.id]:
                    if third.id != r.id and new.kind == "obj":
                        (self.gheap if self.gmut else st.heap)[third.id] = cell

    def dictview(self, st, o, c):
        r = self.new(st, DCell(list(c.attrs.items())))
        self.views.setdefault(r.id, []).append(o)
        self.views.setdefault(o.id, []).append(r)
        return r

    def mklist(self, st, items, **k):
        return self.new(st, LCell(items, **k))

    # -------------------------------------------------------------- events
    def event(self, kind, node, st, **data):
        """a hook for analyses which look at every step; none does at present (keeping the states costs gigabytes)"""

    def where(self, node):
        fr = self.stack[-1] if self.stack else None
        ln = getattr(node, "lineno", 0)
        return f"{fr.mod.rel if fr else '?'}:{ln}"

    def effect(self, node, st, op, target, path, value=None):
        self.event("effect", node, st, op=op, target=target, path=path, value=value)

    # -------------------------------------------------------------- modules
    def module(self, name):
        m = self.repo.mods.get(name)
        if m is None:
            return None
        if m.env is None and not m.loading:
            m.loading = True
            st = St()
            m.env = st.env
            st.env["__name__"] = name
            old = (self.gmut, self.stack, self.raises, self.mute, self.idepth)
            self.gmut, self.stack, self.raises, self.idepth = True, [Frame(m, None)], [[]], 0
            try:
                for x in m.tree.body:
                    try:
                        r = self.stmt(x, st)
                    except Dead:
                        continue
                    if r is not None:
                        st = r
                    m.env = st.env
            finally:
                self.gmut, self.stack, self.raises, self.mute, self.idepth = old
            m.loading = False
        return m

    def get(self, dotted):
        """Value of a repository definition, by dotted path (module.attr[.attr])."""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            name = ".".join(parts[:i])
            if name in self.repo.mods:
                m = self.module(name)
                v = None
                cur = m.env
                for p in parts[i:]:
                    if isinstance(cur, dict):
                        v = cur.get(p)
                    elif isinstance(cur, ClassV):
                        v = cur.lookup(p)[0]
                    else:
                        v = None
                    if v is None:
                        raise AnalysisBroken(f"anchor vanished: {dotted}")
                    cur = v
                return v
        raise AnalysisBroken(f"anchor vanished: module of {dotted}")

    # -------------------------------------------------------------- facts
    def assume(self, st, c):
        """Add condition c to the facts of st (in place). Returns False if contradictory."""
        d = self.decide(c, st)
        if d is True:
            return True
        if d is False:
            return False
        if isinstance(c, T) and c.op == "and":
            return all(self.assume(st, x) for x in c.args)
        st.facts = st.facts + (c,)
        st.fset = st.fset | {c}
        if isinstance(c, T) and c.op in ("le0", "lt0", "eq0"):
            self.add_iv(st, c.op, c.args[0])
        return True

    def add_iv(self, st, op, e):
        d, c = to_lin(e)
        # normalise on the first atom
        key, k = self._combo(d)
        # sum(d) + c (op) 0, with sum(d) = k * combo
        bound = Fraction(-c) / Fraction(k) if not isinstance(c, float) else -c / k
        if isinstance(bound, Fraction) and all(atom_is_int(a) for a, _ in key):
            import math

            ints = all(isinstance(y, int) for _, y in key)
        else:
            ints = False
        lo, hi = st.iv.get(key, (None, None))
        if op == "eq0":
            lo = bound if lo is None else max(lo, bound)
            hi = bound if hi is None else min(hi, bound)
        elif k > 0:
            if ints:
                import math

                bound = math.floor(bound)
            hi = bound if hi is None else min(hi, bound)
        else:
            if ints:
                import math

                bound = math.ceil(bound)
            lo = bound if lo is None else max(lo, bound)
        st.iv[key] = (lo, hi)

    @staticmethod
    def _combo(d):
        items = sorted(d.items(), key=lambda t: repr(t[0]))
        k = items[0][1]
        kk = k
        items = tuple(
            (a, (Fraction(c) / Fraction(kk) if not isinstance(c, float) else c / kk))
            for a, c in items
        )
        items = tuple((a, int(c) if isinstance(c, Fraction) and c.denominator == 1 else c) for a, c in items)
        return items, k

    def bounds(self, e, st, depth=0):
        """(lo, hi) of a numeric value, None = unbounded."""
        if is_ite(e):
            l1, h1 = self.bounds(e.args[1], st)
            l2, h2 = self.bounds(e.args[2], st)
            return (
                None if l1 is None or l2 is None else min(l1, l2),
                None if h1 is None or h2 is None else max(h1, h2),
            )
        le = to_lin(e)
        if le is None:
            return None, None
        d, c = le
        if not d:
            return c, c
        key, k = self._combo(d)

        def scaled(iv):
            lo, hi = iv
            if k < 0:
                lo, hi = hi, lo
            return (
                None if lo is None else lo * k + c,
                None if hi is None else hi * k + c,
            )

        lo, hi = None, None
        if key in st.iv:
            lo, hi = scaled(st.iv[key])
        # per-atom sum
        slo, shi = c, c
        for a, co in d.items():
            al, ah = self.atom_bounds(a, st)
            if co < 0:
                al, ah = ah, al
            slo = None if slo is None or al is None else slo + al * co
            shi = None if shi is None or ah is None else shi + ah * co
        if lo is None or (slo is not None and slo > lo):
            lo = slo
        if hi is None or (shi is not None and shi < hi):
            hi = shi
        # one known combination plus per-atom rest
        if depth == 0 and len(d) > 1 and len(st.iv) < 60:
            for ck, civ in st.iv.items():
                if len(ck) < 2 or not all(a in d for a, _ in ck):
                    continue
                m = Fraction(d[ck[0][0]])
                rest = dict(d)
                for a, co in ck:
                    rest[a] = rest[a] - m * co
                rest = {a: co for a, co in rest.items() if co != 0}
                if len(rest) >= len(d):
                    continue
                cl, ch = civ
                if m < 0:
                    cl, ch = ch, cl
                rl, rh = self.bounds(mk_lin(rest, c), st, 1)
                if cl is not None and rl is not None:
                    x = cl * m + rl
                    lo = x if lo is None else max(lo, x)
                if ch is not None and rh is not None:
                    x = ch * m + rh
                    hi = x if hi is None else min(hi, x)
        return lo, hi

    def atom_bounds(self, a, st):
        lo, hi = st.iv.get(((a, 1),), (None, None))
        if isinstance(a, T):
            if a.op == "mod" and isinstance(a.args[1], int) and a.args[1] > 0:
                lo = 0 if lo is None else max(lo, 0)
                hi = a.args[1] - 1 if hi is None else min(hi, a.args[1] - 1)
            elif a.op == "fdiv" and isinstance(a.args[1], int) and a.args[1] > 0:
                l2, h2 = self.bounds(a.args[0], st, 1)
                if l2 is not None:
                    x = l2 // a.args[1]
                    lo = x if lo is None else max(lo, x)
                if h2 is not None:
                    x = h2 // a.args[1]
                    hi = x if hi is None else min(hi, x)
            elif a.op in ("len", "idx"):
                lo = 0 if lo is None else max(lo, 0)
            elif a.op == "abs":
                lo = 0 if lo is None else max(lo, 0)
            elif a.op == "max":
                for x in a.args:
                    l2, _ = self.bounds(x, st, 1)
                    if l2 is not None:
                        lo = l2 if lo is None else max(lo, l2)
                hs = [self.bounds(x, st, 1)[1] for x in a.args]
                if all(h is not None for h in hs):
                    hi = max(hs) if hi is None else min(hi, max(hs))
            elif a.op == "min":
                for x in a.args:
                    _, h2 = self.bounds(x, st, 1)
                    if h2 is not None:
                        hi = h2 if hi is None else min(hi, h2)
                ls = [self.bounds(x, st, 1)[0] for x in a.args]
                if all(l is not None for l in ls):
                    lo = min(ls) if lo is None else max(lo, min(ls))
        return lo, hi

    def decide(self, c, st):
        if isinstance(c, bool):
            return c
        if not isinstance(c, T):
            return None
        if c in st.fset:
            return True
        n = neg(c)
        if isinstance(n, T) and n in st.fset:
            return False
        if c.op == "not":
            d = self.decide(c.args[0], st)
            return None if d is None else not d
        if c.op == "and":
            ds = [self.decide(x, st) for x in c.args]
            if any(d is False for d in ds):
                return False
            return True if all(d is True for d in ds) else None
        if c.op == "or":
            ds = [self.decide(x, st) for x in c.args]
            if any(d is True for d in ds):
                return True
            return False if all(d is False for d in ds) else None
        if c.op in ("le0", "lt0", "eq0"):
            lo, hi = self.bounds(c.args[0], st)
            if c.op == "le0":
                if hi is not None and hi <= 0:
                    return True
                if lo is not None and lo > 0:
                    return False
            elif c.op == "lt0":
                if hi is not None and hi < 0:
                    return True
                if lo is not None and lo >= 0:
                    return False
            else:
                if lo is not None and lo > 0 or hi is not None and hi < 0:
                    return False
                if lo is not None and lo == hi == 0:
                    return True
            return None
        if c.op == "eq":
            a, b = c.args
            for f in st.facts:
                if isinstance(f, T) and f.op == "eq":
                    for x, y in ((f.args[0], f.args[1]), (f.args[1], f.args[0])):
                        for p, q in ((a, b), (b, a)):
                            if same(x, p) and self.distinct(y, q):
                                return False
                if isinstance(f, T) and f.op == "isnone":
                    for p, q in ((a, b), (b, a)):
                        if same(f.args[0], p) and q is not None and is_const(q):
                            return False
            return None
        if c.op == "isnone":
            for f in st.facts:
                if isinstance(f, T) and f.op == "eq" and c.args[0] in f.args:
                    o = f.args[1] if same(f.args[0], c.args[0]) else f.args[0]
                    if isinstance(o, (EnumV,)) or (is_const(o) and o is not None):
                        return False
                if isinstance(f, T) and f.op == "truth" and same(f.args[0], c.args[0]):
                    return False
                if isinstance(f, T) and f.op == "isinstance" and same(f.args[0], c.args[0]):
                    return False
            return None
        if c.op == "truth":
            for f in st.facts:
                if isinstance(f, T) and f.op == "isnone" and same(f.args[0], c.args[0]):
                    return False
            return None
        return None

    @staticmethod
    def distinct(a, b):
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            return a != b
        if is_const(a) and is_const(b):
            return not same(a, b) and a != b
        if isinstance(a, EnumV) and is_const(b) or isinstance(b, EnumV) and is_const(a):
            return True
        return False

    def resolve(self, v, st):
        """Drop gates decided by the facts of st."""
        while is_ite(v):
            d = self.decide(v.args[0], st)
            if d is None:
                return v
            v = v.args[1] if d else v.args[2]
        return v

    # -------------------------------------------------------------- merge
    def merge(self, sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        out = sts[0]
        for s in sts[1:]:
            out = self.merge2(out, s)[0]
        return out

    def merge2(self, a, b, va=None, vb=None):
        n = 0
        for x, y in zip(a.facts, b.facts):
            if x is y or x == y:
                n += 1
            else:
                break
        ga = mk_and(list(a.facts[n:]))
        gb = mk_and(list(b.facts[n:]))
        if ga is True and gb is not True:
            gate = neg(gb)
        else:
            gate = ga
        if gate is True:
            self.uid += 1
            gate = T("unk", f"join{self.uid}")
        s = St()
        s.facts = a.facts[:n]
        g = mk_or([ga, gb])
        if g is not True:
            s.facts = s.facts + (g,)
        s.fset = frozenset(s.facts)
        for f in s.facts:
            if isinstance(f, T) and f.op == "and":
                s.fset = s.fset | set(f.args)
        for k, (lo, hi) in a.iv.items():
            if k in b.iv:
                l2, h2 = b.iv[k]
                s.iv[k] = (
                    None if lo is None or l2 is None else min(lo, l2),
                    None if hi is None or h2 is None else max(hi, h2),
                )
        undef = T("undef")
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            s.env[k] = ite(gate, a.env.get(k, undef), b.env.get(k, undef))
        for k in set(a.fld) | set(b.fld):
            x = a.fld.get(k)
            y = b.fld.get(k)
            if x is None:
                x = T("attr", k[0], k[1])
            if y is None:
                y = T("attr", k[0], k[1])
            s.fld[k] = ite(gate, x, y)
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None:
                x = self.gheap.get(k)
            if y is None:
                y = self.gheap.get(k)
            if x is y or y is None:
                s.heap[k] = x
            elif x is None:
                s.heap[k] = y
            else:
                s.heap[k] = self.merge_cell(gate, x, y)
        if a.yields is not None:
            s.yields = a.yields
        return s, (ite(gate, va, vb) if va is not None or vb is not None else None)

    def merge_cell(self, gate, x, y):
        if x.kind != y.kind:
            return x
        if x.kind == "obj":
            attrs = {}
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                attrs[k] = ite(gate, x.attrs.get(k, T("undef")), y.attrs.get(k, T("undef")))
            return OCell(x.cls, attrs, x.origin)
        if x.kind == "list":
            if len(x.items) == len(y.items):
                return LCell(
                    [p if isinstance(p, Star) else ite(gate, p, q) for p, q in zip(x.items, y.items)]
                    if all(isinstance(p, Star) == isinstance(q, Star) and (not isinstance(p, Star) or p == q) for p, q in zip(x.items, y.items))
                    else [Star(T("idx", "m"), T("alt"), ite(gate, T("items", *x.items), T("items", *y.items)), True)],
                    x.unordered or y.unordered,
                    x.origin,
                    x.pytype,
                )
            n = 0
            while n < min(len(x.items), len(y.items)) and same(x.items[n], y.items[n]):
                n += 1
            rest = []
            for p in x.items[n:]:
                rest.append(self._gated(p, gate))
            for p in y.items[n:]:
                rest.append(self._gated(p, neg(gate)))
            return LCell(x.items[:n] + tuple(rest), x.unordered or y.unordered, x.origin, x.pytype)
        if x.kind == "dict":
            items = []
            for k, v in x.items:
                if y.has(k):
                    items.append((k, ite(gate, v, y.get(k))))
                else:
                    items.append((k, ite(gate, v, T("undef"))))
            for k, v in y.items:
                if not x.has(k):
                    items.append((k, ite(gate, T("undef"), v)))
            return DCell(items, x.default or y.default, x.origin, x.open or y.open)
        if x.kind == "set":
            return SCell(
                [i for i in x.items if i in y.items]
                + [T("maybe", gate, i) for i in x.items if i not in y.items]
                + [T("maybe", neg(gate), i) for i in y.items if i not in x.items],
                x.origin,
            )
        if x.kind == "df" and x.cols == y.cols and x.index == y.index:
            return type(x)(x.cols, [[ite(gate, p, q) for p, q in zip(d, e)] for d, e in zip(x.data, y.data)], x.index, x.names, x.origin)
        if x.kind == "ser" and x.index == y.index:
            return type(x)(x.index, [ite(gate, p, q) for p, q in zip(x.vals, y.vals)], x.names, x.name, x.origin)
        if x.kind == "buf":
            return type(x)([ite(gate, p, q) for p, q in zip(x.vals, y.vals)], x.origin)
        if x.kind == "arr":
            if len(x.cells) == len(y.cells):
                if x.writes == y.writes:
                    return ACell(
                        [ite(gate, p, q) for p, q in zip(x.cells, y.cells)], x.writes, x.origin, x.view
                    )
                n = 0
                while n < min(len(x.writes), len(y.writes)) and x.writes[n] == y.writes[n]:
                    n += 1
                w = list(x.writes[:n])
                w += [(i, ite(gate, v, T("old"))) for i, v in x.writes[n:]]
                w += [(i, ite(gate, T("old"), v)) for i, v in y.writes[n:]]
                if x.cells == y.cells:
                    return ACell(x.cells, w, x.origin, x.view)
                return ACell([T("unkcell")] * len(x.cells), (), x.origin, x.view)
            return ACell([], [(T("alt"), ite(gate, x.cells, y.cells))], x.origin)
        return x

    @staticmethod
    def _gated(p, gate):
        if isinstance(p, Star):
            return Star(p.idx, p.it, p.val, mk_and([p.guard, gate]))
        return Star(T("idx", "one"), T("once"), p, gate)

    # -------------------------------------------------------------- statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            try:
                st = self.stmt(s, st)
            except Dead:
                return None
        return st

    def stmt(self, s, st):
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisBroken("analysis budget exhausted")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.opaque_ops += 1
            return st
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        if isinstance(s.value, ast.Yield):
            v = self.ev(s.value.value, st) if s.value.value else None
            self.do_yield(st, v)
            return st
        if isinstance(s.value, ast.YieldFrom):
            v = self.ev(s.value.value, st)
            if st.yields is not None:
                self.list_extend(st.yields, v, st, s)
            return st
        self.ev(s.value, st)
        return st

    def do_yield(self, st, v):
        if st.yields is not None:
            c = self.cell(st, st.yields)
            self.put(st, st.yields, LCell(c.items + (v,), c.unordered))

    def s_Pass(self, s, st):
        return st

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st):
        for a in s.names:
            if a.asname:
                st.env[a.asname] = self.modval(a.name)
            else:
                st.env[a.name.split(".")[0]] = self.modval(a.name.split(".")[0])
        return st

    def modval(self, name):
        if name in self.repo.mods:
            return ModV(name)
        if any(k.startswith(name + ".") for k in self.repo.mods):
            return ModV(name)
        return ExtV(name)

    def s_ImportFrom(self, s, st):
        base = s.module or ""
        for a in s.names:
            nm = a.asname or a.name
            full = f"{base}.{a.name}"
            if base in self.repo.mods:
                m = self.module(base)
                v = (m.env or {}).get(a.name)
                if v is None and full in self.repo.mods:
                    v = ModV(full)
                if v is None:
                    v = T("import", full)
                st.env[nm] = v
            elif full in self.modelled:
                st.env[nm] = self.get(self.modelled[full])
            else:
                st.env[nm] = self.modval(full)
        return st

    def s_FunctionDef(self, s, st):
        fr = self.stack[-1]
        kind = "func"
        fv = self.mkfunc(s, st, fr)
        st.env[s.name] = fv
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def mkfunc(self, s, st, fr, cls=None):
        kind = "func"
        for d in s.decorator_list:
            nm = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else "")
            if nm in ("staticmethod", "classmethod", "property"):
                kind = nm
        a = s.args
        defs = []
        for d in a.defaults:
            defs.append(self.ev(d, st))
        kwd = [None if d is None else self.ev(d, st) for d in a.kw_defaults]
        qual = (cls.qual + "." if cls else (fr.fn.qual + ".<locals>." if fr.fn else fr.mod.name + ".")) + s.name
        closure = None
        if fr.fn is not None or getattr(self, "in_main", None) is fr:
            closure = st.env
        return FuncV(fr.mod, s, closure, qual, cls, kind, (tuple(defs), tuple(kwd)))

    def s_ClassDef(self, s, st):
        fr = self.stack[-1]
        bases = [self.ev(b, st) for b in s.bases]
        c = ClassV(fr.mod, s, f"{fr.mod.name}.{s.name}", s.name, bases)
        st.env[s.name] = c
        c.is_enum = any(isinstance(b, ExtV) and b.name in ("enum.Enum", "enum.IntEnum") for b in bases)
        st2 = St()
        st2.env = dict(st.env)
        st2.heap = st.heap
        for x in s.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fv = self.mkfunc(x, st2, fr, cls=c)
                for d in x.decorator_list:
                    if isinstance(d, ast.Attribute) and d.attr == "setter":
                        fv = None
                if fv is not None:
                    c.attrs[x.name] = fv
                    st2.env[x.name] = fv
            elif isinstance(x, (ast.Assign, ast.AnnAssign)):
                tg = x.targets[0] if isinstance(x, ast.Assign) else x.target
                if isinstance(tg, ast.Name) and x.value is not None:
                    v = self.ev(x.value, st2)
                    if c.is_enum:
                        if isinstance(v, T):
                            v = len(c.members)
                        dup = [m for m in c.members if same(m.value, v)]
                        if dup:
                            c.attrs[tg.id] = dup[0]
                            continue
                        v = EnumV(c.name, tg.id, v)
                        c.members.append(v)
                    c.attrs[tg.id] = v
                    st2.env[tg.id] = v
        return st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else None
        self.stack[-1].returns.append((st, v))
        return None

    def s_Raise(self, s, st):
        cls, args = "Exception", ()
        if s.exc is None:
            cls = "<reraise>"
        else:
            v = self.ev(s.exc, st)
            if isinstance(v, Exc):
                cls, args = v.cls, v.args
            elif isinstance(v, ExtV):
                cls = v.name.split(".")[-1]
            elif isinstance(v, ClassV):
                cls = v.name
        self.do_raise(st, Exc(cls, args, s), s)
        return None

    def do_raise(self, st, exc, node):
        self.event("raise", node, st, exc=exc)
        self.raises[-1].append((st.copy(), exc))

    def raise_now(self, st, cls, node, args=()):
        self.do_raise(st, Exc(cls, args, node), node)
        raise Dead()

    def may_raise(self, st, cls, node, cond=True):
        s2 = st.copy()
        if cond is not True and not self.assume(s2, cond):
            return
        self.do_raise(s2, Exc(cls, (), node), node)

    def s_Assert(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        d = self.decide(c, st)
        if d is True:
            return st
        if d is False:
            self.do_raise(st, Exc("AssertionError", (), s), s)
            return None
        s2 = st.copy()
        if self.assume(s2, neg(c)):
            self.do_raise(s2, Exc("AssertionError", (), s), s)
        if not self.assume(st, c):
            return None
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                k = self.ev_slice(t.slice, st)
                self.delitem(o, k, st, t)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, st), t.attr, st, t)
        return st

    def delattr(self, o, name, st, node):
        self.effect(node, st, "delattr", o, name)
        c = self.cell(st, o)
        if c is not None and c.kind == "obj" and c.origin is None:
            if name not in c.attrs:
                self.raise_now(st, "AttributeError", node)
            self.put(st, o, OCell(c.cls, {k: v for k, v in c.attrs.items() if k != name}, c.origin))

    def delitem(self, o, k, st, node):
        self.effect(node, st, "delitem", o, k)
        c = self.cell(st, o)
        if c is not None and c.kind == "dict":
            if not c.open and isinstance(k, (str, int)) and all(isinstance(a, (str, int)) and a != k for a, _ in c.items):
                self.raise_now(st, "KeyError", node)
            self.put(st, o, DCell([(a, b) for a, b in c.items if not same(a, k)], c.default, c.origin, c.open))
        elif c is not None and c.kind == "list":
            if c.known() and isinstance(k, int) and -len(c.items) <= k < len(c.items):
                it = list(c.items)
                del it[k]
                self.put(st, o, LCell(it, c.unordered, c.origin, c.pytype))
            else:
                self.put(st, o, LCell([Star(T("idx", "d"), T("deleted", self.freeze(o, st)), T("unk", "del"), True)], c.unordered, c.origin))

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return st

    def s_AugAssign(self, s, st):
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, st, s.target)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, st)
            cur = self.getattr(o, s.target.attr, st, s.target)
        else:
            o = self.ev(s.target.value, st)
            k = self.ev_slice(s.target.slice, st)
            cur = self.getitem(o, k, st, s.target)
        rhs = self.ev(s.value, st)
        c = self.cell(st, cur)
        if c is not None and c.kind == "list" and isinstance(s.op, ast.Add):
            self.list_extend(cur, rhs, st, s)
            v = cur
        elif c is not None and c.kind == "mat":
            r2 = self.binop(type(s.op).__name__, cur, rhs, st, s)
            self.ext.nd.setitem(self, cur, c, SliceV(None, None, None), r2, st, s)
            return st
        elif c is not None and c.kind == "arr":
            self.effect(s, st, "aug", cur, None)
            r2 = self.binop(type(s.op).__name__, cur, rhs, st, s)
            c2 = self.cell(st, r2)
            if c2 is not None and c2.kind == "arr":
                self.ext.arr_put(self, cur, c2.cells, c2.writes, st, s)
                v = cur
            else:
                self.ext.havoc(self, cur, st, s, "aug")
                v = r2
        else:
            if not is_const(cur) and not isinstance(cur, (Lin, EnumV, Tup, Ref)) :
                # in-place operators on opaque objects may mutate them (arrays, frames)
                self.effect(s, st, "aug", cur, None, rhs)
            v = self.binop(type(s.op).__name__, cur, rhs, st, s)
            c2 = self.cell(st, v)
            if c is not None and c.kind in ("list", "set", "dict"):
                # these operators change the object itself
                self.effect(s, st, "aug", cur, None, rhs)
                if c2 is not None and c2.kind == c.kind:
                    c2 = copy.copy(c2)
                    c2.origin = c.origin
                    self.put(st, cur, c2)
                    v = cur
                else:
                    self.ext.havoc(self, cur, st, s, "aug")
        if isinstance(s.target, ast.Name):
            st.env[s.target.id] = v
        elif isinstance(s.target, ast.Attribute):
            self.setattr(o, s.target.attr, v, st, s)
        else:
            self.setitem(o, k, v, st, s)
        return st

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            if self.gmut and len(self.stack) == 1 and isinstance(v, T) and v.op == "undef":
                return
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.ev_slice(t.slice, st)
            self.setitem(o, k, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def unpack(self, t, v, st):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        v = self.resolve(v, st)
        items = self.concrete_items(v, st)
        if items is not None:
            if star:
                i = star[0]
                after = n - i - 1
                parts = items[:i] + [self.mklist(st, items[i : len(items) - after])] + (
                    items[len(items) - after :] if after else []
                )
            else:
                if len(items) != n:
                    self.event("unpack", t, st, expected=n, got=len(items))
                    self.raise_now(st, "ValueError", t)
                parts = items
        elif is_ite(v):
            c, a, b = v.args
            ia, ib = self.concrete_items(a, st), self.concrete_items(b, st)
            if ia is not None and ib is not None and len(ia) == len(ib) == n:
                parts = [ite(c, p, q) for p, q in zip(ia, ib)]
            elif ia is not None and len(ia) == n and b is None:
                parts = [ite(c, p, T("item", None, i)) for i, p in enumerate(ia)]
            else:
                parts = [self.getitem(v, i, st, t) for i in range(n)]
        else:
            parts = [self.getitem(v, i, st, t) for i in range(n)]
        for e, p in zip(t.elts, parts):
            self.assign(e, p, st)

    def s_If(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        d = self.decide(c, st)
        if d is True:
            return self.block(s.body, st)
        if d is False:
            return self.block(s.orelse, st)
        self.event("branch", s, st, cond=c)
        a, b = st.copy(), st.copy()
        ra = self.block(s.body, a) if self.assume(a, c) else None
        rb = self.block(s.orelse, b) if self.assume(b, neg(c)) else None
        return self.merge([ra, rb])

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        pre = st.copy()
        self.raises.append([])
        op0 = self.opaque_ops
        ok = self.block(s.body, st)
        raised = self.raises.pop()
        opaque = self.opaque_ops > op0
        outs = []
        if ok is not None:
            if s.orelse:
                ok = self.block(s.orelse, ok)
            outs.append(ok)
        for h in s.handlers:
            names = self.handler_names(h, pre)
            mine, rest = [], []
            for r in raised:
                (mine if any(exc_is(r[1].cls, n) for n in names) else rest).append(r)
            raised = rest
            hs = None
            if mine:
                hs = self.merge([m[0] for m in mine])
            if opaque:
                hp = pre.copy()
                self.uid += 1
                hp.facts = hp.facts + (T("unk", f"exc@{self.where(h)}"),)
                # assignments of the body may or may not have happened
                for k, v in (ok.env if ok is not None else {}).items():
                    if not (k in hp.env and same(hp.env[k], v)):
                        if k in hp.env:
                            hp.env[k] = ite(T("unk", f"partial@{self.where(h)}"), v, hp.env[k])
                if ok is not None:
                    # heap effects of the body may or may not have happened
                    hp.heap = {**ok.heap, **{k: v for k, v in hp.heap.items()}}
                hs = self.merge([hs, hp]) if hs is not None else hp
            if hs is not None:
                if h.name:
                    hs.env[h.name] = T("sym", f"exc:{h.name}")
                r = self.block(h.body, hs)
                outs.append(r)
        for r in raised:
            self.raises[-1].append(r)
        out = self.merge(outs)
        if s.finalbody:
            if out is not None:
                out = self.block(s.finalbody, out)
            else:
                self.block(s.finalbody, pre.copy())
        return out

    def handler_names(self, h, st):
        if h.type is None:
            return ["BaseException"]
        ns = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [n.id if isinstance(n, ast.Name) else (n.attr if isinstance(n, ast.Attribute) else "Exception") for n in ns]

    def s_Break(self, s, st):
        self.stack[-1].breaks[-1].append(st)
        return None

    def s_Continue(self, s, st):
        self.stack[-1].conts[-1].append(st)
        return None

    # -------------------------------------------------------------- loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        it = self.resolve(it, st)
        items = self.concrete_items(it, st)
        fr = self.stack[-1]
        if items is not None and len(items) <= MAX_UNROLL:
            out_breaks = []
            cur = st
            if isinstance(it, Ref):
                cc = self.cell(st, it)
                if cc is not None and cc.kind == "set":
                    self.event("set_iter", s, st, it=it)
            for x in items:
                fr.breaks.append([])
                fr.conts.append([])
                self.assign(s.target, x, cur)
                r = self.block(s.body, cur)
                br = fr.breaks.pop()
                co = fr.conts.pop()
                out_breaks.extend(br)
                cur = self.merge([r] + co)
                if cur is None:
                    break
            if cur is not None and s.orelse:
                cur = self.block(s.orelse, cur)
            return self.merge([cur] + out_breaks)
        return self.generic_loop(s, st, it)

    def iter_elem(self, it, idx, st):
        """Generic element of an iterable at loop index idx, plus a canonical iterator."""
        if isinstance(it, T):
            if it.op == "range":
                a, b, c = it.args
                if c == 1:
                    return lin_add(a, idx) if to_lin(a) else T("item", it, idx)
                return T("item", it, idx)
            if it.op == "repeated":
                return it.args[0]
            if it.op == "countfrom":
                return lin_add(it.args[0], lin_scale(idx, it.args[1]))
            if it.op == "enumerate":
                a, start = it.args
                return Tup((lin_add(idx, start), self.iter_elem(a, idx, st)))
            if it.op == "zip":
                return Tup(tuple(self.iter_elem(a, idx, st) for a in it.args))
            if it.op == "dictitems":
                k = T("key", it.args[0], idx)
                return Tup((k, T("item", it.args[0], k)))
            if it.op == "dictkeys":
                return T("key", it.args[0], idx)
            if it.op == "dictvalues":
                return T("item", it.args[0], T("key", it.args[0], idx))
            if it.op == "reversed":
                return T("item", it, idx)
            if it.op == "product":
                return Tup(tuple(T("item", a, T("idx", idx.args[0], n)) for n, a in enumerate(it.args)))
        c = self.cell(st, it)
        if c is not None and c.kind == "list":
            if len(c.items) == 1 and isinstance(c.items[0], Star) and c.items[0].idx != idx:
                s = c.items[0]
                return subst(s.val, s.idx, idx)
            return T("item", self.freeze(it, st), idx)
        if c is not None and c.kind == "dict":
            return T("key", self.freeze(it, st), idx)
        return T("item", it, idx)

    def freeze_iter(self, it, st):
        return self.freeze(it, st)

    def loop_index(self):
        return T("idx", f"i{self.idepth}")

    def generic_loop(self, s, st, it):
        """for-loop over an iterable of unknown size."""
        fr = self.stack[-1]
        idx = self.loop_index()
        itf = self.freeze(it, st)
        # pass 1: discover what the body modifies
        self.mute += 1
        self.idepth += 1
        p1 = st.copy()
        raises_len = len(self.raises[-1])
        nret = len(fr.returns)
        saved_budget = self.budget
        fr.breaks.append([])
        fr.conts.append([])
        self.raises.append([])
        if isinstance(s, ast.For):
            self.assign(s.target, self.iter_elem(it, idx, p1), p1)
        else:
            c = self.truth(self.ev(s.test, p1), p1)
            if not self.assume(p1, c):
                p1 = None
        r1 = self.block(s.body, p1) if p1 is not None else None
        m1 = self.merge([r1] + fr.conts[-1] + fr.breaks[-1])
        extra = [x[0] for x in fr.returns[nret:]] + [x[0] for x in self.raises[-1]]
        fr.breaks.pop()
        fr.conts.pop()
        self.raises.pop()
        del fr.returns[nret:]
        self.mute -= 1
        # havoc
        h = st.copy()
        hav = {}
        tgt = set()
        if isinstance(s, ast.For):
            tgt = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        self.uid += 1
        tag = f"L{s.lineno}.{self.uid}"
        for src in [m1] + extra:
            if src is None:
                continue
            for k, v in src.env.items():
                if k in st.env and not same(st.env[k], v) and k not in tgt and k not in hav:
                    hav[k] = T("loopvar", k, tag)
                    h.env[k] = hav[k]
            for k, v in src.fld.items():
                if not (k in st.fld and same(st.fld[k], v)) and ("f", k) not in hav:
                    hav[("f", k)] = T("loopvar", f"{k[0]!r}.{k[1]}", tag)
                    h.fld[k] = hav[("f", k)]
            for k, cell in src.heap.items():
                old = st.heap.get(k) or self.gheap.get(k)
                if old is not None and old is not cell and not cell_same(old, cell):
                    self.havoc_cell(h, k, old, cell, hav, tag)
        # pass 2: analyse body from the generic state
        fr.breaks.append([])
        fr.conts.append([])
        b = h.copy()
        b.facts = b.facts + (T("iter", idx, itf),)
        b.fset = frozenset(b.facts) | b.fset
        n_facts = len(b.facts)
        length = self.iter_len(it, st)
        if length is not None:
            self.assume(b, mk_le0(lin_scale(idx, -1)))
            if to_lin(length) is not None:
                self.assume(b, mk_lt0(lin_add(idx, length, -1)))
        if isinstance(s, ast.For):
            self.assign(s.target, self.iter_elem(it, idx, b), b)
            cond = True
        else:
            cond = self.truth(self.ev(s.test, b), b)
            if not self.assume(b, cond):
                b = None
        gbase = len(b.facts) if b is not None else 0
        r2 = self.block(s.body, b) if b is not None else None
        br = fr.breaks.pop()
        co = fr.conts.pop()
        self.idepth -= 1
        end = self.merge([r2] + co)
        # state after the loop (normal exit)
        out = h.copy()
        out.facts, out.fset, out.iv = st.facts, st.fset, dict(st.iv)
        if end is not None:
            for k, hv in hav.items():
                if isinstance(k, str):
                    x0, x1 = st.env[k], end.env.get(k)
                    out.env[k] = self.summarise(hv, x0, x1, itf, idx, br)
                elif k[0] == "f":
                    x0 = st.fld.get(k[1], T("attr", k[1][0], k[1][1]))
                    out.fld[k[1]] = self.summarise(hv, x0, end.fld.get(k[1]), itf, idx, br)
                else:
                    self.summarise_cell(out, k[1], st, h, end, hv, itf, idx, gbase, br)
            for t in tgt:
                if t in end.env:
                    out.env[t] = T("last", itf, end.env[t] if not isinstance(end.env[t], T) else end.env[t])
            # names first bound inside the body
            for k, v in end.env.items():
                if k not in out.env:
                    out.env[k] = T("lastval", itf, v) if isinstance(v, (T, Lin)) else v
            for k, c2 in end.heap.items():
                if k not in out.heap:
                    out.heap[k] = c2
        if isinstance(s, ast.While) and cond is not True:
            if not self.assume(out, neg(self.truth(self.ev(s.test, out), out))):
                out = None
        if s.orelse and out is not None:
            out = self.block(s.orelse, out)
        brs = []
        for x in br:
            brs.append(x)
        return self.merge([out] + brs)

    def iter_len(self, it, st):
        if isinstance(it, T):
            if it.op == "range":
                a, b, c = it.args
                if c == 1 and to_lin(a) is not None and to_lin(b) is not None:
                    return lin_add(b, a, -1)
                return None
            if it.op == "enumerate":
                return self.iter_len(it.args[0], st)
            if it.op == "zip":
                return None
            return T("len", it)
        return None

    def havoc_cell(self, h, k, old, new, hav, tag):
        if old.kind == "obj":
            attrs = dict(old.attrs)
            for a, v in new.attrs.items():
                if a not in old.attrs or not same(old.attrs[a], v):
                    attrs[a] = T("loopvar", f"&{k}.{a}", tag)
            h.heap[k] = OCell(old.cls, attrs, old.origin)
            hav[("c", k)] = None
        elif old.kind == "list":
            n = len(old.items)
            if len(new.items) >= n and all(same(a, b) for a, b in zip(old.items, new.items)):
                hav[("c", k)] = ("append", n)
                h.heap[k] = LCell(
                    old.items + (Star(T("idx", "p"), T("prev", tag), T("unk", f"prev{tag}"), True),),
                    old.unordered, old.origin, old.pytype,
                )
            else:
                hav[("c", k)] = ("havoc",)
                h.heap[k] = LCell(
                    [Star(T("idx", "p"), T("prev", tag), T("unk", f"prev{tag}"), True)],
                    old.unordered, old.origin, old.pytype,
                )
        elif old.kind == "dict":
            items = [(a, b if same(new.get(a), b) else T("loopvar", f"&{k}[{a!r}]", tag)) for a, b in old.items]
            h.heap[k] = DCell(items, old.default, old.origin, True)
            hav[("c", k)] = ("dict", tag)
        elif old.kind == "set":
            h.heap[k] = SCell(old.items + (T("maybe", T("unk", tag), T("unk", f"prev{tag}")),), old.origin)
            hav[("c", k)] = ("set", tag)
        elif old.kind == "buf":
            h.heap[k] = type(old)([T("unkcell")] * len(old.vals), old.origin)
        elif old.kind == "arr":
            h.heap[k] = ACell([T("unkcell")] * len(old.cells), (), old.origin, old.view)
            hav[("c", k)] = ("arr", tag)

    def summarise_cell(self, out, k, st, h, end, hv, itf, idx, gbase, br):
        old = st.heap.get(k) or self.gheap.get(k)
        e = end.heap.get(k) or self.gheap.get(k)
        hc = h.heap.get(k)
        if e is None or hc is None:
            return
        if old.kind == "list" and hv and hv[0] == "append":
            n = len(hc.items)
            if len(e.items) >= n and e.items[:n] == hc.items:
                stars = []
                for x in e.items[n:]:
                    if isinstance(x, Star) and x.idx == T("idx", "one"):
                        stars.append(Star(idx, itf, x.val, x.guard))
                    elif isinstance(x, Star):
                        stars.append(Star(idx, itf, T("spread", x), True))
                    else:
                        # guard: facts gathered since the loop body began (continue-filters)
                        g = mk_and(list(end.facts[gbase:]))
                        stars.append(Star(idx, itf, x, g))
                if len(stars) == 1:
                    new = stars
                elif stars:
                    new = [Star(idx, itf, T("items", *stars), True)]
                else:
                    new = []
                out.heap[k] = LCell(old.items + tuple(new), old.unordered, old.origin, old.pytype)
                return
        if old.kind == "dict":
            items = list(hc.items)
            extra = [(a, b) for a, b in e.items if not hc.has(a)]
            out.heap[k] = DCell(items + [(T("each", idx, itf, a), b) for a, b in extra], old.default, old.origin, True)
            return
        if old.kind == "set":
            extra = [i for i in e.items if i not in hc.items]
            out.heap[k] = SCell(old.items + tuple(T("each", idx, itf, i) for i in extra), old.origin)
            return
        if old.kind == "obj":
            attrs = dict(hc.attrs)
            for a, v in e.attrs.items():
                h0 = hc.attrs.get(a)
                o0 = old.attrs.get(a, T("undef"))
                if h0 is not None and not same(h0, o0):
                    attrs[a] = self.summarise(h0, o0, v, itf, idx, br)
            out.heap[k] = OCell(old.cls, attrs, old.origin)
            return
        if old.kind == "arr":
            w = [x for x in e.writes]
            out.heap[k] = ACell(old.cells, old.writes + tuple((T("each", idx, itf, i), v) for i, v in w), old.origin, old.view)

    def summarise(self, hv, x0, x1, itf, idx, br):
        """Value of a loop-carried scalar after the loop."""
        if x1 is None:
            return hv
        if same(x1, hv):
            return x0
        lv = to_lin(x1)
        if not br and lv is not None and not is_ite(x1):
            d, c = lv
            if d.get(hv) == 1:
                rest = mk_lin({a: b for a, b in d.items() if a != hv}, c)
                if not any(x == hv for x in walk(rest)) and to_lin(x0) is not None:
                    return lin_add(x0, mk_sum(itf, idx, rest, True))
        if not br and is_ite(x1):
            c, a, b = x1.args
            for g, p, q in ((c, a, b), (neg(c), b, a)):
                if same(q, hv) and to_lin(p) is not None and not is_ite(p):
                    d, k = to_lin(p)
                    if d.get(hv) == 1:
                        rest = mk_lin({y: z for y, z in d.items() if y != hv}, k)
                        if not any(x == hv for x in walk(rest)) and not any(x == hv for x in walk(g)) and to_lin(x0) is not None:
                            return lin_add(x0, mk_sum(itf, idx, rest, g))
        return T("loop", itf, x0, x1)

    def s_While(self, s, st):
        fr = self.stack[-1]
        outs = []
        n = 0
        while True:
            c = self.truth(self.ev(s.test, st), st)
            d = self.decide(c, st)
            if d is False:
                r = self.block(s.orelse, st) if s.orelse else st
                return self.merge([r] + outs)
            if d is None:
                break
            n += 1
            if n > 200:
                break
            fr.breaks.append([])
            fr.conts.append([])
            r = self.block(s.body, st)
            br = fr.breaks.pop()
            co = fr.conts.pop()
            outs.extend(br)
            st = self.merge([r] + co)
            if st is None:
                return self.merge(outs)
            if n >= 3 and outs and s.test and isinstance(s.test, ast.Constant):
                break
        acc = self.accelerate(s, st)
        if acc is not None:
            return self.merge([acc] + outs)
        r = self.generic_loop(s, st, T("while", s.lineno))
        return self.merge([r] + outs)

    def accelerate(self, s, st):
        """Affine loop: every assigned variable changes by a constant per iteration.  The
        state after the loop is expressed with one fresh iteration count n >= 0."""
        fr = self.stack[-1]
        self.mute += 1
        p = st.copy()
        try:
            c = self.truth(self.ev(s.test, p), p)
            ok = self.assume(p, c)
            if not ok:
                return None
            fr.breaks.append([])
            fr.conts.append([])
            self.raises.append([])
            nret = len(fr.returns)
            opq = self.opaque_ops
            r = self.block(s.body, p)
            b, co = fr.breaks.pop(), fr.conts.pop()
            ra = self.raises.pop()
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            if r is None or b or co or ra or rets:
                return None
        finally:
            self.mute -= 1
        if any(not (k in st.heap and st.heap[k] is v) and k in st.heap for k, v in r.heap.items()):
            return None
        if r.fld != st.fld:
            return None
        delta = {}
        for k, v in r.env.items():
            if k in st.env and not same(st.env[k], v):
                if to_lin(v) is None or to_lin(st.env[k]) is None or is_ite(v) or is_ite(st.env[k]):
                    return None
                dd = lin_add(v, st.env[k], -1)
                if not isinstance(dd, int):
                    return None
                delta[k] = dd
        if not delta:
            return None
        self.uid += 1
        n = T("sym", f"n@{s.lineno}.{self.uid}", "int")
        out = st.copy()
        self.assume(out, mk_le0(lin_scale(n, -1)))
        for k, dd in delta.items():
            out.env[k] = lin_add(st.env[k], lin_scale(n, dd))
        # after the loop the test fails; before the last iteration it held (or n == 0)
        c1 = self.truth(self.ev(s.test, out), out)
        if isinstance(c1, T) and c1.op in ("le0", "lt0"):
            # one-sided exit value:  value after last iteration is within one step of the bound
            e = c1.args[0]
            step = to_lin(e)[0].get(n, 0)
            lo0, hi0 = self.bounds(c.args[0], st) if isinstance(c, T) else (None, None)
        if not self.assume(out, neg(c1)):
            return None
        if isinstance(c1, T) and c1.op in ("le0", "lt0") and step < 0:
            return None
        if isinstance(c1, T) and c1.op == "le0":
            # before last iteration: e - step <= 0  -> e <= step ; if n == 0: e <= hi0
            hi = step if hi0 is None else max(step, hi0)
            if hi0 is not None:
                self.assume(out, mk_le0(lin_add(e, -hi)))
        return out

    # -------------------------------------------------------------- expressions
    def ev(self, n, st):
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisBroken("analysis budget exhausted")
        return getattr(self, "e_" + type(n).__name__, self.e_other)(n, st)

    def e_other(self, n, st):
        self.opaque_ops += 1
        return T("unk", f"{type(n).__name__}@{self.where(n)}")

    def e_Constant(self, n, st):
        if n.value is Ellipsis:
            return T("ellipsis")
        return n.value

    def e_Name(self, n, st):
        return self.lookup(n.id, st, n)

    def lookup(self, name, st, node):
        if name in st.env:
            return st.env[name]
        for fr in reversed(self.stack):
            if fr.fn is not None and fr.fn.closure is not None and name in fr.fn.closure:
                return fr.fn.closure[name]
            if fr is self.stack[-1]:
                break
        fr = self.stack[-1]
        if fr.fn is not None:
            c = fr.fn.closure
            if c is not None and name in c:
                return c[name]
        m = fr.mod
        if m.env is not None and name in m.env:
            return m.env[name]
        if name in BUILTINS:
            return ExtV("builtins." + name)
        if name in EXC_PARENTS or name.endswith("Error") or name in ("Exception", "BaseException"):
            return ExtV("builtins." + name)
        self.event("undefined", node, st, name=name)
        if fr.fn is not None and name in stored_names(fr.fn.node):
            self.raise_now(st, "UnboundLocalError", node)
        if (fr.fn is not None or getattr(self, "in_main", None) is fr) and m.env is not None and not any(isinstance(x, ast.ImportFrom) and x.names[0].name == "*" for x in ast.walk(m.tree)) and name not in stored_names(m.tree):
            self.raise_now(st, "NameError", node)
        return T("undef", name)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_Attribute(self, n, st):
        o = self.ev(n.value, st)
        return self.getattr(o, n.attr, st, n)

    def e_Tuple(self, n, st):
        return Tup(self.ev_elts(n.elts, st))

    def e_List(self, n, st):
        return self.mklist(st, self.ev_elts(n.elts, st))

    def ev_elts(self, elts, st):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                it = self.concrete_items(v, st)
                if it is None:
                    out.append(Star(T("idx", "s"), self.freeze(v, st), T("item", self.freeze(v, st), T("idx", "s")), True))
                else:
                    out.extend(it)
            else:
                out.append(self.ev(e, st))
        return out

    def e_Set(self, n, st):
        return self.new(st, SCell(self.ev_elts(n.elts, st)))

    def e_Dict(self, n, st):
        items = []
        open_ = False
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(v, st)
                c = self.cell(st, d)
                if c is not None and c.kind == "dict":
                    for a, b in c.items:
                        items = [(x, y) for x, y in items if not same(x, a)] + [(a, b)]
                else:
                    open_ = True
                continue
            kv, vv = self.ev(k, st), self.ev(v, st)
            items = [(x, y) if not same(x, kv) else (x, vv) for x, y in items] if any(
                same(x, kv) for x, _ in items
            ) else items + [(kv, vv)]
        return self.new(st, DCell(items, open_=open_))

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, st)
                if v.format_spec is not None:
                    fs = self.ev(v.format_spec, st)
                    parts.append(T("format", self.freeze(x, st), fs))
                    continue
                parts.append(self.to_str(x, st, v.conversion == 114))
        return self.concat_str(parts)

    def to_str(self, x, st, rep=False):
        x = self.resolve(x, st)
        if is_ite(x):
            return ite(x.args[0], self.to_str(x.args[1], st, rep), self.to_str(x.args[2], st, rep))
        if isinstance(x, str):
            return repr(x) if rep else x
        if isinstance(x, (bool, int, float)) or x is None:
            return str(x)
        c = self.cell(st, x)
        if c is not None and c.kind == "obj" and isinstance(c.cls, ClassV) and c.cls.mod.rel.startswith("model:"):
            m = c.cls.lookup("__str__")[0]
            if m is not None:
                return self.call(self.getattr(x, "__str__", st, m.node), [], {}, st, m.node)
        if isinstance(x, EnumV):
            return f"{x.cls}.{x.name}"
        if isinstance(x, Fraction):
            return str(x)
        if isinstance(x, T) and x.op == "sconcat":
            return x
        return T("str", self.freeze(x, st))

    def concat_str(self, parts):
        parts = list(parts)
        for i, p in enumerate(parts):
            if is_ite(p):
                return ite(
                    p.args[0],
                    self.concat_str(parts[:i] + [p.args[1]] + parts[i + 1 :]),
                    self.concat_str(parts[:i] + [p.args[2]] + parts[i + 1 :]),
                ) if sum(map(is_ite, parts)) <= 3 else T("sconcat", *parts)
        out = []
        for p in parts:
            ps = p.args if isinstance(p, T) and p.op == "sconcat" else (p,)
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != "":
                    out.append(q)
        if not out:
            return ""
        if len(out) == 1:
            return out[0]
        return T("sconcat", *out)

    def e_FormattedValue(self, n, st):
        return self.to_str(self.ev(n.value, st), st)

    def e_IfExp(self, n, st):
        c = self.truth(self.ev(n.test, st), st)
        d = self.decide(c, st)
        if d is True:
            return self.ev(n.body, st)
        if d is False:
            return self.ev(n.orelse, st)
        a, b = st.copy(), st.copy()
        va = vb = None
        ra = rb = True
        try:
            if not self.assume(a, c):
                ra = False
            else:
                va = self.ev(n.body, a)
        except Dead:
            ra = False
        try:
            if not self.assume(b, neg(c)):
                rb = False
            else:
                vb = self.ev(n.orelse, b)
        except Dead:
            rb = False
        if ra and rb:
            m, _ = self.merge2(a, b)
            facts, fset, iv = st.facts, st.fset, st.iv
            self.become(st, m)
            st.facts, st.fset, st.iv = facts, fset, iv
            return ite(c, va, vb)
        if ra:
            self.become(st, a)
            return va
        if rb:
            self.become(st, b)
            return vb
        raise Dead()

    @staticmethod
    def become(st, o):
        st.env, st.heap, st.fld = o.env, o.heap, o.fld
        st.facts, st.fset, st.iv, st.yields = o.facts, o.fset, o.iv, o.yields

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        acc = None
        cur = st
        facts0 = (st.facts, st.fset, dict(st.iv))
        vals = []
        conds = []
        tmp = st
        for i, x in enumerate(n.values):
            try:
                v = self.ev(x, tmp)
            except Dead:
                # evaluation of this operand certainly raises here
                break
            c = self.truth(v, tmp)
            vals.append(v)
            conds.append(c)
            d = self.decide(c, tmp)
            if i == len(n.values) - 1:
                break
            if (d is False and is_and) or (d is True and not is_and):
                break
            if tmp is st:
                tmp = st.copy()
            if not self.assume(tmp, c if is_and else neg(c)):
                break
        if not vals:
            raise Dead()
        if tmp is not st:
            st.heap, st.env, st.fld = tmp.heap, tmp.env, tmp.fld
        # drop decided operands
        allbool = all(isinstance(v, bool) or self.is_cond(v) for v in vals)
        if allbool:
            return mk_and(vals) if is_and else mk_or(vals)
        # value semantics
        res = vals[-1]
        for v, c in zip(reversed(vals[:-1]), reversed(conds[:-1])):
            d = self.decide(c, st)
            if is_and:
                res = ite(c if d is None else d, res, v)
            else:
                res = ite(c if d is None else d, v, res)
        return res

    @staticmethod
    def is_cond(v):
        return isinstance(v, T) and v.op in (
            "le0", "lt0", "eq0", "eq", "is", "in", "not", "and", "or", "truth", "isnone",
            "isinstance", "any", "all", "cond",
        )

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            c = self.truth(v, st)
            d = self.decide(c, st)
            return neg(c) if d is None else not d
        v = self.resolve(v, st)
        if isinstance(n.op, ast.USub):
            return self.lift1(v, lambda x: self.neg_num(x, st))
        if isinstance(n.op, ast.UAdd):
            return v
        c = self.cell(st, v)
        if isinstance(n.op, ast.Invert):
            if self.ext.pdm.is_pd(c):
                r = self.ext.pdm.invert(self, v, c, st)
                if r is not NotImplemented:
                    return r
            if c is not None and c.kind in ("arr", "mat"):
                lv = self.ext.nd.look(self, v, st)
                if lv is not None and all(isinstance(x, bool) or self.is_cond(x) for x in lv[1]):
                    return self.ext.nd.mk(self, st, lv[0], [neg(x) for x in lv[1]])
        return T("invert", self.freeze(v, st))

    def neg_num(self, x, st):
        c = self.cell(st, x)
        if c is not None:
            if c.kind in ("arr", "mat", "ser", "df"):
                return self.binop("Mult", x, -1, st, None)
            return T("neg", self.freeze(x, st))
        if to_lin(x) is None:
            return T("neg", x)
        return lin_scale(x, -1)

    def lift1(self, v, f):
        if is_ite(v):
            return ite(v.args[0], self.lift1(v.args[1], f), self.lift1(v.args[2], f))
        return f(v)

    def e_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        return self.binop(type(n.op).__name__, a, b, st, n)

    def binop(self, op, a, b, st, node):
        a, b = self.resolve(a, st), self.resolve(b, st)
        if is_ite(a) and ite_size(a) <= 12:
            return ite(a.args[0], self.under(a.args[0], st, lambda s: self.binop(op, a.args[1], b, s, node)), self.under(neg(a.args[0]), st, lambda s: self.binop(op, a.args[2], b, s, node)))
        if is_ite(b) and ite_size(b) <= 12:
            return ite(b.args[0], self.under(b.args[0], st, lambda s: self.binop(op, a, b.args[1], s, node)), self.under(neg(b.args[0]), st, lambda s: self.binop(op, a, b.args[2], s, node)))
        ca, cb = self.cell(st, a), self.cell(st, b)
        if ca is not None or cb is not None:
            r = self.ext.cell_binop(self, op, a, b, ca, cb, st, node)
            if r is not NotImplemented:
                return r
            stem = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "BitAnd": "and", "BitOr": "or"}.get(op)
            for x, c, y, nm in ((a, ca, b, f"__{stem}__"), (b, cb, a, f"__r{stem}__")):
                if c is not None and c.kind == "obj" and isinstance(c.cls, ClassV):
                    f, _ = c.cls.lookup(nm)
                    if isinstance(f, FuncV):
                        return self.call(self.getattr(x, nm, st, node), [y], {}, st, node)
            if all(isinstance(x, str) or c is not None and c.kind == "obj" and isinstance(c.cls, ClassV) and c.cls.mod.rel.startswith("model:") for x, c in ((a, ca), (b, cb))):
                self.raise_now(st, "TypeError", node)
            self.opaque_ops += 1
            return T("bin" + op, self.freeze(a, st), self.freeze(b, st))
        if op == "Add":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if self.strish(a) or self.strish(b):
                return self.concat_str([a, b])
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
        if op == "Mult":
            for p, q in ((a, b), (b, a)):
                if isinstance(p, str):
                    if isinstance(q, int):
                        return p * q
                    return T("srepeat", p, q)
                if isinstance(p, Tup) and isinstance(q, int):
                    return Tup(p.items * q)
        if op == "Mod" and isinstance(a, str):
            return T("strfmt", a, self.freeze(b, st))
        la, lb = to_lin(a), to_lin(b)
        if la is None or lb is None:
            # definite type errors are reported, everything else is opaque
            if not legal_op(op, kind_of(a), kind_of(b)) and not (isinstance(a, EnumV) and self.enum_ops(a) or isinstance(b, EnumV) and self.enum_ops(b)):
                self.raise_now(st, "TypeError", node)
            self.event("badop", node, st, op=op, a=a, b=b)
            self.opaque_ops += 1
            return T("bin" + op, self.freeze(a, st), self.freeze(b, st))
        if op == "Add":
            return lin_add(a, b)
        if op == "Sub":
            return lin_add(a, b, -1)
        ka = la[1] if not la[0] else None
        kb = lb[1] if not lb[0] else None
        if op == "Mult":
            if kb is not None:
                return lin_scale(a, kb)
            if ka is not None:
                return lin_scale(b, ka)
            x, y = sorted((a, b), key=repr)
            return T("mul", x, y)
        if op == "Div":
            if kb is not None:
                if kb == 0:
                    self.raise_now(st, "ZeroDivisionError", node)
                if ka is not None:
                    return ka / kb
                if isinstance(kb, int):
                    return T("div", a, kb)
            return T("div", a, b)
        if op == "FloorDiv":
            if kb is not None and ka is not None and kb != 0:
                return ka // kb
            if isinstance(kb, int) and kb > 0:
                return self.fdiv(a, kb, st)
            return T("fdiv", a, b)
        if op == "Mod":
            if kb is not None and ka is not None and kb != 0:
                return ka % kb
            if isinstance(kb, int) and kb > 0:
                lo, hi = self.bounds(a, st)
                if lo is not None and hi is not None and lo >= 0 and hi < kb and is_intval(a):
                    return a
                return mk_mod(a, kb)
            return T("mod", a, b)
        if op == "Pow" and ka is not None and kb is not None:
            return ka**kb
        if op in ("BitAnd", "BitOr") and isinstance(a, bool) and isinstance(b, bool):
            return (a and b) if op == "BitAnd" else (a or b)
        if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift") and isinstance(a, int) and isinstance(b, int):
            return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}.get(op, a << b if op == "LShift" and b < 64 else a >> max(b, 0))
        return T("bin" + op, a, b)

    def enum_ops(self, e):
        """does the enum class define or inherit arithmetic?"""
        c = self.enum_class(e)
        if c is None:
            return True
        if any(str(getattr(b, "name", b)).split(".")[-1] not in ("Enum", "object") for b in c.ext_bases()):
            return True
        return any(k.startswith("__") and k[2:-2].lstrip("ri") in ("add", "sub", "mul", "truediv", "floordiv", "mod", "and", "or", "xor", "getattr") for b in c.mro() if isinstance(b, ClassV) for k in b.attrs)

    def never_stored(self, name, cls):
        """no code of the repository sets an attribute of that name (or sets attributes dynamically)"""
        if self._stored is None:
            self._stored, self._dyn = set(), set()
            for m in self.repo.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                        self._stored.add(n.attr)
                    elif isinstance(n, ast.ClassDef):
                        for b in n.body:
                            for t in ast.walk(b):
                                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                                    self._stored.add(t.id)
                                elif isinstance(t, (ast.FunctionDef, ast.ClassDef)):
                                    self._stored.add(t.name)
                    elif isinstance(n, ast.Name) and n.id == "setattr" or isinstance(n, ast.Attribute) and n.attr == "__dict__":
                        self._dyn.add(m.name)
        return not any(isinstance(b, ClassV) and b.mod.name in self._dyn for b in cls.mro()) and name not in self._stored and not name.startswith("__")

    def under(self, cond, st, f):
        """evaluate f in a copy of st where cond holds (value only)"""
        s = st.copy()
        if not self.assume(s, cond):
            return T("bottom")
        try:
            v = f(s)
        except Dead:
            return T("bottom")
        for k, c in s.heap.items():
            if k not in st.heap:
                st.heap[k] = c
        return v

    def fdiv(self, a, k, st):
        d, c = to_lin(a)
        if all(isinstance(y, int) for y in d.values()) and isinstance(c, int):
            q = {x: y // k for x, y in d.items() if y % k == 0}
            r = {x: y for x, y in d.items() if y % k != 0}
            q_c, r_c = divmod(c, k)
            rest = mk_lin(r, r_c)
            lo, hi = self.bounds(rest, st)
            if lo is not None and hi is not None and lo // k == hi // k:
                return mk_lin(q, q_c + lo // k)
            if q or q_c:
                return lin_add(mk_lin(q, q_c), T("fdiv", rest, k))
        return T("fdiv", a, k)

    @staticmethod
    def strish(v):
        return isinstance(v, str) or (
            isinstance(v, T) and v.op in ("sconcat", "srepeat", "str", "strmeth", "format", "strfmt", "strslice")
        )

    # -------------------------------------------------------------- comparisons
    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        conds = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, st)
            conds.append(self.compare(type(op).__name__, left, right, st, n))
            left = right
        if len(conds) == 1:
            return conds[0]
        if all(isinstance(c, bool) or self.is_cond(c) for c in conds):
            return mk_and(conds)
        return mk_and([self.truth(c, st) for c in conds])

    def compare(self, op, a, b, st, node):
        a, b = self.resolve(a, st), self.resolve(b, st)
        if is_ite(a) and ite_size(a) <= 12:
            return self.bite(a.args[0], self.compare(op, a.args[1], b, st, node), self.compare(op, a.args[2], b, st, node))
        if is_ite(b) and ite_size(b) <= 12:
            return self.bite(b.args[0], self.compare(op, a, b.args[1], st, node), self.compare(op, a, b.args[2], st, node))
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b)
            return neg(r) if op == "IsNot" else r
        if op not in ("In", "NotIn"):
            xa, xb = self.cell(st, a), self.cell(st, b)
            if self.ext.pdm.is_pd(xa) or self.ext.pdm.is_pd(xb):
                r = self.ext.pdm.elementwise(self, op, a, b, st, node, cmp_=True)
                if r is not NotImplemented:
                    return r
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b, st, node)
            return neg(r) if op == "NotEq" else r
        if op in ("In", "NotIn"):
            r = self.contains(a, b, st, node)
            return neg(r) if op == "NotIn" else r
        # ordering
        xa, xb = self.cell(st, a), self.cell(st, b)
        if xa is not None and xa.kind in ("arr", "mat") or xb is not None and xb.kind in ("arr", "mat"):
            r = self.ext.nd.elementwise(self, lambda p, q: self.compare(op, p, q, st, node), a, b, st, node)
            if r is not NotImplemented:
                return r
        if isinstance(a, str) and isinstance(b, str) or isinstance(a, Tup) and isinstance(b, Tup) and all(
            is_const(x) for x in a.items + b.items
        ):
            x = a if isinstance(a, str) else a.items
            y = b if isinstance(b, str) else b.items
            return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]
        if isinstance(a, Tup) and isinstance(b, Tup):
            strict = op[0] + op[1]
            n = min(len(a.items), len(b.items))
            r = {"Lt": len(a.items) < len(b.items), "LtE": len(a.items) <= len(b.items), "Gt": len(a.items) > len(b.items), "GtE": len(a.items) >= len(b.items)}[op]
            for x, y in list(zip(a.items, b.items))[n - 1 :: -1] if n else []:
                e = self.truth(self.compare("Eq", x, y, st, node), st)
                if e is True:
                    continue
                c = self.truth(self.compare(strict, x, y, st, node), st)
                r = c if e is False else mk_or([c, mk_and([e, r])])
            return r
        if isinstance(a, EnumV) or isinstance(b, EnumV):
            return self.enum_order(op, a, b, st, node)
        oc = self.cell(st, a)
        ob = self.cell(st, b)
        if oc is not None and ob is not None and oc.kind == ob.kind == "list" and oc.pytype == ob.pytype == "list":
            xs, ys = self.concrete_items(a, st), self.concrete_items(b, st)
            if xs is not None and ys is not None:
                return self.compare(op, Tup(xs), Tup(ys), st, node)
        if oc is not None and oc.kind == "obj" and isinstance(oc.cls, ClassV):
            nm = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
            f, _ = oc.cls.lookup(nm)
            if f is not None:
                return self.truth(self.call(BoundV(f, a), [b], {}, st, node), st)
            nm2 = {"Lt": "__gt__", "LtE": "__ge__", "Gt": "__lt__", "GtE": "__le__"}[op]
            ob = self.cell(st, b)
            if ob is not None and ob.kind == "obj" and isinstance(ob.cls, ClassV):
                f, _ = ob.cls.lookup(nm2)
                if f is not None:
                    return self.truth(self.call(BoundV(f, b), [a], {}, st, node), st)
        la, lb = to_lin(a), to_lin(b)
        if la is not None and lb is not None:
            if op == "Lt":
                return mk_lt0(lin_add(a, b, -1))
            if op == "LtE":
                return mk_le0(lin_add(a, b, -1))
            if op == "Gt":
                return mk_lt0(lin_add(b, a, -1))
            return mk_le0(lin_add(b, a, -1))
        self.opaque_ops += 1
        fa, fb = self.freeze(a, st), self.freeze(b, st)
        if op in ("Gt", "GtE"):
            fa, fb, op = fb, fa, {"Gt": "Lt", "GtE": "LtE"}[op]
        return T("cond", "cmp" + op, fa, fb)

    def bite(self, c, a, b):
        """boolean ite"""
        if isinstance(a, bool) and isinstance(b, bool):
            return ite(c, a, b)
        if a is True:
            return mk_or([c, b])
        if a is False:
            return mk_and([neg(c), b])
        if b is True:
            return mk_or([neg(c), a])
        if b is False:
            return mk_and([c, a])
        return mk_or([mk_and([c, a]), mk_and([neg(c), b])])

    def enum_order(self, op, a, b, st, node):
        for x, y, nm in ((a, b, {"Lt": "__lt__", "Gt": "__gt__", "LtE": "__le__", "GtE": "__ge__"}[op]),
                         (b, a, {"Lt": "__gt__", "Gt": "__lt__", "LtE": "__ge__", "GtE": "__le__"}[op])):
            if isinstance(x, EnumV):
                c = self.enum_class(x)
                if c is not None:
                    f, _ = c.lookup(nm)
                    if f is not None:
                        return self.truth(self.call(BoundV(f, x), [y], {}, st, node), st)
        self.event("badop", node, st, op=op, a=a, b=b)
        return T("cond", "cmp" + op, self.freeze(a, st), self.freeze(b, st))

    def enum_class(self, x):
        for m in self.repo.mods.values():
            if m.env:
                c = m.env.get(x.cls)
                if isinstance(c, ClassV) and c.is_enum and x in c.members:
                    return c
        return None

    def is_same(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ExtV) and x.name.startswith("sys.std") and (is_const(y) or isinstance(y, (Ref, Tup, EnumV))):
                return False
        if a is None and b is None:
            return True
        for x, y in ((a, b), (b, a)):
            if y is None:
                if isinstance(x, (Ref, EnumV, Tup, FuncV, ClassV, ModV, Lin, BoundV, Exc)) or (is_const(x) and x is not None):
                    return False
                if isinstance(x, T):
                    if x.op in ("len", "mod", "fdiv", "idx", "sconcat", "srepeat", "str", "div", "mul", "sum", "range", "nparr", "dtype", "ext:pathlib.Path", "ext:pathlib.PurePath") or self.is_cond(x):
                        return False
                    if x.op == "sym" and len(x.args) > 1 and x.args[1] in ("int", "nn", "frac"):
                        return False
                    return T("isnone", x)
                if isinstance(x, ExtV):
                    return False
        if isinstance(a, (EnumV, bool)) and isinstance(b, (EnumV, bool)):
            return same(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return a == b
        if same(a, b):
            return True
        x, y = sorted((a, b), key=repr)
        return T("is", x, y)

    def equal(self, a, b, st, node):
        if is_const(a) and is_const(b):
            return a == b
        if same(a, b):
            return True
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            return False
        if isinstance(a, EnumV) and is_const(b) or isinstance(b, EnumV) and is_const(a):
            return False
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            return mk_and([self.equal(x, y, st, node) for x, y in zip(a.items, b.items)])
        ca, cb = self.cell(st, a), self.cell(st, b)
        for x, y, c in ((a, b, ca), (b, a, cb)):
            if c is not None and c.kind == "obj" and isinstance(c.cls, ClassV):
                f, _ = c.cls.lookup("__eq__")
                if f is not None:
                    return self.truth(self.call(BoundV(f, x), [y], {}, st, node), st)
        if ca is not None and cb is not None and ca.kind == cb.kind == "obj" and isinstance(ca.cls, ClassV) and isinstance(cb.cls, ClassV) and isinstance(a, Ref) and isinstance(b, Ref) and self.plain_eq(ca.cls) and self.plain_eq(cb.cls):
            return a == b
        if ca is not None and cb is not None and ca.kind == cb.kind == "list" and ca.known() and cb.known():
            if len(ca.items) != len(cb.items):
                return False
            return mk_and([self.equal(x, y, st, node) for x, y in zip(ca.items, cb.items)])
        if ca is not None and ca.kind == "mat" or cb is not None and cb.kind == "mat":
            r = self.ext.nd.elementwise(self, lambda p, q: self.equal(p, q, st, node), a, b, st, node)
            if r is not NotImplemented:
                return r
        if ca is not None and ca.kind == "arr" or cb is not None and cb.kind == "arr":
            r = self.ext.arr_eq(self, a, b, ca, cb, st)
            if r is not None:
                return r
        if ca is not None or cb is not None:
            if is_const(a) or is_const(b) or isinstance(a, EnumV) or isinstance(b, EnumV):
                return False
            x, y = sorted((self.freeze(a, st), self.freeze(b, st)), key=repr)
            if same(x, y):
                return True
            return T("eq", x, y)
        if (is_num(a) or isinstance(a, Lin) or is_num(b) or isinstance(b, Lin)) and to_lin(a) is not None and to_lin(b) is not None:
            return mk_eq0(lin_add(a, b, -1))
        if a is None or b is None:
            x = b if a is None else a
            if isinstance(x, (Lin, Tup, EnumV)):
                return False
            return T("isnone", x) if isinstance(x, T) else T("eq", *sorted((a, b), key=repr))
        # constant-length string facts
        x, y = sorted((a, b), key=repr)
        return T("eq", x, y)

    def plain_eq(self, cls):
        """a class without bases or decorators which could define equality"""
        return all(
            isinstance(k, ClassV) and not k.is_enum and not k.node.decorator_list or isinstance(k, ExtV) and k.name == "builtins.object"
            for k in cls.mro()
        )

    def contains(self, a, b, st, node):
        if isinstance(b, T) and b.op == "dictkeys":
            return self.contains(a, b.args[0], st, node)
        if isinstance(b, T) and b.op == "dictvalues":
            its = self.concrete_items(b, st)
            if its is not None:
                b = Tup(its)
        c = self.cell(st, b)
        if c is not None and c.kind == "obj" and isinstance(c.cls, ClassV):
            f, _ = c.cls.lookup("__contains__")
            if f is not None:
                return self.truth(self.call(BoundV(f, b), [a], {}, st, node), st)
            its = self.concrete_items(b, st)
            if its is not None and len(its) <= 200:
                return mk_or([self.equal(a, i, st, node) for i in its])
        if isinstance(b, str):
            if isinstance(a, str):
                return a in b
            return T("in", self.freeze(a, st), b)
        if isinstance(b, T) and b.op == "range" and b.args[2] == 1 and to_lin(a) is not None:
            lo, hi, _ = b.args
            if to_lin(lo) is not None and to_lin(hi) is not None:
                return mk_and([mk_le0(lin_add(lo, a, -1)), mk_lt0(lin_add(a, hi, -1))])
        items = None
        if c is not None and c.kind == "dict":
            if not c.open:
                items = [k for k, _ in c.items]
            elif c.has(a):
                return True
        elif c is not None and c.kind in ("list", "set"):
            if not any(isinstance(i, Star) or (isinstance(i, T) and i.op in ("maybe", "each")) for i in c.items):
                items = list(c.items)
        elif c is not None and c.kind == "df":
            items = list(c.cols)
        elif c is not None and c.kind in ("pidx", "ser"):
            items = list(c.vals if c.kind == "pidx" else c.index)
            if any(isinstance(i, Tup) for i in items) and not isinstance(a, Tup):
                items = [i.items[0] if isinstance(i, Tup) else i for i in items]
        elif c is not None and c.kind == "arr":
            items = self.ext.nd.arr_values(self, c, st)
        elif isinstance(b, Tup):
            items = list(b.items)
        elif isinstance(b, ClassV) and b.is_enum:
            items = list(b.members)
        if is_const(b) or isinstance(b, (EnumV, Lin)):
            self.event("badop", node, st, op="In", a=a, b=b)
        if items is not None:
            if len(items) > 3 and all(type(i) is int for i in items) and sorted(items) == list(range(min(items), max(items) + 1)) and to_lin(a) is not None and not is_const(a):
                return mk_and([mk_le0(lin_add(min(items), a, -1)), mk_le0(lin_add(a, max(items), -1))])
            if len(items) <= 200:
                return mk_or([self.equal(a, i, st, node) for i in items])
        return T("in", self.freeze(a, st), self.freeze(b, st))

    def truth(self, v, st):
        v = self.resolve(v, st)
        if isinstance(v, bool):
            return v
        if is_const(v):
            return bool(v)
        if is_ite(v):
            return self.bite(v.args[0], self.truth(v.args[1], st), self.truth(v.args[2], st))
        if self.is_cond(v):
            d = self.decide(v, st)
            return v if d is None else d
        if isinstance(v, Tup):
            return len(v.items) > 0
        c = self.cell(st, v)
        if c is not None:
            if c.kind == "list":
                if c.known():
                    return len(c.items) > 0
                if any(not isinstance(i, Star) for i in c.items):
                    return True
                return T("truth", self.freeze(v, st))
            if c.kind == "dict":
                if c.items and not c.open:
                    return True
                if not c.open:
                    return False
                return T("truth", self.freeze(v, st))
            if c.kind == "set":
                if c.items:
                    return True
                return False
            if c.kind == "arr" and len(c.cells) == 1 and not c.writes:
                return self.truth(c.cells[0], st)
            if c.kind == "arr" or c.kind == "mat":
                n_ = len(c.cells) if c.kind == "arr" else len(c.pos)
                if n_ == 0:
                    return False
                if n_ > 1:
                    self.raise_now(st, "ValueError", None)
            if self.ext.pdm.is_pd(c):
                n_ = self.ext.pdm.length(c)
                if n_ == 1 and c.kind == "ser":
                    return self.truth(c.vals[0], st)
                if c.kind in ("df", "ser"):
                    self.raise_now(st, "ValueError", None)
                return T("truth", self.freeze(v, st))
            if c.kind == "mat" and len(c.pos) == 1:
                return self.truth(self.ext.nd.values(self, c, st)[0], st)
            if c.kind == "obj":
                if isinstance(c.cls, ClassV):
                    for nm in ("__bool__", "__len__"):
                        f, _ = c.cls.lookup(nm)
                        if f is not None:
                            return self.truth(self.call(BoundV(f, v), [], {}, st, None), st)
                return True
            return T("truth", v)
        if isinstance(v, (EnumV, FuncV, ClassV, ModV, BoundV, ExtV)):
            return True
        if isinstance(v, Lin) or isinstance(v, T) and v.op in INT_OPS:
            return neg(mk_eq0(v))
        return T("truth", v)

    # -------------------------------------------------------------- subscript
    def ev_slice(self, n, st):
        if isinstance(n, ast.Slice):
            return SliceV(
                self.ev(n.lower, st) if n.lower else None,
                self.ev(n.upper, st) if n.upper else None,
                self.ev(n.step, st) if n.step else None,
            )
        if isinstance(n, ast.Tuple):
            return Tup([self.ev_slice(e, st) for e in n.elts])
        if type(n).__name__ == "Index":
            return self.ev_slice(n.value, st)
        return self.ev(n, st)

    e_Slice = ev_slice

    def e_Subscript(self, n, st):
        o = self.ev(n.value, st)
        k = self.ev_slice(n.slice, st)
        return self.getitem(o, k, st, n)

    def getitem(self, o, k, st, node):
        o, k = self.resolve(o, st), self.resolve(k, st)
        if is_ite(o) and ite_size(o) <= 8:
            c = o.args[0]
            return ite(c, self.under(c, st, lambda s: self.getitem(o.args[1], k, s, node)), self.under(neg(c), st, lambda s: self.getitem(o.args[2], k, s, node)))
        if is_ite(k) and ite_size(k) <= 8:
            c = k.args[0]
            return ite(c, self.under(c, st, lambda s: self.getitem(o, k.args[1], s, node)), self.under(neg(c), st, lambda s: self.getitem(o, k.args[2], s, node)))
        c = self.cell(st, o)
        if isinstance(o, Tup) or (c is not None and c.kind == "list" and c.known()):
            items = o.items if isinstance(o, Tup) else c.items
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                if -len(items) <= k < len(items):
                    return items[k]
                self.event("index", node, st, target=o, idx=k, length=len(items), ok=False)
                self.raise_now(st, "IndexError", node)
            if isinstance(k, SliceV) and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                part = items[k.lo : k.hi : k.step]
                return Tup(part) if isinstance(o, Tup) else self.mklist(st, part, unordered=c.unordered)
            if to_lin(k) is not None and not isinstance(k, SliceV):
                self.check_index(o, k, len(items), st, node)
                return T("select", self.freeze(o, st), k)
            return T("item", self.freeze(o, st), self.freeze(k, st))
        if isinstance(o, str):
            if isinstance(k, int):
                if -len(o) <= k < len(o):
                    return o[k]
                self.raise_now(st, "IndexError", node)
            if isinstance(k, SliceV) and all(x is None or isinstance(x, int) for x in (k.lo, k.hi, k.step)):
                return o[k.lo : k.hi : k.step]
            return T("item", o, self.freeze(k, st))
        if c is not None and c.kind == "dict":
            v = c.get(k)
            if v is not None or c.has(k):
                return v
            if not c.open and (is_const(k) or isinstance(k, (EnumV, Tup))) and all(
                is_const(a) or isinstance(a, (EnumV, Tup)) for a, _ in c.items
            ):
                if c.default is not None:
                    dv = self.call(c.default, [], {}, st, node)
                    self.put(st, o, DCell(c.items + ((k, dv),), c.default, c.origin, c.open))
                    return dv
                self.raise_now(st, "KeyError", node)
            if to_lin(k) is not None and not c.open and all(type(a) is int for a, _ in c.items):
                self.event("lookup", node, st, target=o, key=k)
                return T("select", self.freeze(o, st), k)
            self.opaque_ops += 1
            return T("item", self.freeze(o, st), self.freeze(k, st))
        if c is not None and c.kind == "arr":
            if isinstance(k, Tup) or (k is None):
                c = self.ext.as_mat(self, o, st)
                return self.ext.nd.getitem(self, o, c, k, st, node)
            return self.ext.arr_get(self, o, c, k, st, node)
        if c is not None and c.kind == "mat":
            return self.ext.nd.getitem(self, o, c, k, st, node)
        if self.ext.pdm.is_pd(c):
            return self.ext.pdm.getitem(self, o, c, k, st, node)
        if isinstance(o, T) and o.op in ("pd_loc", "pd_iloc", "pd_at", "pd_iat"):
            return self.ext.pdm.idx_get(self, o, k, st, node)
        if isinstance(o, ClassV) and o.is_enum and isinstance(k, str):
            for m in o.members:
                if m.name == k:
                    return m
            self.raise_now(st, "KeyError", node)
        if isinstance(o, ClassV) and o.is_enum:
            self.opaque_ops += 1
            return T("enumbyname", o, self.freeze(k, st))
        if c is not None and c.kind == "obj" and isinstance(c.cls, ClassV):
            f, _ = c.cls.lookup("__getitem__")
            if f is not None:
                return self.call(BoundV(f, o), [k], {}, st, node)
        if c is not None and c.kind == "list":
            # unknown-length list
            if isinstance(k, int) and k >= 0 and k < len(c.items) and not any(isinstance(i, Star) for i in c.items[: k + 1]):
                return c.items[k]
            if len(c.items) == 1 and isinstance(c.items[0], Star) and c.items[0].guard is True and not isinstance(k, SliceV) and to_lin(k) is not None:
                s = c.items[0]
                if isinstance(k, int) and k < 0:
                    return T("item", self.freeze(o, st), k)
                return subst(s.val, s.idx, k)
        if isinstance(o, T) and o.op == "range" and all(type(x) is int for x in o.args):
            r = range(*o.args)
            if type(k) is int:
                if -len(r) <= k < len(r):
                    return r[k]
                self.raise_now(st, "IndexError", node)
            if isinstance(k, SliceV) and all(x is None or type(x) is int for x in (k.lo, k.hi, k.step)):
                r = r[k.lo : k.hi : k.step]
                return T("range", r.start, r.stop, r.step)
        if o is None:
            self.event("none_deref", node, st, what="subscript")
            self.raise_now(st, "TypeError", node)
        if type(o) in (int, float, bool) or isinstance(o, Fraction):
            # A number has no items.
            self.event("none_deref", node, st, what="subscript of a number")
            self.raise_now(st, "IndexError", node)
        cls = self.typeof(o)
        if isinstance(cls, ClassV):
            f, _ = cls.lookup("__getitem__")
            if f is not None:
                return self.call(BoundV(f, o), [k], {}, st, node)
        self.opaque_ops += 1
        fo, fk = self.freeze(o, st), self.freeze(k, st)
        ov = st.fld.get((fo, ("item", fk)))
        if ov is not None:
            return ov
        return T("item", fo, fk)

    def check_index(self, o, k, n, st, node):
        lo, hi = self.bounds(k, st)
        ok = lo is not None and hi is not None and lo >= 0 and hi < n
        self.event("index", node, st, target=o, idx=k, length=n, ok=ok, bounds=(lo, hi))

    def setitem(self, o, k, v, st, node):
        o, k = self.resolve(o, st), self.resolve(k, st)
        if is_ite(o):
            for g, leaf in leaves(o):
                self.effect(node, st, "setitem", leaf, k, v)
            return
        if isinstance(o, T) and o.op in ("pd_loc", "pd_iloc", "pd_at", "pd_iat"):
            self.ext.pdm.idx_set(self, o, k, v, st, node)
            return
        self.effect(node, st, "setitem", o, k, v)
        c = self.cell(st, o)
        if c is None:
            cls = self.typeof(o)
            if isinstance(cls, ClassV):
                f, _ = cls.lookup("__setitem__")
                if f is not None:
                    self.call(BoundV(f, o), [k, v], {}, st, node)
                    return
            if isinstance(o, T):
                st.fld[(o, ("item", self.freeze(k, st)))] = v
            return
        if c.kind == "dict":
            if c.has(k):
                items = [(a, v if same(a, k) else b) for a, b in c.items]
            else:
                items = list(c.items) + [(k, v)]
            self.put(st, o, DCell(items, c.default, c.origin, c.open))
        elif c.kind == "list":
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int) and c.known():
                if not -len(c.items) <= k < len(c.items):
                    self.event("index", node, st, target=o, idx=k, length=len(c.items), ok=False)
                    self.raise_now(st, "IndexError", node)
                it = list(c.items)
                it[k] = v
                self.put(st, o, LCell(it, c.unordered, c.origin, c.pytype))
            elif c.known() and to_lin(k) is not None and not isinstance(k, SliceV):
                self.check_index(o, k, len(c.items), st, node)
                it = [ite(mk_eq0(lin_add(k, i, -1)), v, x) for i, x in enumerate(c.items)]
                self.put(st, o, LCell(it, c.unordered, c.origin, c.pytype))
            else:
                st.fld[(o, ("item", self.freeze(k, st)))] = v
        elif c.kind == "arr":
            self.ext.arr_set(self, o, c, k, v, st, node)
        elif c.kind == "mat":
            self.ext.nd.setitem(self, o, c, k, v, st, node)
        elif self.ext.pdm.is_pd(c):
            self.ext.pdm.setitem(self, o, c, k, v, st, node)
        elif c.kind == "obj" and isinstance(c.cls, ClassV):
            f, _ = c.cls.lookup("__setitem__")
            if f is not None:
                self.call(BoundV(f, o), [k, v], {}, st, node)

    # -------------------------------------------------------------- attributes
    def typeof(self, v):
        """Declared class of an opaque term, if known."""
        if isinstance(v, T):
            t = self.types.get(v)
            if t is not None:
                return t
            if self.infer is not None and v.op not in ("ite",):
                if v in self.type_memo:
                    return self.type_memo[v]
                self.type_memo[v] = None
                t = self.infer(self, v)
                self.type_memo[v] = t
                return t
        return None

    def getattr(self, o, name, st, node):
        o = self.resolve(o, st)
        if is_ite(o) and ite_size(o) <= 8:
            c = o.args[0]
            return ite(c, self.under(c, st, lambda s: self.getattr(o.args[1], name, s, node)), self.under(neg(c), st, lambda s: self.getattr(o.args[2], name, s, node)))
        if isinstance(o, ModV):
            m = self.module(o.name)
            if m is not None and m.env is not None and name in m.env:
                return m.env[name]
            full = f"{o.name}.{name}"
            if full in self.repo.mods or any(k.startswith(full + ".") for k in self.repo.mods):
                return ModV(full)
            self.event("undefined", node, st, name=full)
            return T("undef", full)
        if isinstance(o, ExtV):
            if o.name == "builtins.NotImplemented":
                return T("unk", "NotImplemented")
            if f"{o.name}.{name}" in self.modelled:
                return self.get(self.modelled[f"{o.name}.{name}"])
            return ExtV(f"{o.name}.{name}")
        if isinstance(o, EnumV):
            if name == "value":
                return o.value
            if name == "name":
                return o.name
            c = self.enum_class(o)
            if c is not None:
                f, _ = c.lookup(name)
                if isinstance(f, FuncV):
                    return self.bind(f, o, st, node)
            return T("attr", o, name)
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            if name == "__members__" and o.is_enum:
                return self.new(st, DCell([(m.name, m) for m in o.members]))
            v, owner = o.lookup(name)
            if v is not None:
                if isinstance(v, FuncV) and v.kind == "classmethod":
                    return BoundV(v, o)
                return v
            if o.ext_bases():
                return T("attr", o, name)
            self.event("noattr", node, st, target=o, name=name)
            return T("attr", o, name)
        c = self.cell(st, o)
        if c is not None and c.kind == "obj":
            if name in c.attrs:
                return c.attrs[name]
            if name == "__dict__":
                return self.dictview(st, o, c)
            if name == "__class__":
                return c.cls
            if isinstance(c.cls, ClassV):
                v, _ = c.cls.lookup(name)
                if v is not None:
                    if isinstance(v, FuncV):
                        return self.bind(v, o, st, node)
                    return v
                if not c.cls.ext_bases():
                    self.event("noattr", node, st, target=o, name=name)
                    self.never_stored(name, c.cls)
                    if c.cls.mod.rel.startswith("model:") and c.cls.name != "Namespace" and not name.startswith("__"):
                        self.opaque_name = f"{c.cls.name}.{name}"
                        self.opaque_ops += 1
                        return T("attr", T("obj", o), name)
                    if not any(isinstance(b, ClassV) and (b.mod.name in self._dyn or b.node.decorator_list) for b in c.cls.mro()) and not name.startswith("__") and c.cls.lookup("__getattr__")[0] is None:
                        self.raise_now(st, "AttributeError", node)
            return T("attr", T("obj", o), name)
        if self.ext.pdm.is_pd(c):
            return self.ext.pdm.getattr_(self, o, c, name, st, node)
        if c is not None:
            if c.kind == "arr":
                if name == "shape":
                    return Tup((len(c.cells),))
                if name == "size":
                    return len(c.cells)
                if name == "ndim":
                    return 1
                if name == "dtype":
                    return T("dtype", o)
                if name == "T":
                    return o
            if c.kind == "mat":
                if name == "shape":
                    return Tup(c.shape)
                if name == "size":
                    return len(c.pos)
                if name == "ndim":
                    return len(c.shape)
                if name == "dtype":
                    return T("dtype", o)
                if name == "T" and len(c.shape) == 2:
                    r, k = c.shape
                    nd = self.ext.nd
                    return self.new(st, nd.MCell(c.buf, (k, r), [c.pos[i * k + j] for j in range(k) for i in range(r)], c.origin))
            return BMeth(o, name)
        if name in ("numerator", "denominator") and isinstance(o, (int, Fraction)) and not isinstance(o, bool):
            return getattr(o, name)
        if name in ("shape", "ndim", "size") and is_num(o):  # an array element
            return {"shape": Tup(()), "ndim": 0, "size": 1}[name]
        if isinstance(o, (str, Tup, int, float, bool, Fraction)) or isinstance(o, T) and o.op in ("sconcat", "srepeat"):
            return BMeth(o, name)
        if isinstance(o, (FuncV, BoundV)):
            if name == "__name__":
                f = o if isinstance(o, FuncV) else o.fn
                return f.node.name
            return T("attr", o, name)
        if o is None:
            self.event("none_deref", node, st, what=name)
            self.raise_now(st, "AttributeError", node)
        if isinstance(o, T):
            if (o, name) in st.fld:
                return st.fld[(o, name)]
            cls = self.typeof(o)
            if isinstance(cls, ClassV):
                v, _ = cls.lookup(name)
                if v is not None:
                    if isinstance(v, FuncV):
                        return self.bind(v, o, st, node)
                    return v
            if o.op == "super":
                cls0, self0 = o.args
                for b in cls0.mro()[1:]:
                    if isinstance(b, ClassV) and name in b.attrs:
                        v = b.attrs[name]
                        return self.bind(v, self0, st, node) if isinstance(v, FuncV) else v
                return ExtV(f"super.{name}")
            return T("attr", o, name)
        return T("attr", self.freeze(o, st), name)

    def bind(self, f, o, st, node):
        if f.kind == "staticmethod":
            return f
        if f.kind == "property":
            return self.call(BoundV(f, o), [], {}, st, node)
        if f.kind == "classmethod":
            return BoundV(f, o)
        return BoundV(f, o)

    def setattr(self, o, name, v, st, node):
        o = self.resolve(o, st)
        if is_ite(o):
            for g, leaf in leaves(o):
                s = st.copy()
                self.effect(node, st, "setattr", leaf, name, v)
                old = None
                cc = self.cell(st, leaf)
                if cc is not None and cc.kind == "obj":
                    attrs = dict(cc.attrs)
                    attrs[name] = ite(g, v, attrs.get(name, T("undef")))
                    self.put(st, leaf, OCell(cc.cls, attrs, cc.origin))
                elif isinstance(leaf, T):
                    old = st.fld.get((leaf, name), T("attr", leaf, name))
                    st.fld[(leaf, name)] = ite(g, v, old)
            return
        self.effect(node, st, "setattr", o, name, v)
        c = self.cell(st, o)
        if c is not None and c.kind == "obj":
            attrs = dict(c.attrs)
            attrs[name] = v
            self.put(st, o, OCell(c.cls, attrs, c.origin))
        elif isinstance(o, T):
            st.fld[(o, name)] = v
        elif isinstance(o, ClassV) and self.gmut:
            o.attrs[name] = v

    # -------------------------------------------------------------- comprehension
    def e_ListComp(self, n, st):
        return self.comp(n, st, "list")

    def e_SetComp(self, n, st):
        return self.comp(n, st, "set")

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, "gen")

    def e_DictComp(self, n, st):
        return self.comp(n, st, "dict")

    def comp(self, n, st, kind):
        saved = dict(st.env)
        out = []
        unordered = [False]

        def elem(s):
            if kind == "dict":
                return (self.ev(n.key, s), self.ev(n.value, s))
            return self.ev(n.elt, s)

        def rec(gi, s, guard, acc):
            if gi == len(n.generators):
                v = elem(s)
                if kind == "dict":
                    v = Tup(v)
                if guard is True:
                    acc.append(v)
                else:
                    acc.append(Star(T("idx", "one"), T("once"), v, guard))
                return
            g = n.generators[gi]
            it = self.resolve(self.ev(g.iter, s), s)
            cc = self.cell(s, it)
            if cc is not None and (cc.kind == "set" or getattr(cc, "unordered", False)):
                unordered[0] = True
            items = self.concrete_items(it, s)
            if items is not None and len(items) <= MAX_UNROLL:
                for x in items:
                    self.assign(g.target, x, s)
                    gg = guard
                    skip = False
                    facts = (s.facts, s.fset, dict(s.iv))
                    for f in g.ifs:
                        c = self.truth(self.ev(f, s), s)
                        d = self.decide(c, s)
                        if d is False:
                            skip = True
                            break
                        if d is None:
                            gg = mk_and([gg, c])
                            if not self.assume(s, c):
                                skip = True
                                break
                    if not skip:
                        rec(gi + 1, s, gg, acc)
                    s.facts, s.fset, s.iv = facts
                return
            # generic
            idx = self.loop_index()
            self.idepth += 1
            itf = self.freeze(it, s)
            facts = (s.facts, s.fset, dict(s.iv))
            ln = self.iter_len(it, s)
            s.facts = s.facts + (T("iter", idx, itf),)
            s.fset = s.fset | {s.facts[-1]}
            if ln is not None and to_lin(ln) is not None:
                self.assume(s, mk_le0(lin_scale(idx, -1)))
                self.assume(s, mk_lt0(lin_add(idx, ln, -1)))
            self.assign(g.target, self.iter_elem(it, idx, s), s)
            conds = []
            dead = False
            for f in g.ifs:
                c = self.truth(self.ev(f, s), s)
                d = self.decide(c, s)
                if d is False:
                    dead = True
                    break
                if d is None:
                    conds.append(c)
                    if not self.assume(s, c):
                        dead = True
                        break
            inner = []
            if not dead:
                rec(gi + 1, s, True, inner)
            self.idepth -= 1
            s.facts, s.fset, s.iv = facts
            g2 = mk_and(conds)
            if len(inner) == 1 and not isinstance(inner[0], Star):
                acc.append(Star(idx, itf, inner[0], mk_and([guard, g2])))
            elif len(inner) == 1 and inner[0].it == T("once"):
                acc.append(Star(idx, itf, inner[0].val, mk_and([guard, g2, inner[0].guard])))
            elif inner:
                acc.append(Star(idx, itf, T("items", *inner), mk_and([guard, g2])))

        rec(0, st, True, out)
        st.env = saved
        if kind == "set":
            if any(isinstance(x, Star) for x in out):
                return self.new(st, SCell([T("each", x.idx, x.it, x.val) if isinstance(x, Star) else x for x in out]))
            return self.new(st, SCell(out))
        if kind == "dict":
            items, open_ = [], False
            for x in out:
                if isinstance(x, Star):
                    open_ = True
                    kv = x.val
                    if isinstance(kv, Tup) and len(kv.items) == 2:
                        items.append((T("each", x.idx, x.it, kv.items[0], x.guard), kv.items[1]))
                else:
                    k, v = x.items
                    items = [(a, b) for a, b in items if not same(a, k)] if any(same(a, k) for a, _ in items) and False else items
                    if any(same(a, k) for a, _ in items):
                        items = [(a, v if same(a, k) else b) for a, b in items]
                    else:
                        items.append((k, v))
            return self.new(st, DCell(items, open_=open_))
        return self.mklist(st, out, unordered=unordered[0], pytype="gen" if kind == "gen" else "list")

    def e_Lambda(self, n, st):
        fr = self.stack[-1]
        return FuncV(fr.mod, n, dict(st.env), (fr.fn.qual if fr.fn else fr.mod.name) + ".<lambda>", None, "func",
                     (tuple(self.ev(d, st) for d in n.args.defaults), tuple(None if d is None else self.ev(d, st) for d in n.args.kw_defaults)))

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value else None
        self.do_yield(st, v)
        return None

    # -------------------------------------------------------------- iteration helpers
    def concrete_items(self, v, st):
        """list of elements when the iterable has known elements, else None"""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, str):
            return list(v)
        c = self.cell(st, v)
        if c is not None:
            if c.kind == "list":
                return list(c.items) if c.known() else None
            if c.kind == "dict":
                return None if c.open else [k for k, _ in c.items]
            if c.kind == "set":
                if any(isinstance(i, T) and i.op in ("maybe", "each") for i in c.items):
                    return None
                return list(c.items)[::-1] if self.set_rev else list(c.items)
            if c.kind == "arr":
                if not c.writes:
                    return list(c.cells)
                return None
            if self.ext.pdm.is_pd(c):
                return self.ext.pdm.items(self, c, st)
            if c.kind == "mat":
                nd = self.ext.nd
                if len(c.shape) == 1:
                    return nd.values(self, c, st)
                n = nd.prod(c.shape[1:])
                return [self.new(st, nd.MCell(c.buf, c.shape[1:], c.pos[i * n : (i + 1) * n], c.origin)) for i in range(c.shape[0])]
            if c.kind == "obj" and isinstance(c.cls, ClassV):
                f, _ = c.cls.lookup("__iter__")
                if f is not None:
                    r = self.resolve(self.call(BoundV(f, v), [], {}, st, None), st)
                    if not (isinstance(r, Ref) and r == v):
                        return self.concrete_items(r, st)
            return None
        if isinstance(v, ClassV) and v.is_enum:
            return list(v.members)
        if isinstance(v, T):
            if v.op == "range" and all(isinstance(a, int) for a in v.args):
                r = range(*v.args)
                if len(r) <= MAX_UNROLL:
                    return list(r)
                return None
            if v.op == "enumerate":
                it = self.concrete_items(v.args[0], st)
                if it is not None:
                    return [Tup((lin_add(i, v.args[1]), x)) for i, x in enumerate(it)]
            if v.op == "zip":
                inf = [isinstance(a, T) and a.op in ("countfrom", "repeated") for a in v.args]
                its = [None if e else self.concrete_items(a, st) for a, e in zip(v.args, inf)]
                if its and not all(inf) and all(i is not None or e for i, e in zip(its, inf)):
                    n = min(len(i) for i in its if i is not None)
                    return [Tup(x) for x in zip(*[[self.iter_elem(a, k, st) for k in range(n)] if e else i for a, e, i in zip(v.args, inf, its)])]
            if v.op == "reversed":
                it = self.concrete_items(v.args[0], st)
                if it is not None:
                    return list(reversed(it))
            if v.op == "product":
                its = [self.concrete_items(a, st) for a in v.args]
                if all(i is not None for i in its):
                    import itertools

                    return [Tup(x) for x in itertools.product(*its)]
            if v.op in ("dictitems", "dictkeys", "dictvalues"):
                c = self.cell(st, v.args[0])
                if c is not None and c.kind == "dict" and not c.open:
                    if v.op == "dictitems":
                        return [Tup((a, b)) for a, b in c.items]
                    return [a for a, b in c.items] if v.op == "dictkeys" else [b for a, b in c.items]
        return None

    # -------------------------------------------------------------- freezing heap into terms
    def freeze(self, v, st, depth=0):
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if c is None or depth > 6:
                return v
            if c.kind == "list":
                return T("list", *[self.freeze(i, st, depth + 1) for i in c.items])
            if c.kind == "dict":
                if len(c.items) > 80:
                    return T("dictref", v)
                return T("dict", *[Tup((self.freeze(a, st, depth + 1), self.freeze(b, st, depth + 1))) for a, b in c.items], *((T("open"),) if c.open else ()))
            if c.kind == "set":
                return T("set", *sorted((self.freeze(i, st, depth + 1) for i in c.items), key=repr))
            if self.ext.pdm.is_pd(c):
                fz = lambda x: self.freeze(x, st, depth + 1)  # noqa: E731
                if c.kind == "df":
                    return T("df", Tup(c.cols), Tup(Tup(map(fz, d)) for d in c.data), Tup(c.index))
                if c.kind == "ser":
                    return T("ser", Tup(c.index), Tup(map(fz, c.vals)))
                return T("pidx", Tup(c.vals))
            if c.kind == "mat":
                return T("mat", Tup(c.shape), Tup(self.freeze(i, st, depth + 1) for i in self.ext.nd.values(self, c, st)))
            if c.kind == "arr":
                return T("arr", Tup(self.freeze(i, st, depth + 1) for i in c.cells), Tup(Tup((self.freeze(a, st, depth + 1), self.freeze(b, st, depth + 1))) for a, b in c.writes))
            return v
        if isinstance(v, Tup):
            return Tup(self.freeze(i, st, depth + 1) for i in v.items)
        if isinstance(v, Star):
            return Star(v.idx, v.it, self.freeze(v.val, st, depth + 1), v.guard)
        if isinstance(v, T):
            if v.op in ("sym", "attr", "idx", "unk"):
                return v
            if any(isinstance(a, (Ref, Tup)) or isinstance(a, T) for a in v.args) and depth <= 6:
                na = [self.freeze(a, st, depth + 1) for a in v.args]
                if any(x is not y for x, y in zip(na, v.args)):
                    return T(v.op, *na)
        if isinstance(v, SliceV):
            return SliceV(self.freeze(v.lo, st), self.freeze(v.hi, st), self.freeze(v.step, st))
        return v

    # -------------------------------------------------------------- calls
    def e_Call(self, n, st):
        f = self.ev(n.func, st)
        args, kw = [], {}
        star_unknown = False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                it = self.concrete_items(v, st)
                if it is None:
                    star_unknown = True
                    args.append(T("starargs", self.freeze(v, st)))
                else:
                    args.extend(it)
            else:
                args.append(self.ev(a, st))
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                c = self.cell(st, v)
                if c is not None and c.kind == "dict" and all(isinstance(a, str) for a, _ in c.items) and not c.open:
                    for a, b in c.items:
                        kw[a] = b
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, st, n)

    def call(self, f, args, kw, st, node):
        f = self.resolve(f, st)
        if is_ite(f) and ite_size(f) <= 6:
            c = f.args[0]
            return ite(c, self.under(c, st, lambda s: self.call(f.args[1], args, kw, s, node)), self.under(neg(c), st, lambda s: self.call(f.args[2], args, kw, s, node)))
        if isinstance(f, BoundV):
            return self.call_fn(f.fn, [f.self_] + list(args), kw, st, node)
        if isinstance(f, FuncV):
            return self.call_fn(f, args, kw, st, node)
        if isinstance(f, ClassV):
            return self.construct(f, args, kw, st, node)
        if isinstance(f, ExtV):
            return self.ext.call_ext(self, f.name, args, kw, st, node)
        if isinstance(f, BMeth):
            return self.ext.call_method(self, f.obj, f.name, args, kw, st, node)
        c = self.cell(st, f)
        if c is not None and c.kind == "obj" and isinstance(c.cls, ClassV):
            m, _ = c.cls.lookup("__call__")
            if m is not None:
                return self.call(BoundV(m, f), args, kw, st, node)
        if isinstance(f, T) and f.op == "partial":
            k2 = {p.items[0]: p.items[1] for p in f.args[2].items}
            k2.update(kw)
            return self.call(f.args[0], list(f.args[1].items) + list(args), k2, st, node)
        if isinstance(f, T) and f.op == "getter" and len(args) == 1:
            return self.getitem(args[0], f.args[1], st, node) if f.args[0] == "item" else self.getattr(args[0], f.args[1], st, node)
        if isinstance(f, T) and f.op == "attr":
            return self.ext.call_opaque_method(self, f.args[0], f.args[1], args, kw, st, node)
        if f is None:
            self.event("none_deref", node, st, what="call")
            self.raise_now(st, "TypeError", node)
        self.opaque_ops += 1
        self.event("opcall", node, st, f=f, args=args, kw=kw)
        return T("call", f if isinstance(f, V) else repr(f), *[self.freeze(a, st) for a in args],
                 *[Tup((k, self.freeze(v, st))) for k, v in sorted(kw.items())])

    def construct(self, cls, args, kw, st, node):
        if cls.is_enum:
            if args and is_const(args[0]):
                for m in cls.members:
                    if same(m.value, args[0]):
                        return m
                self.raise_now(st, "ValueError", node)
            self.opaque_ops += 1
            return T("enumof", cls, self.freeze(args[0], st) if args else None)
        hk = self.hooks.get(cls.qual)
        if hk is not None:
            r = hk(self, args, kw, st, node)
            if r is not NotImplemented:
                return r
        if any(exc_base(b) for b in cls.ext_bases()):
            return Exc(cls.name, tuple(args), node)
        ref = self.new(st, OCell(cls, {}))
        self.event("construct", node, st, cls=cls, args=list(args), kw=dict(kw), ref=ref)
        f, _ = cls.lookup("__init__")
        if f is not None:
            self.call_fn(f, [ref] + list(args), kw, st, node)
        else:
            # dataclass-like
            if any(isinstance(d, ast.Name) and d.id == "dataclass" or isinstance(d, ast.Call) and getattr(d.func, "id", "") == "dataclass" for d in cls.node.decorator_list):
                names = [x.target.id for x in cls.node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
                attrs = {}
                for nm, a in zip(names, args):
                    attrs[nm] = a
                for k, v in kw.items():
                    attrs[k] = v
                for nm in names:
                    if nm not in attrs and nm in cls.attrs:
                        attrs[nm] = cls.attrs[nm]
                self.put(st, ref, OCell(cls, attrs))
        return ref

    def bindargs(self, f, args, kw, st, node):
        """Bind call arguments to parameters. Returns dict or None (mismatch reported)."""
        a = f.node.args
        pos = [p.arg for p in list(getattr(a, "posonlyargs", [])) + list(a.args)]
        defs, kwd = f.defaults if f.defaults else ((), ())
        env = {}
        extra = list(args[len(pos):])
        problems = []
        unknown_star = any(isinstance(x, T) and x.op == "starargs" for x in args)
        for p, v in zip(pos, args):
            env[p] = v
        if extra:
            if a.vararg:
                env[a.vararg.arg] = Tup(extra)
            elif not unknown_star:
                problems.append(f"takes {len(pos)} positional arguments but {len(args)} were given")
        elif a.vararg:
            env[a.vararg.arg] = Tup(())
        kwonly = [p.arg for p in a.kwonlyargs]
        rest = {}
        dstar = kw.get("**")
        for k, v in kw.items():
            if k == "**":
                continue
            if k in pos or k in kwonly:
                if k in env:
                    problems.append(f"got multiple values for argument '{k}'")
                env[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            r = self.new(st, DCell(list(rest.items()), open_=dstar is not None))
            env[a.kwarg.arg] = r
        elif rest:
            problems.append(f"got an unexpected keyword argument '{sorted(rest)[0]}'")
        dd = dict(zip(pos[len(pos) - len(defs):], defs))
        for p in pos:
            if p not in env:
                if dstar is not None:
                    env[p] = T("item", self.freeze(dstar, st), p)
                elif p in dd:
                    env[p] = dd[p]
                elif unknown_star:
                    env[p] = T("unk", f"star:{p}")
                else:
                    problems.append(f"missing required argument '{p}'")
                    env[p] = T("undef", p)
        for i, p in enumerate(kwonly):
            if p not in env:
                has = i < len(kwd) and a.kw_defaults[i] is not None
                if has:
                    env[p] = kwd[i]
                elif dstar is not None:
                    env[p] = T("item", self.freeze(dstar, st), p)
                else:
                    problems.append(f"missing required keyword argument '{p}'")
                    env[p] = T("undef", p)
        if problems:
            self.event("sig", node, st, callee=f.qual, problems=problems)
            if not unknown_star and dstar is None:
                self.raise_now(st, "TypeError", node)
        return env

    def call_fn(self, f, args, kw, st, node):
        hk = self.hooks.get(f.qual)
        if hk is not None:
            r = hk(self, args, kw, st, node)
            if r is not NotImplemented:
                return r
        if f.cls is not None and f.kind == "classmethod":
            pass
        env = self.bindargs(f, args, kw, st, node)
        self.event("call", node, st, callee=f.qual, env=dict(env))
        if (
            len(self.stack) > MAX_DEPTH
            or f.qual in self.no_inline
            or sum(1 for fr in self.stack if fr.fn is not None and fr.fn.node is f.node) >= self.max_rec
        ):
            self.opaque_ops += 1
            return T("app", f.qual, *[self.freeze(env[k], st) for k in sorted(env)])
        self.funcs_seen.add(f.qual)
        if isinstance(f.node, ast.Lambda):
            body = [ast.copy_location(ast.Return(value=f.node.body), f.node.body)]
        else:
            body = f.node.body
        fr = Frame(f.mod, f)
        saved_env, saved_y = st.env, st.yields
        inner = st.copy()
        inner.env = dict(env)
        isgen = not isinstance(f.node, ast.Lambda) and is_generator(f.node)
        if isgen:
            inner.yields = self.new(inner, LCell([], pytype="gen"))
        self.stack.append(fr)
        n0 = len(self.raises[-1])
        try:
            end = self.block(body, inner)
        finally:
            self.stack.pop()
            for i in range(n0, len(self.raises[-1])):
                self.raises[-1][i][0].env = dict(saved_env)
                self.raises[-1][i][0].yields = saved_y
        rets = list(fr.returns)
        if end is not None:
            rets.append((end, None))
        if not rets:
            raise Dead()
        s, v = rets[0]
        if isgen:
            v = s.yields
        for s2, v2 in rets[1:]:
            if isgen:
                v2 = s2.yields
            s, v = self.merge2x(s, s2, v, v2)
        st.heap, st.fld = s.heap, s.fld
        st.facts, st.fset, st.iv = s.facts, s.fset, s.iv
        st.env, st.yields = saved_env, saved_y
        return v

    def merge2x(self, a, b, va, vb):
        # like merge2 but always returns the gated value (None is a value here)
        n = 0
        s, _ = self.merge2(a, b)
        for x, y in zip(a.facts, b.facts):
            if x is y or x == y:
                n += 1
            else:
                break
        ga, gb = mk_and(list(a.facts[n:])), mk_and(list(b.facts[n:]))
        gate = neg(gb) if ga is True and gb is not True else ga
        if gate is True:
            self.uid += 1
            gate = T("unk", f"join{self.uid}")
        return s, ite(gate, va, vb)

    def list_extend(self, o, rhs, st, node):
        c = self.cell(st, o)
        self.effect(node, st, "extend", o, None, rhs)
        it = self.concrete_items(rhs, st)
        if it is None:
            rc = self.cell(st, rhs)
            if rc is not None and rc.kind == "list":
                it = list(rc.items)
            else:
                it = [Star(T("idx", "s"), self.freeze(rhs, st), T("item", self.freeze(rhs, st), T("idx", "s")), True)]
        self.put(st, o, LCell(c.items + tuple(it), c.unordered, c.origin, c.pytype))

    # -------------------------------------------------------------- entry point
    def run_main(self, name, st=None):
        """Analyse the `if __name__ == "__main__"` part of a script -> (outcomes, raises)"""
        m = self.module(name)
        if m is None:
            raise AnalysisBroken(f"no module {name}")
        body = []
        for x in m.tree.body:
            if isinstance(x, ast.If) and any(isinstance(k, ast.Constant) and k.value == "__main__" for k in ast.walk(x.test)):
                body += x.body
        if not body:
            raise AnalysisBroken(f"{name} has no main part")
        st = (st or St()).copy()
        st.env = dict(m.env)
        st.env["__name__"] = "__main__"
        self.stack.append(Frame(m, None))
        self.in_main = self.stack[-1]
        self.raises.append([])
        self.budget = self.max_budget
        try:
            try:
                end = self.block(body, st)
            except Dead:
                end = None
            return ([] if end is None else [(end, None)]), self.raises[-1]
        finally:
            self.raises.pop()
            self.stack.pop()

    def run(self, fn, args=None, kw=None, assume=(), st=None):
        """Analyse a function with abstract arguments.

        -> (outcomes, raises): outcomes = [(state, value)] per return, raises = [(state, Exc)].
        """
        f = self.get(fn) if isinstance(fn, str) else fn
        self_ = None
        if isinstance(f, BoundV):
            self_, f = f.self_, f.fn
        if not isinstance(f, FuncV):
            raise AnalysisBroken(f"{fn} is not a function")
        st = st or St()
        for c in assume:
            self.assume(st, c)
        a = ([self_] if self_ is not None else []) + list(args or [])
        fr0 = Frame(f.mod, None)
        self.stack.append(fr0)
        self.raises.append([])
        self.budget = self.max_budget
        try:
            env = self.bindargs(f, a, kw or {}, st, f.node)
            inner = st.copy()
            inner.env = dict(env)
            self.funcs_seen.add(f.qual)
            isgen = is_generator(f.node)
            if isgen:
                inner.yields = self.new(inner, LCell([], pytype="gen"))
            fr = Frame(f.mod, f)
            self.stack.append(fr)
            try:
                end = self.block(f.node.body, inner)
            except Dead:
                end = None
            finally:
                self.stack.pop()
            rets = list(fr.returns)
            if end is not None:
                rets.append((end, None))
            if isgen:
                rets = [(s, s.yields) for s, _ in rets]
            return rets, self.raises[-1]
        except Dead:
            return [], self.raises[-1]
        finally:
            self.raises.pop()
            self.stack.pop()


def exc_base(b):
    return isinstance(b, ExtV) and (b.name.endswith("Error") or b.name.endswith("Exception"))


_GEN = {}


def is_generator(node):
    r = _GEN.get(id(node))
    if r is None or r[0] is not node:
        r = (node, _is_generator(node))
        _GEN[id(node)] = r
    return r[1]


def _is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        todo.extend(ast.iter_child_nodes(x))
    return False


def ite_size(v):
    return 1 + ite_size(v.args[1]) + ite_size(v.args[2]) if is_ite(v) else 0


def cell_same(a, b):
    if a.kind != b.kind:
        return False
    if a.kind == "list":
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if a.kind == "dict":
        return a.items == b.items and a.open == b.open
    if a.kind == "set":
        return a.items == b.items
    if a.kind == "arr":
        return a.cells == b.cells and a.writes == b.writes
    if a.kind == "buf":
        return a.vals == b.vals
    if a.kind in ("df", "ser", "pidx"):
        return repr(a.key()) == repr(b.key())
    if a.kind == "mat":
        return a.buf == b.buf and a.shape == b.shape and a.pos == b.pos
    if a.kind == "obj":
        return a.attrs.keys() == b.attrs.keys() and all(same(a.attrs[k], b.attrs[k]) for k in a.attrs)
    return False


def mk_sum(itf, idx, e, guard):
    return T("sum", itf, idx, e, guard)


def subst(v, old, new):
    """Replace atom `old` by `new` inside a value."""
    if isinstance(v, V) and not isinstance(v, (Ref, EnumV)) and v == old:
        return new
    if isinstance(v, T):
        na = [subst(a, old, new) if isinstance(a, V) else a for a in v.args]
        if all(x is y for x, y in zip(na, v.args)):
            return v
        if v.op == "mod" and isinstance(na[1], int) and to_lin(na[0]) is not None:
            return mk_mod(na[0], na[1])
        if v.op == "ite":
            return ite(*na)
        if v.op == "le0":
            return mk_le0(na[0]) if to_lin(na[0]) is not None else T("le0", na[0])
        if v.op == "lt0":
            return mk_lt0(na[0]) if to_lin(na[0]) is not None else T("lt0", na[0])
        if v.op == "eq0":
            return mk_eq0(na[0]) if to_lin(na[0]) is not None else T("eq0", na[0])
        if v.op == "not":
            return neg(na[0])
        if v.op == "and":
            return mk_and(na)
        if v.op == "or":
            return mk_or(na)
        return T(v.op, *na)
    if isinstance(v, Lin):
        out = v.const
        for a, c in v.terms:
            b = subst(a, old, new)
            if to_lin(b) is None:
                return T("substlin", v, old, new)
            out = lin_add(out, lin_scale(b, c))
        return out
    if isinstance(v, Tup):
        return Tup(subst(i, old, new) if isinstance(i, V) else i for i in v.items)
    if isinstance(v, Star):
        return Star(v.idx, subst(v.it, old, new), subst(v.val, old, new) if isinstance(v.val, V) else v.val, subst(v.guard, old, new) if isinstance(v.guard, V) else v.guard)
    if isinstance(v, SliceV):
        return SliceV(*[subst(x, old, new) if isinstance(x, V) else x for x in (v.lo, v.hi, v.step)])
    if isinstance(v, BMeth):
        return BMeth(subst(v.obj, old, new) if isinstance(v.obj, V) else v.obj, v.name)
    return v
