"""Shared machinery of the property checks: closed-form evaluation of abstract results,
value partitioning, obligations, evidence and known findings."""
import hashlib
import itertools
import json
import os
import signal
import sys
import time
from fractions import Fraction

from .engine import (
    LOST, UNKNOWN,
    AnalysisBroken,
    Dead,
    Exc,
    Interp,
    St,
    exc_is,
    is_ite,
    ite,
    leaves,
    mk_and,
    mk_eq0,
    mk_le0,
    mk_lt0,
    mk_or,
    neg,
    subst,
)
from .values import (
    BoundV,
    ClassV,
    EnumV,
    ExtV,
    FuncV,
    Lin,
    ModV,
    Ref,
    SliceV,
    Star,
    T,
    Tup,
    V,
    is_const,
    is_num,
    lin_add,
    lin_scale,
    mk_lin,
    same,
    sym,
    to_lin,
    walk,
)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "harmonic_inference."


class Broken(Exception):
    """the analysed code certainly fails where it must succeed"""


TOTAL_S, SECTION_S = 600, 150  # limits on a run and on one of its sections; what is left is undecided


class TimeUp(BaseException):
    """the time for the run, or for a section of it, is over"""


class Undec(Exception):
    """The abstract value has no known concrete value under the given binding."""


def isym(name):
    return T("sym", name, "int")


def nnsym(name):
    return T("sym", name, "nn")


def within(x, lo, hi):
    """lo <= x <= hi as assumptions"""
    out = []
    if lo is not None:
        out.append(mk_le0(lin_add(lo, x, -1)))
    if hi is not None:
        out.append(mk_le0(lin_add(x, hi, -1)))
    return out


# ---------------------------------------------------------------- evaluation of closed forms


class Evalr:
    """Value of an abstract result (closed form over the input symbols) for one binding of
    the symbols.  Raises Undec on anything whose meaning is not fixed by the closed form."""

    def __init__(self, I, st, env):
        self.I, self.st, self.env = I, st, env
        self.memo = {}
        lost = st.heap.get(LOST) or I.gheap.get(LOST)
        if lost is not None:
            raise Undec(f"effect of {lost.why} unknown")

    def __call__(self, v):
        if v is None or isinstance(v, (bool, int, float, str, Fraction, bytes)):
            return v
        if isinstance(v, (EnumV, ClassV, FuncV, ExtV, ModV)):
            return v
        if isinstance(v, (T, Lin)):
            r = self.memo.get(v)
            if r is None:
                r = (self.term(v),)
                self.memo[v] = r
            return r[0]
        if isinstance(v, Tup):
            return tuple(self(x) for x in v.items)
        if isinstance(v, Ref):
            return self.ref(v)
        if isinstance(v, SliceV):
            return slice(self(v.lo), self(v.hi), self(v.step))
        raise Undec(type(v).__name__)

    def ref(self, v):
        c = self.I.cell(self.st, v)
        if c is None:
            raise Undec("dangling")
        if c.kind == "list":
            return [self(i) for i in self.seq(c.items)]
        if c.kind == "dict":
            if c.open:
                raise Undec("open dict")
            return {self.key(self(a)): self(b) for a, b in c.items}
        if c.kind == "set":
            return frozenset(self(i) for i in self.seq(c.items))
        if c.kind == "arr":
            out = [self(i) for i in c.cells]
            for k, val in c.writes:
                k = self(k)
                if not isinstance(k, int) or not -len(out) <= k < len(out):
                    raise Undec("bad array index")
                out[k] = self(val)
            return out
        if c.kind == "mat":
            nd = self.I.ext.nd

            def rec(shape, flat):
                if len(shape) == 1:
                    return [self(x) for x in flat]
                n = len(flat) // shape[0] if shape[0] else 0
                return [rec(shape[1:], flat[i * n : (i + 1) * n]) for i in range(shape[0])]

            return rec(c.shape, nd.values(self.I, c, self.st))
        if c.kind == "df":
            return Frame_(c.cols, [self(x) for x in c.index], [[self(x) for x in d] for d in c.data])
        if c.kind == "ser":
            return {self.key(self(a)): self(b) for a, b in zip(c.index, c.vals)}
        if c.kind == "pidx":
            return [self(x) for x in c.vals]
        if c.kind == "obj":
            return Obj(c.cls.name, {k: Lazy(self, a) for k, a in c.attrs.items()})
        raise Undec(c.kind)

    def seq(self, items):
        for i in items:
            if isinstance(i, Star):
                raise Undec("summarised list")
            if isinstance(i, T) and i.op == "maybe":
                raise Undec("maybe element")
            yield i

    @staticmethod
    def key(k):
        return tuple(k) if isinstance(k, list) else k

    def term(self, v):
        if isinstance(v, Lin):
            tot = v.const
            for a, c in v.terms:
                x = self(a)
                if isinstance(x, bool):
                    x = int(x)
                if not is_num(x):
                    raise Undec(f"non-numeric {a!r:.80}")
                tot = tot + c * x
            if isinstance(tot, Fraction) and tot.denominator == 1:
                return int(tot)
            return tot
        op, a = v.op, v.args
        if v in self.env:
            return self.env[v]
        if op == "sym":
            if a[0] in self.env:
                return self.env[a[0]]
            raise Undec(f"free symbol {a[0]}")
        if op == "ite":
            return self(a[1] if self.cond(a[0]) else a[2])
        if op in ("le0", "lt0", "eq0"):
            x = self(a[0])
            if not is_num(x):
                raise Undec("compare")
            return x <= 0 if op == "le0" else x < 0 if op == "lt0" else x == 0
        if op == "and":
            return self.lazy_all(a, False)
        if op == "or":
            return self.lazy_all(a, True)
        if op == "not":
            return not self.cond(a[0])
        if op == "mathfn":
            from . import nd

            x = self(a[1])
            if not is_num(x):
                raise Undec("mathfn")
            return nd.math_fn(a[0], x)
        if op == "mod":
            x, k = self(a[0]), self(a[1])
            return x % k
        if op == "fdiv":
            x, k = self(a[0]), self(a[1])
            return x // k
        if op == "mul":
            return self(a[0]) * self(a[1])
        if op == "div":
            x, k = self(a[0]), self(a[1])
            if isinstance(x, int) and isinstance(k, int) and k and x % k == 0:
                return float(x // k)
            return x / k
        if op in ("select", "item"):
            k = self(a[1])
            if isinstance(k, int) and not isinstance(k, bool):
                seq = None
                if isinstance(a[0], Tup):
                    seq = a[0].items
                elif isinstance(a[0], T) and a[0].op == "list":
                    seq = a[0].args
                elif isinstance(a[0], T) and a[0].op == "arr" and not a[0].args[1].items:
                    seq = a[0].args[0].items
                if seq is not None and not any(isinstance(x, Star) for x in seq):
                    if not -len(seq) <= k < len(seq):
                        raise Undec("index out of range")
                    return self(seq[k])
            o = self(a[0])
            try:
                return o[k]
            except (TypeError, KeyError, IndexError):
                raise Undec(f"item {k!r}") from None
        if op == "list":
            return [self(x) for x in self.seq(a)]
        if op == "set":
            return frozenset(self(x) for x in self.seq(a))
        if op == "dict":
            if any(isinstance(x, T) and x.op == "open" for x in a):
                raise Undec("open dict")
            return {self.key(self(x.items[0])): self(x.items[1]) for x in a}
        if op == "dictref":
            return self(a[0])
        if op == "arr":
            out = [self(x) for x in a[0].items]
            for w in a[1].items:
                k = self(w.items[0])
                if not isinstance(k, int) or not -len(out) <= k < len(out):
                    raise Undec("bad array index")
                out[k] = self(w.items[1])
            return out
        if op == "sconcat":
            return "".join(self.s(self(x)) for x in a)
        if op == "srepeat":
            return self(a[0]) * self(a[1])
        if op == "str":
            return self.s(self(a[0]), conv=True)
        if op == "strmeth":
            o = self(a[0])
            if isinstance(o, str):
                try:
                    return getattr(o, a[1])(*[self(x) for x in a[2:]])
                except (TypeError, AttributeError, ValueError):
                    pass
            raise Undec("strmeth")
        if op == "eq":
            x, y = self(a[0]), self(a[1])
            return self.eq(x, y)
        if op == "isnone":
            return self(a[0]) is None
        if op == "is":
            x, y = self(a[0]), self(a[1])
            if isinstance(x, (EnumV, bool, type(None))) and isinstance(y, (EnumV, bool, type(None))):
                return x == y
            raise Undec("is")
        if op == "in":
            x, y = self(a[0]), self(a[1])
            try:
                return x in y
            except TypeError:
                raise Undec("in") from None
        if op == "truth":
            x = self(a[0])
            if isinstance(x, (EnumV, ClassV, FuncV)):
                return True
            return bool(x)
        if op == "cond" and isinstance(a[0], str) and a[0].startswith("cmp"):
            x, y = self(a[1]), self(a[2])
            try:
                return {
                    "cmpLt": lambda: x < y,
                    "cmpLtE": lambda: x <= y,
                    "cmpGt": lambda: x > y,
                    "cmpGtE": lambda: x >= y,
                }[a[0]]()
            except (KeyError, TypeError):
                raise Undec(a[0]) from None
        if op == "cond" and a[0] == "isnull":
            x = self(a[1])
            if x is None or x != x:
                return True
            if isinstance(x, (int, float, str, Fraction, bool)):
                return False
            raise Undec("isnull")
        if op == "int":
            x = self(a[0])
            try:
                return int(x)
            except (TypeError, ValueError):
                raise Undec("int") from None
        if op == "float":
            x = self(a[0])
            try:
                return float(x)
            except (TypeError, ValueError):
                raise Undec("float") from None
        if op == "len":
            x = self(a[0])
            try:
                return len(x)
            except TypeError:
                raise Undec("len") from None
        if op == "indexof":
            x, y = self(a[0]), self(a[1])
            if x in y:
                return y.index(x)
            raise Undec("indexof")
        if op == "attr":
            o = self(a[0])
            if isinstance(o, EnumV) and a[1] in ("value", "name"):
                return o.value if a[1] == "value" else o.name
            if isinstance(o, Obj) and a[1] in o.attrs:
                return o.get(a[1])
            if isinstance(o, Fraction) and a[1] in ("numerator", "denominator"):
                return getattr(o, a[1])
            raise Undec(f"attr {a[1]}")
        if op.startswith("bin") and len(a) == 2:
            x, y = self(a[0]), self(a[1])
            try:
                return {
                    "binAdd": lambda: x + y,
                    "binSub": lambda: x - y,
                    "binMult": lambda: x * y,
                    "binDiv": lambda: x / y,
                    "binFloorDiv": lambda: x // y,
                    "binMod": lambda: x % y,
                    "binPow": lambda: x**y,
                }[op]()
            except (KeyError, TypeError, ZeroDivisionError):
                raise Undec(op) from None
        if op in ("any",):
            x = self(a[0])
            if isinstance(x, (list, tuple, frozenset)):
                return any(x)
        if op == "uninit":
            raise Broken("the result depends on memory which was never written (np.empty)")
        raise Undec(op)

    @staticmethod
    def eq(x, y):
        if isinstance(x, V) or isinstance(y, V):
            if isinstance(x, EnumV) or isinstance(y, EnumV) or isinstance(x, ClassV):
                return type(x) is type(y) and x == y
            raise Undec("eq")
        return x == y

    @staticmethod
    def s(x, conv=False):
        if isinstance(x, str):
            return x
        if isinstance(x, (bool, int)) or x is None:
            return str(x)
        if isinstance(x, EnumV):
            return f"{x.cls.split('.')[-1]}.{x.name}"
        raise Undec("str")

    def cond(self, c):
        r = self(c)
        if isinstance(r, (bool, int, float, str, Fraction)) or r is None:
            return bool(r)
        if isinstance(r, (list, tuple, dict, frozenset)):
            return bool(r)
        raise Undec("cond")

    def lazy_all(self, a, stop):
        und = None
        for x in a:
            try:
                if self.cond(x) is stop:
                    return stop
            except Undec as e:
                und = e
        if und is not None:
            raise und
        return not stop


class Frame_:
    """concrete view of an abstract frame"""

    def __init__(self, cols, index, data):
        self.cols, self.index, self.data = list(cols), index, data

    def col(self, k):
        return self.data[self.cols.index(k)]

    def __repr__(self):
        return f"<frame {dict(zip(self.cols, self.data))}>"


class Lazy:
    def __init__(self, ev, v):
        self.ev, self.v = ev, v


class Obj:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def get(self, k):
        x = self.attrs[k]
        return x.ev(x.v) if isinstance(x, Lazy) else x

    def __repr__(self):
        return f"<{self.cls}>"


class Summary:
    """Closed-form summary of one analysed entry: guarded outcomes."""

    def __init__(self, I, rets, raises):
        self.I, self.rets, self.raises = I, rets, raises
        self.unknown = []

    def at(self, env):
        """('ret', value, state) or ('raise', class) for a binding; Undec when not determined."""
        live = []
        und = None
        UNKNOWN.extend(self.unknown[:1])
        for kind, lst in (("ret", self.rets), ("raise", self.raises)):
            for st, v in lst:
                ev = Evalr(self.I, st, env)
                ok = True
                for f in st.facts:
                    try:
                        if not ev.cond(f):
                            ok = False
                            break
                    except Undec as e:
                        und = und or e
                        ok = None
                if ok is False:
                    continue
                if ok is None:
                    raise und
                live.append((kind, st, v, ev))
        if not live:
            raise Undec("no outcome applies")
        if len(live) > 1:
            vals = set()
            for kind, st, v, ev in live:
                vals.add((kind, repr(ev(v)) if kind == "ret" else v.cls))
            if len(vals) > 1:
                raise Undec("several outcomes apply")
        kind, st, v, ev = live[0]
        if kind == "ret":
            return ("ret", ev(v))
        return ("raise", v.cls)

    def step(self, env):
        """(state, outcome) when a single outcome applies; outcome is ('ret', abstract value) or ('raise', exception)"""
        live = []
        UNKNOWN.extend(self.unknown[:1])
        for kind, lst in (("ret", self.rets), ("raise", self.raises)):
            for st, v in lst:
                ev = Evalr(self.I, st, env)
                if all(ev.cond(f) for f in st.facts):
                    live.append((st, (kind, v)))
        if len(live) != 1:
            raise Undec(f"{len(live)} outcomes apply")
        return live[0]


def summarise(I, fn, args=(), kw=None, assume=(), st=None):
    del I.events[:]
    n = len(UNKNOWN)
    rets, raises = I.run(fn, list(args), dict(kw or {}), assume=assume, st=st)
    s = Summary(I, rets, raises)
    s.unknown = UNKNOWN[n:]
    return s


class Func:
    """A repository function analysed over partitioned inputs: first with the free inputs as
    symbols (closed form), and where that loses precision with the input partitioned into
    single values (constant propagation)."""

    def __init__(self, I, fn, build, syms):
        """build(values) -> (args, kw[, st]); syms: {name: (lo, hi)} or {name: [values]}"""
        self.I, self.fn, self.build, self.syms = I, fn, build, syms
        self.summ = None
        self.refined = 0
        try:
            vals, assume = {}, []
            self.env0 = {}
            for n, d in syms.items():
                if isinstance(d, tuple):
                    s = isym(n)
                    vals[n] = s
                    assume += within(s, d[0], d[1])
                else:
                    raise Undec("enumerated")
            r = self.build(vals)
            n0 = len(UNKNOWN)
            self.summ = summarise(I, fn, r[0], r[1], assume, r[2] if len(r) > 2 else None)
            del UNKNOWN[n0:]
        except (AnalysisBroken, RecursionError):
            raise
        except Undec:
            self.summ = None

    def points(self):
        names = list(self.syms)
        doms = [range(d[0], d[1] + 1) if isinstance(d, tuple) else d for d in self.syms.values()]
        for p in itertools.product(*doms):
            yield dict(zip(names, p))

    def at(self, point):
        if self.summ is not None:
            n0 = len(UNKNOWN)
            try:
                return self.summ.at(point)
            except Undec:
                del UNKNOWN[n0:]
        self.refined += 1
        r = self.build(dict(point))
        s = summarise(self.I, self.fn, r[0], r[1], (), r[2] if len(r) > 2 else None)
        return s.at({})


# ---------------------------------------------------------------- reporting


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.stopped = False
        self.since = 0
        self.until = None
        signal.signal(signal.SIGALRM, self.alarm)
        self.limit(TOTAL_S)
        self.obl = {}  # (rule, subject) -> [status, detail, where, count]
        self.rules = {}
        self.samples = []
        self.n = 0
        self.notes = []
        self.assumptions = []

    @staticmethod
    def alarm(*_):
        raise TimeUp()

    def limit(self, seconds, until=None):
        """at most so many seconds from now (never later than an enclosing limit); returns the limit replaced"""
        old = self.until
        if seconds is not None:
            until = time.time() + seconds
            if old is not None:
                until = min(old, until)
        self.until = until
        signal.setitimer(signal.ITIMER_REAL, max(0.01, until - time.time()))
        return old

    def rule(self, rid, text):
        self.rules[rid] = text

    def add(self, rule, subject, ok, where="", detail="", n=1):
        """ok: True (discharged), False (violated), None (undecided)"""
        assert rule in self.rules, rule
        self.n += n
        if ok is False and len(UNKNOWN) > self.since:
            # what was found may come from an operation the analysis does not know
            ok, detail = None, f"not decided, {UNKNOWN[self.since]} is not modelled: {detail}"[:400]
        k = (rule, subject)
        cur = self.obl.get(k)
        rank = {True: 0, None: 1, False: 2}
        if cur is None:
            self.obl[k] = [ok, detail, where, n]
        else:
            cur[3] += n
            if rank[ok] > rank[cur[0]]:
                cur[0], cur[1], cur[2] = ok, detail, where
        return ok

    def ok(self, rule, subject, where="", detail="", n=1):
        return self.add(rule, subject, True, where, detail, n)

    def bad(self, rule, subject, where="", detail=""):
        return self.add(rule, subject, False, where, detail)

    def und(self, rule, subject, where="", detail=""):
        return self.add(rule, subject, None, where, detail)

    def compare(self, rule, subject, F, oracle, where, points=None, limit=None):
        """Compare a Func with an oracle over its domain.
        oracle(point) -> ('ret', v) | ('raise', cls) | ('raise?', ) any exception | None skip"""
        cnt = 0
        for p in points if points is not None else F.points():
            exp = oracle(p)
            if exp is None:
                continue
            try:
                got = F.at(p)
            except Undec as e:
                self.und(rule, subject, where, f"at {p}: {e}")
                return None
            cnt += 1
            if not outcome_matches(got, exp):
                self.bad(rule, subject, where, f"at {show(p)}: code gives {show(got)}, required {show(exp)}")
                return False
        self.add(rule, subject, True, where, f"{cnt} input points of the closed form agree", max(cnt, 1))
        return True

    # ------------------------------------------------------------ output
    def finish(self, I, level, extra=None):
        kf = load_known(self.pid)
        viol, known, und, done = [], [], [], 0
        for (rule, subj), (okv, detail, where, n) in sorted(self.obl.items()):
            if okv is True:
                done += 1
            elif okv is None:
                und.append(dict(rule=rule, subject=subj, where=where, reason=detail))
            else:
                f = next((k for k in kf if k["rule"] == rule and k["subject"] == subj and k.get("witness", detail) == detail), None)
                if f is not None:
                    known.append((f, detail, where))
                else:
                    viol.append(dict(rule=rule, rule_text=self.rules[rule], subject=subj, where=where, detail=detail))
        samples = []
        seen = set()
        for (rule, subj), (okv, detail, where, n) in self.obl.items():
            if rule not in seen or len(samples) < 12:
                seen.add(rule)
                samples.append(dict(rule=rule, subject=subj, where=where, status={True: "holds", None: "undecided", False: "violated"}[okv], detail=str(detail)[:300], cases=n))
        ev = dict(
            property=self.pid,
            tier=self.tier,
            seed=self.seed,
            level=level,
            coverage=dict(
                explanation=(
                    "Static analysis of /repo's syntax trees (nothing of the repository is imported or run): "
                    f"{len(I.funcs_seen)} functions abstractly interpreted, {len(self.obl)} obligations "
                    f"({self.n} elementary comparisons) under {len(self.rules)} rules; {done} discharged, "
                    f"{len(und)} undecided, {len(known)} known findings, {len(viol)} violated."
                ),
                rules=self.rules,
                obligations=len(self.obl),
                discharged=done,
                undecided=und[:50],
                elementary_comparisons=self.n,
                functions_analysed=sorted(I.funcs_seen),
                opaque_operations=I.opaque_ops,
                samples=samples[:60],
                **(extra or {}),
            ),
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 3),
            violations=len(viol),
        )
        EV = os.environ.get("VERIF_EVID", f"{VERIF}/evidence")
        os.makedirs(EV, exist_ok=True)
        with open(f"{EV}/{self.pid}.json", "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        for f, detail, where in known:
            print(f"KNOWN-FINDING: property={self.pid} {f['what']} [{where}]")
        for u in und:
            print(f"note: undecided {u['rule']} {u['subject']}: {str(u['reason'])[:200]}")
        if viol:
            rp = f"{EV}/{self.pid}.violation.json"
            with open(rp, "w") as fh:
                json.dump(viol, fh, indent=1, default=str)
            for v in viol[:20]:
                print(f"  {v['where']}: [{v['rule']}] {v['subject']}: {str(v['detail'])[:400]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid}: {done}/{len(self.obl)} obligations discharged, {self.n} comparisons")
        return 0


def show(x):
    s = repr(x)
    return s if len(s) <= 240 else s[:237] + "..."


def outcome_matches(got, exp):
    if exp[0] == "raise?":
        return got[0] == "raise"
    if got[0] != exp[0]:
        return False
    if got[0] == "raise":
        return any(exc_is(got[1], e) for e in exp[1:])
    return val_eq(got[1], exp[1])


def val_eq(a, b):
    if callable(b) and not isinstance(b, V):
        return b(a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(val_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) and is_num(b) or isinstance(b, bool) and is_num(a):
        return int(a) == int(b)
    if isinstance(a, V) or isinstance(b, V):
        return type(a) is type(b) and a == b
    return a == b


def load_known(pid):
    p = f"{VERIF}/known_findings.json"
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [k for k in json.load(fh).get("findings", []) if k["property"] == pid]


# ---------------------------------------------------------------- helpers for drivers


def section(ck, rule, subject, where=""):
    """decorator: run an analysis section; anything the analysis cannot handle is 'undecided'"""

    def deco(f):
        if ck.stopped:
            ck.und(rule, subject, where, "not analysed: out of time")
            return f
        outer = ck.limit(SECTION_S)
        since, ck.since = ck.since, len(UNKNOWN)
        try:
            f()
        except TimeUp:
            ck.stopped = True
            ck.und(rule, subject, where, "out of time")
        except Broken as e:
            ck.bad(rule, subject, where or getattr(e, "where", ""), str(e))
        except (Undec, AnalysisBroken, Dead) as e:
            ck.und(rule, subject, where, f"{type(e).__name__}: {e}")
        except RecursionError:
            ck.und(rule, subject, where, "recursion limit of the analyser")
        except Exception as e:  # the analyser met a program shape it does not support
            import traceback

            tb = traceback.extract_tb(e.__traceback__)[-1]
            ck.und(rule, subject, where, f"analyser: {type(e).__name__}: {e} at {tb.filename.split('/')[-1]}:{tb.lineno}")
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        finally:
            ck.limit(None, outer)
            ck.since = since
        return f

    return deco


def loc(I, dotted):
    """file:line function of a repository function (for reports)"""
    try:
        f = I.get(dotted if dotted.startswith(PKG) else PKG + dotted)
    except AnalysisBroken:
        return dotted
    if isinstance(f, BoundV):
        f = f.fn
    if isinstance(f, FuncV):
        return f"{f.mod.rel}:{f.node.lineno} {f.qual.split('.')[-1]}"
    if isinstance(f, ClassV):
        return f"{f.name}"
    return dotted


def DICT(I, st, d):
    from .engine import DCell

    return I.new(st, DCell(list(d.items())))


def LIST(I, st, items):
    return I.mklist(st, items)


def new_obj(I, cls, kw, st, args=(), must=True):
    """abstract object built by analysing the class's constructor in state st;
    must: an exception the constructor raises (on constant arguments) breaks the property"""
    if isinstance(cls, str):
        cls = I.get(cls)
    import ast

    from .engine import Frame

    mod = cls.mod if hasattr(cls, "mod") else None
    if mod is None:
        raise AnalysisBroken("class without module")
    node = ast.parse("0").body[0]
    I.stack.append(Frame(mod, None))
    I.raises.append([])
    try:
        return I.call(cls, list(args), dict(kw), st, node)
    except Dead:
        rs = I.raises[-1]
        if must and len(rs) == 1 and getattr(rs[0][1], "node", node) is not node:
            x = rs[0][1]
            e = Broken(f"building {cls.name} raises {x.cls}")
            e.where = f"{mod.rel}:{x.node.lineno} ({cls.name})"
            raise e
        raise
    finally:
        I.raises.pop()
        I.stack.pop()


class World:
    """Enum members and constants of the analysed program, as the analyser sees them."""

    def __init__(self, I):
        self.I = I
        dt = PKG + "data.data_types."
        self.PitchType = I.get(dt + "PitchType")
        self.KeyMode = I.get(dt + "KeyMode")
        self.ChordType = I.get(dt + "ChordType")
        self.PT = {m.name: m for m in self.PitchType.members}
        self.KM = {m.name: m for m in self.KeyMode.members}
        self.CT = {m.name: m for m in self.ChordType.members}
        self.TPC, self.MIDI = self.PT["TPC"], self.PT["MIDI"]
        self.types = list(self.ChordType.members)

    def const(self, dotted):
        v = self.I.get(PKG + dotted)
        return Evalr(self.I, St(), {})(v)

    def hc(self, name):
        return self.const("utils.harmonic_constants." + name)
