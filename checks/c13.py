"""C13: beams keep the best hypotheses, at most one per recent history, within capacity."""
import ast
from fractions import Fraction

from sa.engine import Dead, Frame
from .common import *

BU = PKG + "utils.beam_search_utils."


def do(I, st, o, name, *args, **kw):
    """call a method of an abstract object in state st (updated in place); ('ret', value) or ('raise', cls)"""
    c = I.cell(st, o)
    f, _ = c.cls.lookup(name)
    if f is None:
        raise AnalysisBroken(f"anchor vanished: {c.cls.name}.{name}")
    rets, raises = I.run(f, [o] + list(args), kw, st=st)
    if len(rets) == 1 and not raises:
        s, v = rets[0]
        return s, ("ret", v)
    if not rets and len(raises) == 1:
        return raises[0][0], ("raise", raises[0][1])
    return Summary(I, rets, raises).step({})


def members(I, st, o):
    st2 = st.copy()
    I.stack.append(Frame(I.cell(st, o).cls.mod, None))
    I.raises.append([])
    try:
        its = I.concrete_items(o, st2)
    except Dead:
        its = [("iterating raises " + ", ".join(str(r[1]) for r in I.raises[-1]),)]
    finally:
        I.raises.pop()
        I.stack.pop()
    if its is None:
        raise Undec("members of the beam")
    return its


def build(I, cls, kw, st):
    o = new_obj(I, cls, kw, st)
    if not isinstance(o, Ref):
        raise Undec("constructor")
    return o


class Walk:
    def __init__(self, ck, I, hashed, k, scale):
        self.ck, self.I, self.hashed, self.k, self.scale = ck, I, hashed, k, scale
        self.cls = "HashedBeam" if hashed else "Beam"
        self.w = {m: loc(I, BU + self.cls + "." + m) for m in ("add", "fits_in_beam", "get_top_state", "empty", "__len__", "__iter__")}

    def start(self):
        st = St()
        b = build(self.I, BU + self.cls, {"beam_size": self.k}, st)
        self.check_content(st, b, {}, "a new beam")
        return st, b

    def state(self, st, score, h):
        kw = {"chord": h, "key": 1, "log_prob": score * self.scale}
        if self.hashed:
            kw["hash_length"] = 1
        return build(self.I, BU + "State", kw, st)

    def check_content(self, st, b, now, what):
        """now: ref -> (score, hash) of what must be stored"""
        I, ck = self.I, self.ck
        its = members(I, st, b)
        ok = len(its) == len(now) and set(its) == set(now)
        ck.add("content", self.cls, ok, self.w["add"], f"{what}: holds {self.sh(its, now)}, required {sorted(now.values())}")
        _, n = do(I, st.copy(), b, "__len__")
        ck.add("content", self.cls + " len", n == ("ret", len(now)), self.w["__len__"], f"{what}: length {show(n)}, required {len(now)}")
        _, t = do(I, st.copy(), b, "get_top_state")
        if not now:
            good = t == ("ret", None)
        else:
            m = max(s for s, _ in now.values())
            good = t[0] == "ret" and t[1] in now and now[t[1]][0] == m
        ck.add("top", self.cls, good, self.w["get_top_state"], f"{what}: the best state returned is {show(now.get(t[1], t) if t[0] == 'ret' else t)} of {sorted(now.values())}")
        for r in now:
            _, v = do(I, st.copy(), r, "is_valid")
            ck.add("content", self.cls + " valid", v == ("ret", True), self.w["add"], f"{what}: a stored state is marked invalid")

    def sh(self, its, now):
        return [now.get(i, "another state") for i in its]

    def add(self, st, b, now, score, h, force, what):
        """one add, judged as a relation between what was stored before and after"""
        I, ck = self.I, self.ck
        what = f"capacity {self.k}, {what}"
        s = self.state(st, score, h)
        # the oracle
        full = len(now) >= self.k
        low = min((x for x, _ in now.values()), default=None)
        room = not full or low < score
        twin = next((r for r, (x, g) in now.items() if g == h), None) if self.hashed else None
        stored = room and (twin is None or now[twin][0] < score)
        for chk in (True, False):
            _, f = do(I, st.copy(), b, "fits_in_beam", s, check_hash=chk)
            exp = stored if chk else room
            if chk is False or not self.over:
                ck.add("fits", f"{self.cls} check_hash={chk}", f == ("ret", exp), self.w["fits_in_beam"], f"{what}: fits_in_beam(score {score}, history {h}) is {show(f)} with {sorted(now.values())} stored, required {exp}")
        if force and twin is None:
            stored = True
        st, r = do(I, st, b, "add", s, force=True) if force else do(I, st, b, "add", s)
        ck.add("add", f"{self.cls} result", r == ("ret", stored), self.w["add"], f"{what}: add(score {score}, history {h}{', force' if force else ''}) returned {show(r)} with {sorted(now.values())} stored, required {stored}")
        if r[0] != "ret":
            return None
        new = dict(now)
        if stored:
            if twin is not None:
                del new[twin]
            elif full and not force:
                its = set(members(I, st, b))
                gone = [x for x in now if x not in its]
                if len(gone) == 1 and now[gone[0]][0] == low:
                    del new[gone[0]]
                else:
                    del new[next(x for x in now if now[x][0] == low)]
            new[s] = (score, h)
        n0 = len(ck.violations) if hasattr(ck, "violations") else 0
        self.check_content(st, b, new, what)
        return st, b, new

    over = False


def weak_orders(n):
    """score sequences of length n up to order isomorphism (ranks with ties)"""
    out = set()
    for t in itertools.product(range(n), repeat=n):
        m = sorted(set(t))
        out.add(tuple(m.index(x) for x in t))
    return sorted(out)


def partitions(n):
    out = [()]
    for _ in range(n):
        out = [p + (h,) for p in out for h in range(max(p, default=-1) + 2)]
    return out


def explore(W, n, hashed, limit=None):
    """every sequence of n adds, sharing prefixes"""
    tree = {}
    seqs = [tuple(zip(o, p)) for o in weak_orders(n) for p in (partitions(n) if hashed else [tuple(range(n))])]
    if limit and len(seqs) > limit:
        seqs = seqs[:: len(seqs) // limit + 1]
    st, b = W.start()
    stack = {(): (st, b, {})}
    for q in seqs:
        for i in range(1, n + 1):
            pre = q[:i]
            if pre in stack:
                continue
            base = stack[q[: i - 1]]
            if base is None:
                stack[pre] = None
                continue
            st, b, now = base
            stack[pre] = W.add(st.copy(), b, now, pre[-1][0], pre[-1][1], False, "after adding (score, history) " + ", ".join(map(str, q[: i - 1])))
    return len(seqs)


def shape(I, st, b, scores):
    """what is reachable from the beam, scores replaced by ranks and histories by order of appearance:
    since scores are only compared and histories only told apart, equal shapes behave alike"""
    refs, hist, found = {}, {}, []

    def walk(v):
        if isinstance(v, Ref):
            if v in refs:
                return ("ref", refs[v])
            refs[v] = len(refs)
            c = I.cell(st, v)
            if c is None:
                raise Undec("reachable cell")
            if c.kind == "list":
                return ("list",) + tuple(walk(i) for i in c.items)
            if c.kind == "dict":
                return ("dict",) + tuple((walk(k), walk(x)) for k, x in c.items)
            if c.kind == "set":
                return ("set",) + tuple(walk(i) for i in c.items)
            if c.kind == "obj":
                return (c.cls.name,) + tuple((n, walk(c.attrs[n])) for n in sorted(c.attrs))
            raise Undec("reachable " + c.kind)
        if isinstance(v, Tup):
            return ("tup",) + tuple(walk(i) for i in v.items)
        if v in scores and not isinstance(v, bool):
            found.append(v)
            return ("score", v)
        if isinstance(v, int) and not isinstance(v, bool) and v >= 1000:
            return ("history", hist.setdefault(v, len(hist)))
        return ("value", repr(v))

    t = walk(b)
    rank = {v: i for i, v in enumerate(sorted(set(found)))}

    def sub(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == "score":
                return ("score", rank[t[1]])
            return tuple(sub(x) for x in t)
        return t

    return sub(t), sorted(set(found)), [h for h in hist]


def reach(W, depth, cap):
    """every sequence of adds up to the given length, one representative per shape of the beam"""
    I = W.I
    st, b = W.start()
    front, seen, n = [(st, b, {}, ())], set(), 0
    fresh = 1000
    allscores = set()
    for d in range(depth):
        new = []
        for st, b, now, path in front:
            _, sc, hs = shape(I, st, b, allscores)
            gaps = [sc[0] - 1] + [x for i, a in enumerate(sc) for x in ([a, (a + sc[i + 1]) / 2] if i + 1 < len(sc) else [a, a + 1])] if sc else [Fraction(1, 3)]
            fresh += 1
            for h in (hs if W.hashed else []) + [fresh]:
                for x in gaps:
                    x = Fraction(x)
                    if n >= cap:
                        return n, d
                    n += 1
                    allscores.add(x)
                    q = path + ((str(x), h - 1000),)
                    r = W.add(st.copy(), b, now, x, h, False, "after adding (score, history) " + ", ".join(f"({s}, {g})" for s, g in path))
                    if r is None:
                        continue
                    key = shape(I, r[0], b, allscores)[0]
                    if key not in seen:
                        seen.add(key)
                        new.append(r + (q,))
        front = new
        if not front:
            break
    return n, depth


def forced(W):
    """forced adds exceed the capacity and nothing is lost; later adds still displace the lowest"""
    for sc in itertools.product(range(3), repeat=3):
        st, b = W.start()
        now = {}
        W.over = False
        r = (st, b, now)
        for i, s in enumerate(sc):
            r = W.add(r[0], r[1], r[2], s, i, True, f"forced adds of scores {sc[:i]}")
            if r is None:
                return
            W.over = len(r[2]) > W.k
        for s in (3, 0):
            W.add(r[0].copy(), r[1], r[2], s, 9, False, f"after forced adds of scores {sc}")
        if W.hashed:
            # a forced duplicate never stores two states of one history
            W.add(r[0].copy(), r[1], r[2], 3, 1, True, f"after forced adds of scores {sc}")
            W.add(r[0].copy(), r[1], r[2], -1, 1, True, f"after forced adds of scores {sc}")
    W.over = False


def emptied(W):
    I, ck = W.I, W.ck
    st, b = W.start()
    r = (st, b, {})
    for s, h in ((2, 0), (1, 1), (3, 0)):
        r = W.add(*r, s, h, False, "before emptying")
        if r is None:
            return
    st, _ = do(I, r[0], r[1], "empty")
    its = members(I, st, b)
    ck.add("empty", W.cls, its == [], W.w["empty"], f"after emptying the beam it holds {its}")
    if its == []:
        W.check_content(st, b, {}, "an emptied beam")
    r = (st, b, {})
    for s, h in ((1, 0), (2, 0), (0, 1), (5, 2)):
        try:
            r = W.add(*r, s, h, False, "after emptying the beam")
        except Undec as e:
            ck.und("empty", W.cls + " reuse", W.w["empty"], str(e))
            return
        if r is None:
            ck.bad("empty", W.cls + " reuse", W.w["empty"], "an emptied beam cannot be used again")
            return
    ck.ok("empty", W.cls + " reuse", W.w["empty"])


def unhashed_in_hashed(ck, I):
    """states without a hash are distinct hypotheses"""
    st = St()
    b = build(I, BU + "HashedBeam", {"beam_size": 3}, st)
    refs = []
    for s in (1, 1, 2):
        x = build(I, BU + "State", {"chord": 1, "key": 1, "log_prob": s}, st)
        refs.append(x)
        st, r = do(I, st, b, "add", x)
    its = members(I, st, b)
    ck.add("content", "states without a hash", set(its) == set(refs), loc(I, BU + "HashedBeam.add"), f"{len(its)} of 3 states without a history hash are kept")


def hashes(ck, I):
    """the history: the last hash_length (key, chord) pairs"""
    w = loc(I, BU + "State.get_hash")
    for n in (1, 2, 3):
        for m in range(1, 5):
            st = St()
            prev, pairs = None, []
            for i in range(m):
                pairs.append((10 + i, 20 + i))
                prev = build(I, BU + "State", {"chord": 20 + i, "key": 10 + i, "prev_state": prev, "hash_length": n}, st)
            _, r = do(I, st, prev, "get_hash")
            exp = ([None] * n + pairs)[-n:]
            got = Evalr(I, st, {})(r[1]) if r[0] == "ret" else r
            ck.add("hash", f"length {n}", got == tuple(exp), w, f"history of {pairs} with hash length {n}: {show(got)}, required {tuple(exp)}")
    # same recent history <=> same hash, older differences do not matter, recent ones do
    st = St()

    def chain(ps):
        p = None
        for k, c in ps:
            p = build(I, BU + "State", {"chord": c, "key": k, "prev_state": p, "hash_length": 2}, st)
        return Evalr(I, st, {})(do(I, st, p, "get_hash")[1][1])

    base = [(1, 1), (2, 2), (3, 3)]
    h = chain(base)
    ck.add("hash", "older history ignored", chain([(7, 7)] + base[1:]) == h, w, "a difference older than the hash length changes the hash")
    for alt in ([(1, 1), (2, 2), (3, 4)], [(1, 1), (2, 2), (4, 3)], [(1, 1), (2, 5), (3, 3)], [(1, 1), (5, 2), (3, 3)]):
        ck.add("hash", "recent history decides", chain(alt) != h, w, f"histories {alt} and {base} share a hash")


def run(ck, I, tier):
    ck.rule("content", "after every sequence of adds the beam holds what the definition gives: below capacity everything (one per history in a hashed beam, the better one), at capacity a new state displaces a lowest-scored one only if it is better")
    ck.rule("add", "add reports whether the state was stored")
    ck.rule("fits", "fits_in_beam tells, without changing the beam, whether add would store the state")
    ck.rule("top", "get_top_state is a state of the highest score, None when empty")
    ck.rule("empty", "empty removes every state and leaves a usable beam")
    ck.rule("hash", "a state's hash is its last hash_length (key, chord) pairs")
    deep = tier == "thorough"
    for hashed in (False, True):
        for k in (1, 2, 3):
            for scale in (1.0, 1e-9):
                if scale != 1.0 and k != 2:
                    continue
                W = Walk(ck, I, hashed, k, scale)
                nm = W.cls
                n = 5 if deep else 4
                section(ck, "content", f"{nm} capacity {k}")(lambda: explore(W, n, hashed, None if not deep else 4000))
            if hashed:
                W2 = Walk(ck, I, hashed, k, 1)
                section(ck, "content", f"{W2.cls} capacity {k}, longer sequences")(lambda: reach(W2, {1: 8, 2: 12 if deep else 8, 3: 7 if deep else 5}[k], 60000 if deep else 3000))
        for k in (1, 2):
            W = Walk(ck, I, hashed, k, 1.0)
            section(ck, "add", f"{W.cls} forced {k}")(lambda: forced(W))
        for k in (1, 2, 4):
            W = Walk(ck, I, hashed, k, 1.0)
            section(ck, "empty", f"{W.cls} {k}")(lambda: emptied(W))
    section(ck, "content", "states without a hash")(lambda: unhashed_in_hashed(ck, I))
    section(ck, "hash", "history")(lambda: hashes(ck, I))
