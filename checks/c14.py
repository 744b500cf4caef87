"""C14: hypotheses of the search - transitions, scores, histories, model inputs."""
from fractions import Fraction
import math

from sa import nd
from .common import *
from .c06 import tones
from .c07 import expected as chord_vec
from .c09 import decode_fn, key_vec
from .c13 import BU, build, do

SC = ("lp0", "lp1", "lp2", "lk", "ls", "lc")


def fsym(n):
    return T("sym", n, "frac")


class Ctx:
    """labels, caches and symbolic scores shared by the checks"""

    def __init__(self, I, W, pt, chords, keys, n=6):
        self.I, self.W, self.pt = I, W, pt
        self.st = St()
        st = self.st
        self.chords, self.keys = chords, keys
        self.labels = DICT(I, st, {
            "chord": LIST(I, st, [Tup(c) for c in chords]),
            "key": LIST(I, st, [Tup(k) for k in keys]),
        })
        self.dur = [Fraction(i + 1, 8) for i in range(n)]
        self.onsets = [(i // 2, Fraction(i % 2, 4)) for i in range(n + 1)]
        self.levels = [(i * 2 + 1) % 4 for i in range(n + 1)]
        self.caches = [
            nd.mk(I, st, (n,), list(self.dur)),
            LIST(I, st, [Tup(o) for o in self.onsets]),
            LIST(I, st, list(self.levels)),
        ]

    def state(self, **kw):
        return build(self.I, BU + "State", kw, self.st)

    def do(self, o, name, *a, **kw):
        self.st, r = do(self.I, self.st, o, name, *a, **kw)
        return r

    def must(self, o, name, *a, **kw):
        r = self.do(o, name, *a, **kw)
        if r[0] != "ret":
            raise Broken(f"{name} raises {r[1].cls}")
        return r[1]

    def chord_to(self, o, c, idx, lp):
        return self.must(o, "chord_transition", c, idx, lp, self.pt, self.labels)

    def key_to(self, o, k, lp):
        return self.must(o, "key_transition", k, lp, self.pt, self.labels)

    def rejoin(self, o, idx, lp):
        return self.must(o, "rejoin", idx, lp, self.pt, self.labels)

    def attr(self, o, name):
        c = self.I.cell(self.st, o)
        if c is None or c.kind != "obj" or name not in c.attrs:
            raise Undec(f"attribute {name}")
        return c.attrs[name]

    def ev(self, v, **env):
        return Evalr(self.I, self.st, env)(v)

    def snapshot(self, o):
        c = self.I.cell(self.st, o)
        return {k: (v if isinstance(v, Ref) else self.I.freeze(v, self.st)) for k, v in c.attrs.items() if not k.endswith("_obj")}


def bass_of(W, c, pt):
    root, t, inv = c
    f = tones(t)[inv]
    if pt == W.MIDI:
        return (root + 7 * f) % 12
    return root + f


def run(ck, I, tier):
    ck.rule("chord", "a chord transition extends a hypothesis: given chord and end, same key, score increased by the given log-probability, the hypothesis as predecessor, hidden states and priors carried over; refused (None) iff root or bass leave the padded interval range around the tonic; it must change key iff they leave the unpadded range")
    ck.rule("key", "a key transition replaces the key of the current chord, keeps chord, end and predecessor, adds the given log-probability, restarts from the predecessor's key models, and is refused iff root or bass leave the interval range around the new tonic")
    ck.rule("rejoin", "rejoining extends the current chord to the new end, returns to the predecessor's key and models, and replaces the chord's sequence, key-change and key scores by the given log-probability")
    ck.rule("copy", "a copy behaves as the original and changing it leaves the original alone")
    ck.rule("parent", "no transition changes the hypothesis it starts from")
    ck.rule("objects", "a hypothesis's chord and key objects have the labelled root, type, inversion, bass and tonic, the span's positions, levels and summed duration, and the first hypothesis's key as global key")
    ck.rule("inputs", "model inputs are the chord's vector followed by the key-change vector and flag; the key sequence input holds one row per chord since that model last ran, in order")
    ck.rule("prior", "the chord sequence prior adds the prior of the (reduced) relative chord times the span's length; for pitch-based priors, the log-likelihood of the chord's pitches")
    ck.rule("path", "the listed chords, keys and change positions are those of the path")
    W = World(I)
    I.max_rec = 12
    for pt in W.PT.values():
        section(ck, "chord", pt.name)(lambda: chord_range(ck, I, W, pt, tier))
        section(ck, "key", pt.name)(lambda: key_range(ck, I, W, pt, tier))
        section(ck, "rejoin", pt.name)(lambda: rejoin_range(ck, I, W, pt, tier))
        section(ck, "chord", f"{pt.name} fields")(lambda: fields(ck, I, W, pt))
        section(ck, "objects", pt.name)(lambda: objects(ck, I, W, pt))
        section(ck, "objects", f"{pt.name} after steps")(lambda: observed(ck, I, W, pt, tier))
        section(ck, "inputs", pt.name)(lambda: inputs(ck, I, W, pt))
        section(ck, "inputs", f"{pt.name} KSM")(lambda: ksm(ck, I, W, pt))
        section(ck, "prior", pt.name)(lambda: prior(ck, I, W, pt))
    section(ck, "rejoin", "scores")(lambda: scores(ck, I, W))
    section(ck, "copy", "State")(lambda: copies(ck, I, W))
    section(ck, "path", "State")(lambda: paths(ck, I, W))


def rng(W, pad):
    e = W.hc("RELATIVE_TPC_EXTRA") if pad else 0
    return W.hc("MIN_RELATIVE_TPC") - e, W.hc("MAX_RELATIVE_TPC") + e


def kinds(W, tier):
    out = [(W.CT["MAJOR"], 0), (W.CT["MAJOR"], 1), (W.CT["MIN_MIN7"], 3), (W.CT["DIM7"], 3), (W.CT["AUG_MAJ7"], 2), (W.CT["AUG_MAJ7"], 3)]
    if tier == "thorough":
        out = [(t, i) for t in W.types for i in range(len(tones(t)))]
    return out


def verdicts(W, pt, c, tonic):
    b = bass_of(W, c, pt)
    n = W.hc("NUM_PITCHES")[pt]
    if not 0 <= b < n:
        return None
    lo, hi = rng(W, True)
    ul, uh = rng(W, False)
    ds = [c[0] - tonic, b - tonic]
    return all(lo <= d < hi for d in ds), all(ul <= d < uh for d in ds)


def chord_range(ck, I, W, pt, tier):
    """acceptance of a chord as a function of (root, tonic), symbolic in both"""
    w = loc(I, BU + "State.chord_transition")
    n = W.hc("NUM_PITCHES")[pt]
    for t, inv in kinds(W, tier):
        def mk(v):
            C = Ctx(I, W, pt, [(v["r"], t, inv), (3, t, 0)], [(1, W.KM["MAJOR"]), (v["k"], W.KM["MINOR"])])
            s0 = C.state(key=1, log_prob=0)
            return [s0, 0, 2, 0, pt, C.labels], {}, C.st

        F = Func(I, BU + "State.chord_transition", mk, {"r": (0, n - 1), "k": (0, n - 1)})
        for r, k in itertools.product(range(n), repeat=2):
            e = verdicts(W, pt, (r, t, inv), k)
            if e is None:
                continue
            got = F.at({"r": r, "k": k})
            ok = got[0] == "ret" and (isinstance(got[1], Obj) if e[0] else got[1] is None)
            ck.add("chord", f"{pt.name} {t.name} inversion={inv} accepted", ok, w, f"root {r} in a key with tonic {k}: {show(got[0] if isinstance(got[1], Obj) else got)}, required {'a state' if e[0] else 'None'}")
        # must-change-key, on a covering set of distances
        for k in sorted({0, 5, n // 2, n - 1}):
            for r in range(n):
                e = verdicts(W, pt, (r, t, inv), k)
                if e is None or not e[0]:
                    continue
                C = Ctx(I, W, pt, [(r, t, inv)], [(k, W.KM["MAJOR"])])
                s = C.chord_to(C.state(key=0), 0, 1, 0)
                if not isinstance(s, Ref):
                    continue
                for kw, exp in (({}, True), ({"check_key": False}, True), ({"check_key": True}, e[1])):
                    got = C.do(s, "is_valid", **kw)
                    ck.add("chord", f"{pt.name} {t.name} inversion={inv} may keep its key", got == ("ret", exp), w, f"root {r}, tonic {k}: is_valid({kw}) is {show(got)}, required {exp}")


def key_range(ck, I, W, pt, tier):
    w = loc(I, BU + "State.key_transition")
    n = W.hc("NUM_PITCHES")[pt]
    for t, inv in kinds(W, tier):
        for old in (0, n - 1):
            def mk(v):
                C = Ctx(I, W, pt, [(v["r"], t, inv)], [(old, W.KM["MAJOR"]), (v["k"], W.KM["MINOR"])])
                s0 = C.state(key=0, log_prob=0)
                s1 = C.state(key=0, chord=0, change_index=1, prev_state=s0)
                return [s1, 1, 0, pt, C.labels], {}, C.st

            F = Func(I, BU + "State.key_transition", mk, {"r": (0, n - 1), "k": (0, n - 1)})
            for r, k in itertools.product(range(n), range(0, n) if old == 0 else range(0, n, 5)):
                e = verdicts(W, pt, (r, t, inv), k)
                if e is None:
                    continue
                got = F.at({"r": r, "k": k})
                ok = got[0] == "ret" and (isinstance(got[1], Obj) if e[1] else got[1] is None)
                ck.add("key", f"{pt.name} {t.name} inversion={inv} accepted", ok, w, f"root {r} into a key with tonic {k}: {show(got[0] if isinstance(got[1], Obj) else got)}, required {'a state' if e[1] else 'None'}")


def rejoin_range(ck, I, W, pt, tier):
    w = loc(I, BU + "State.rejoin")
    n = W.hc("NUM_PITCHES")[pt]
    for t, inv in kinds(W, tier):
        for k in sorted({0, 7, n - 1}):
            for r in range(n):
                e = verdicts(W, pt, (r, t, inv), k)
                if e is None:
                    continue
                C = Ctx(I, W, pt, [(r, t, inv)], [(k, W.KM["MAJOR"]), ((r + n // 2) % n, W.KM["MAJOR"])])
                s0 = C.state(key=0)
                s1 = C.state(key=1, chord=0, change_index=1, prev_state=s0)
                s = C.rejoin(s1, 2, 0)
                if not isinstance(s, Ref):
                    ck.bad("rejoin", f"{pt.name} {t.name}", w, "no state")
                    continue
                got = C.do(s, "is_valid", check_key=True)
                ck.add("rejoin", f"{pt.name} {t.name} inversion={inv} may keep its key", got == ("ret", e[1]), w, f"root {r}, tonic of the previous key {k}: is_valid(check_key=True) is {show(got)}, required {e[1]}")


def base(I, W, pt):
    M, m = W.KM["MAJOR"], W.KM["MINOR"]
    o = 0 if pt == W.MIDI else 12
    chords = [(o + 3, W.CT["MAJOR"], 0), (o + 4, W.CT["MIN_MIN7"], 1), (o + 2, W.CT["DIMINISHED"], 2), (o + 5, W.CT["MAJ_MIN7"], 3)]
    keys = [(o + 3, M), (o + 4, m), (o + 1, M), (o + 3, m)]
    return Ctx(I, W, pt, chords, keys)


def ten(C, tag):
    return build(C.I, "vmodels.Tensor", {"tag": tag}, C.st)


def hid(C, tag, cell=None):
    return Tup((ten(C, tag), ten(C, cell or tag + "c")))


def tag_of(C, v):
    v = C.I.resolve(v, C.st)
    if v is None:
        return None
    if isinstance(v, Tup) and v.items and isinstance(v.items[0], Ref):
        return C.ev(C.I.cell(C.st, v.items[0]).attrs["tag"])
    raise Undec("hidden state")


def look(C, o, **env):
    """observable content of a state"""
    out = {}
    for a in ("chord", "key", "change_index"):
        out[a] = C.ev(C.attr(o, a), **env)
    out["log_prob"] = C.ev(C.attr(o, "log_prob"), **env)
    out["prev_state"] = C.attr(o, "prev_state")
    for a in ("csm_hidden_state", "ktm_hidden_state", "ksm_hidden_state"):
        out[a] = tag_of(C, C.attr(o, a))
    out["csm_log_prior"] = C.ev(C.attr(o, "csm_log_prior"), **env)
    out["hash"] = C.ev(C.must(o, "get_hash")) if "hash_tuple" in I_attrs(C, o) else None
    return out


def I_attrs(C, o):
    return C.I.cell(C.st, o).attrs


def cmp(ck, rule, subj, w, got, exp, what):
    for k, e in exp.items():
        g = got.get(k)
        ok = g == e if k in ("prev_state",) else val_eq(g, e)
        ck.add(rule, f"{subj} {k}", ok, w, f"{what}: {k} is {show(g)}, required {show(e)}")


ENV = {"lp0": Fraction(-7, 3), "lp1": Fraction(-11, 5), "lp2": Fraction(-13, 7), "lk": Fraction(-17, 11), "ls": Fraction(-19, 13), "lc": Fraction(-23, 17), "lp3": Fraction(-29, 19)}


def fields(ck, I, W, pt):
    for hl in (None, 1, 3):
        C = base(I, W, pt)
        kw = {} if hl is None else {"hash_length": hl}
        s0 = C.state(key=0, log_prob=fsym("lp0"), csm_hidden_state=hid(C, "c0"), ktm_hidden_state=hid(C, "t0"), ksm_hidden_state=hid(C, "s0"), csm_log_prior="prior0", **kw)
        before = C.snapshot(s0)
        s1 = C.chord_to(s0, 1, 2, fsym("lp1"))
        w = loc(I, BU + "State.chord_transition")
        h = lambda ps: None if hl is None else tuple(([None] * hl + ps)[-hl:])
        cmp(ck, "chord", f"{pt.name} new", w, look(C, s1, **ENV), dict(chord=1, key=0, change_index=2, log_prob=ENV["lp0"] + ENV["lp1"], prev_state=s0, csm_hidden_state="c0", ktm_hidden_state="t0", ksm_hidden_state="s0", csm_log_prior="prior0", hash=h([(0, None), (0, 1)])), "after a chord transition")
        ck.add("parent", "chord_transition", C.snapshot(s0) == before, w, "the starting hypothesis changed")
        # different models of the predecessor and of the state
        for a, t in (("csm_hidden_state", "c1"), ("ktm_hidden_state", "t1"), ("ksm_hidden_state", "s1")):
            C.I.put(C.st, s1, with_attr(C, s1, a, hid(C, t)))
        C.I.put(C.st, s1, with_attr(C, s1, "csm_log_prior", "prior1"))
        before0, before1 = C.snapshot(s0), C.snapshot(s1)
        k1 = C.key_to(s1, 2, fsym("ls"))
        w = loc(I, BU + "State.key_transition")
        cmp(ck, "key", f"{pt.name} new", w, look(C, k1, **ENV), dict(chord=1, key=2, change_index=2, log_prob=ENV["lp0"] + ENV["lp1"] + ENV["ls"], prev_state=s0, csm_hidden_state="c1", ktm_hidden_state="t0", ksm_hidden_state="s0", csm_log_prior="prior1", hash=h([(0, None), (2, 1)])), "after a key transition")
        ck.add("parent", "key_transition", C.snapshot(s0) == before0 and C.snapshot(s1) == before1, w, "the starting hypothesis changed")
        got = C.do(k1, "is_valid", check_key=True)
        ck.add("key", f"{pt.name} valid", got == ("ret", True), w, f"a state which has just changed key: is_valid(check_key=True) is {show(got)}")
        r1 = C.rejoin(k1, 4, fsym("lp2"))
        w = loc(I, BU + "State.rejoin")
        cmp(ck, "rejoin", f"{pt.name} new", w, look(C, r1, **ENV), dict(chord=1, key=0, change_index=4, prev_state=s0, csm_hidden_state="c0", ktm_hidden_state="t0", ksm_hidden_state="s0", csm_log_prior="prior0", hash=h([(0, None), (0, 1)])), "after rejoining")
        key = C.do(r1, "get_key", pt, C.labels)
        ck.add("rejoin", f"{pt.name} key", key_is(C, key, C.keys[0], C.keys[0]), w, f"after rejoining, the key is {show(key)}")
        for depth, o in ((0, s0), (1, s1)):
            got = C.do(o, "can_key_transition")
            ck.add("key", f"{pt.name} can_key_transition", got == ("ret", False), loc(I, BU + "State.can_key_transition"), f"{depth} chords: {show(got)}")
        s2 = C.chord_to(s1, 2, 3, 0)
        got = C.do(s2, "can_key_transition")
        ck.add("key", f"{pt.name} can_key_transition", got == ("ret", True), loc(I, BU + "State.can_key_transition"), f"2 chords: {show(got)}")


def with_attr(C, o, name, v):
    c = C.I.cell(C.st, o)
    return type(c)(c.cls, {**c.attrs, name: v}, c.origin)


def key_is(C, r, k, g):
    if r[0] != "ret" or not isinstance(r[1], Ref):
        return False
    o = C.ev(r[1])
    exp = dict(relative_tonic=k[0], local_tonic=k[0], global_tonic=g[0], relative_mode=k[1], local_mode=k[1], global_mode=g[1], tonic_type=C.pt)
    return isinstance(o, Obj) and o.cls == "Key" and all(val_eq(o.get(f), v) for f, v in exp.items())


def scores(ck, I, W):
    """the score bookkeeping along every order of the search's steps"""
    pt = W.TPC
    w = loc(I, BU + "State.rejoin")
    steps = {
        "ktm": lambda C, s: (C.must(s, "add_ktm_log_prob", fsym("lk")), s)[1],
        "key": lambda C, s: C.key_to(s, 2, fsym("ls")),
        "csm": lambda C, s: csm_step(C, s),
        "copy": lambda C, s: C.must(s, "copy"),
        "rejoin": lambda C, s: C.rejoin(s, 5, fsym("lp2")),
        "chord": lambda C, s: C.chord_to(s, 2, 4, fsym("lp3")),
    }

    def csm_step(C, s):
        # prior value of the sequence model: the same for every chord
        n = 2000
        C.I.put(C.st, s, with_attr(C, s, "csm_log_prior", nd.mk(I, C.st, (n,), [fsym("lc")] * n)))
        C.must(s, "add_csm_prior", False, pt, *C.caches, C.labels, True, None)
        return s

    seqs = [
        ("ktm",), ("ktm", "csm"), ("ktm", "key"), ("ktm", "csm", "rejoin"), ("ktm", "key", "rejoin"), ("rejoin",),
        ("ktm", "csm", "rejoin", "ktm", "csm"), ("ktm", "key", "rejoin", "ktm", "key", "rejoin"), ("copy", "ktm", "key", "rejoin"),
        ("ktm", "csm", "copy", "rejoin"), ("ktm", "key", "copy", "rejoin"), ("ktm", "copy", "key", "rejoin"), ("ktm", "csm", "chord"), ("ktm", "csm", "chord", "ktm", "csm"),
        ("ktm", "csm", "rejoin", "rejoin"), ("ktm", "csm", "chord", "rejoin"), ("ktm", "key", "chord", "ktm", "rejoin"), ("ktm", "csm", "chord", "ktm", "csm", "rejoin"),
    ]
    for q in seqs:
        C = base(I, W, pt)
        s = C.state(key=0, log_prob=fsym("lp0"))
        s = C.chord_to(s, 1, 2, fsym("lp1"))
        exp, own, start, end = ENV["lp0"] + ENV["lp1"], {}, 0, 2
        for x in q:
            s = steps[x](C, s)
            if not isinstance(s, Ref):
                raise Undec(f"{q}: no state after {x}")
            if x == "ktm":
                exp += ENV["lk"]
                own["ktm"] = ENV["lk"]
            elif x == "key":
                exp += ENV["ls"]
                own["ksm"] = ENV["ls"]
            elif x == "csm":
                exp += ENV["lc"] * (end - start)
                own["csm"] = ENV["lc"] * (end - start)
            elif x == "rejoin":
                exp += ENV["lp2"] - sum(own.values())
                own = {}
                end = 5
            elif x == "chord":
                exp += ENV["lp3"]
                own, start, end = {}, end, 4
        got = C.ev(C.attr(s, "log_prob"), **ENV)
        ck.add("rejoin", "scores " + "-".join(q), val_eq(got, exp), w, f"score after chord-{'-'.join(q)}: {show(got)}, required {show(exp)}")
        # the probability is a running sum: predecessors keep theirs
    C = base(I, W, pt)
    a = C.state(key=0, log_prob=fsym("lp0"))
    b = C.state(key=0, log_prob=fsym("lp1"))
    for x, y in ((-2, -1), (-1, -2), (-1, -1)):
        got = summarise(I, BU + "State.__lt__", [a, b], {}, st=C.st.copy()).at({"lp0": x, "lp1": y})
        ck.add("rejoin", "order", got == ("ret", x < y), loc(I, BU + "State.__lt__"), f"scores {x} < {y}: {show(got)}")


def copies(ck, I, W):
    w = loc(I, BU + "State.copy")
    for hl in (None, 2):
        kw = {} if hl is None else {"hash_length": hl}
        C = base(I, W, W.TPC)
        s0 = C.state(key=0, log_prob=fsym("lp0"), **kw)
        s1 = C.chord_to(s0, 1, 2, fsym("lp1"))
        C.I.put(C.st, s1, with_attr(C, s1, "csm_hidden_state", hid(C, "c1")))
        C.I.put(C.st, s1, with_attr(C, s1, "ktm_hidden_state", hid(C, "t1")))
        C.I.put(C.st, s1, with_attr(C, s1, "ksm_hidden_state", hid(C, "s1")))
        C.I.put(C.st, s1, with_attr(C, s1, "csm_log_prior", "prior1"))
        if hl:
            C.must(s1, "get_chord", W.TPC, *C.caches, C.labels)
        before = C.snapshot(s1)
        c = C.must(s1, "copy")
        key = C.do(c, "get_key", W.TPC, C.labels)
        ck.add("copy", "key", key_is(C, key, C.keys[0], C.keys[0]), w, f"key of the copy: {show(key)}")
        before = C.snapshot(s1)
        ck.add("copy", "new object", isinstance(c, Ref) and c != s1, w, "the copy is the state itself")
        a, b = look(C, s1, **ENV), look(C, c, **ENV)
        cmp(ck, "copy", "State", w, b, a, "a copy")
        C.must(c, "add_ktm_log_prob", fsym("lk"))
        C.must(c, "invalidate")
        ck.add("copy", "independent", C.snapshot(s1) == before and C.do(s1, "is_valid") == ("ret", True), w, "changing the copy changes the original")
        ck.add("copy", "invalidate", C.do(c, "is_valid") == ("ret", False), loc(I, BU + "State.invalidate"), "an invalidated state is valid")
    # a state which must change key: so must its copy
    for r, exp in ((17, True), (33, False)):
        C = Ctx(I, W, W.TPC, [(r, W.CT["MAJOR"], 0)], [(15, W.KM["MAJOR"])])
        c = C.must(C.chord_to(C.state(key=0), 0, 1, 0), "copy")
        got = C.do(c, "is_valid", check_key=True)
        ck.add("copy", "may keep its key", got == ("ret", exp), w, f"copy of a chord {r - 15} fifths from the tonic: is_valid(check_key=True) is {show(got)}")


def objects(ck, I, W, pt):
    w = loc(I, BU + "State.get_chord")
    C = base(I, W, pt)
    s0 = C.state(key=1)
    s1 = C.chord_to(s0, 0, 2, 0)
    s2 = C.chord_to(s1, 1, 3, 0)
    k2 = C.key_to(s2, 2, 0)
    s3 = C.chord_to(k2, 3, 6, 0)
    k3 = C.key_to(s3, 0, 0)
    k3b = C.key_to(s3, 1, 0)
    r = C.do(k3b, "get_chord", pt, *C.caches, C.labels)
    o = C.ev(r[1]) if r[0] == "ret" else None
    ck.add("objects", f"{pt.name} chord in a new key", isinstance(o, Obj) and val_eq(o.get("key_tonic"), C.keys[1][0]) and val_eq(o.get("key_mode"), C.keys[1][1]), w, f"chord of a state which has just changed key: {show(o or r)}")
    for nm, s, c, a, b, key in (("first", s1, 0, 0, 2, 1), ("second", s2, 1, 2, 3, 1), ("second, changed key", k2, 1, 2, 3, 2), ("third", s3, 3, 3, 6, 2), ("third, changed key", k3, 3, 3, 6, 0)):
        for _ in range(2):  # the second call uses the cached object
            r = C.do(s, "get_key", pt, C.labels)
            ck.add("objects", f"{pt.name} key", key_is(C, r, C.keys[key], C.keys[1]), loc(I, BU + "State.get_key"), f"key of the {nm} chord: {show(C.ev(r[1]) if r[0] == 'ret' else r)}")
            r = C.do(s, "get_chord", pt, *C.caches, C.labels)
            root, t, inv = C.chords[c]
            exp = dict(root=root, bass=bass_of(W, C.chords[c], pt), key_tonic=C.keys[key][0], key_mode=C.keys[key][1], chord_type=t, inversion=inv, onset=C.onsets[a], onset_level=C.levels[a], offset=C.onsets[b], offset_level=C.levels[b], duration=sum(C.dur[a:b]), pitch_type=pt)
            if r[0] != "ret":
                ck.bad("objects", f"{pt.name} chord", w, f"{nm}: {show(r)}")
                continue
            o = C.ev(r[1])
            bad = [f"{f} is {show(o.get(f))}, required {show(v)}" for f, v in exp.items() if not val_eq(o.get(f), v)]
            ck.add("objects", f"{pt.name} chord", not bad, w, f"{nm} chord: {'; '.join(bad)}")


def observed(ck, I, W, pt, tier):
    """chord, key and inputs after every order of steps, whether or not they were asked for on the way"""
    w = loc(I, BU + "State.get_chord")
    seqs = [("chord",) + q for n in range(4 if tier == "thorough" else 3) for q in itertools.product(("chord", "key", "rejoin", "copy"), repeat=n)]
    seqs += [("chord", "chord", "key", "rejoin"), ("chord", "key", "chord", "key", "rejoin"), ("chord", "key", "chord", "rejoin", "key"), ("chord", "chord", "key", "copy", "rejoin"), ("chord", "chord", "key", "rejoin", "chord")]
    for q, asked in itertools.product(dict.fromkeys(seqs), (True, False)):
        C = base(I, W, pt)
        s = C.state(key=1)
        segs = []  # chord, start, end, key, key before
        what = "-".join(q) + (" (asked at every step)" if asked else "")
        nxt, at = 0, 0
        for i, x in enumerate(q):
            if x == "chord":
                k = segs[-1][3] if segs else 1
                s = C.chord_to(s, nxt, at + 1, 0)
                segs.append([nxt, at, at + 1, k, k])
                nxt, at = (nxt + 1) % len(C.chords), at + 1
            elif x == "key":
                k = next(k for k in (2, 0, 1) if k not in segs[-1][3:])
                s = C.key_to(s, k, 0)
                segs[-1][3] = k
            elif x == "rejoin":
                s = C.rejoin(s, at + 1, 0)
                segs[-1][2:4] = [at + 1, segs[-1][4]]
                at += 1
            else:
                s = C.must(s, "copy")
            if s is None:
                raise Undec("refused step")
            if asked or i == len(q) - 1:
                c, a, b, k, kp = segs[-1]
                r = C.do(s, "get_key", pt, C.labels)
                ck.add("objects", f"{pt.name} key after steps", key_is(C, r, C.keys[k], C.keys[1]), loc(I, BU + "State.get_key"), f"after {what}: the key is {show(C.ev(r[1]) if r[0] == 'ret' else r)}, required {show(C.keys[k])}")
                r = C.do(s, "get_chord", pt, *C.caches, C.labels)
                o = C.ev(r[1]) if r[0] == "ret" else None
                exp = dict(root=C.chords[c][0], bass=bass_of(W, C.chords[c], pt), key_tonic=C.keys[k][0], key_mode=C.keys[k][1], chord_type=C.chords[c][1], inversion=C.chords[c][2], onset=C.onsets[a], onset_level=C.levels[a], offset=C.onsets[b], offset_level=C.levels[b], duration=sum(C.dur[a:b]))
                bad = [f"{f} is {show(o.get(f))}, required {show(v)}" for f, v in exp.items() if not val_eq(o.get(f), v)] if isinstance(o, Obj) else [show(r)]
                ck.add("objects", f"{pt.name} chord after steps", not bad, w, f"after {what}: {'; '.join(bad)}")
                for fn, pad in (("get_csm_input", False), ("get_ktm_input", True)):
                    r = C.do(s, fn, pt, *C.caches, C.labels)
                    got = C.ev(r[1]) if r[0] == "ret" else r
                    ck.add("inputs", f"{pt.name} {fn} after steps", isinstance(got, (list, tuple)) and len(got) == 1 and vec_eq(got[0], vecs(C, c, a, b, k, kp, pad)), loc(I, BU + "State." + fn), f"after {what}: the input is not that of the chord and key")


def vecs(C, c, a, b, key, prev, pad):
    W, pt = C.W, C.pt
    root, t, inv = C.chords[c]
    kw = dict(root=root, bass=bass_of(W, C.chords[c], pt), chord_type=t, inversion=inv, onset_level=C.levels[a], offset_level=C.levels[b], duration=sum(C.dur[a:b]), pitch_type=pt)
    v = chord_vec(W, kw, C.keys[key][0], C.keys[key][1], pad, None)
    if prev is not None and prev != key:
        kv = key_vec(W, pt, C.keys[key][0] - C.keys[prev][0], C.keys[key][1])
        return v + kv + [1]
    n = len(key_vec(W, pt, 0, W.KM["MAJOR"]))
    return v + [0] * n + [0]


def vec_eq(got, exp):
    return isinstance(got, (tuple, list)) and len(got) == len(exp) and all(abs(float(x) - float(y)) < 1e-9 for x, y in zip(got, exp))


def inputs(ck, I, W, pt):
    C = base(I, W, pt)
    s0 = C.state(key=1)
    s1 = C.chord_to(s0, 0, 2, 0)
    s2 = C.chord_to(s1, 1, 3, 0)
    k2 = C.key_to(s2, 2, 0)
    s3 = C.chord_to(k2, 3, 6, 0)
    k3 = C.key_to(s3, 3, 0)
    for fn, pad in (("get_csm_input", False), ("get_ktm_input", True)):
        w = loc(I, BU + "State." + fn)
        for nm, s, c, a, b, key, prev in (("first", s1, 0, 0, 2, 1, 1), ("second", s2, 1, 2, 3, 1, 1), ("second, changed key", k2, 1, 2, 3, 2, 1), ("third", s3, 3, 3, 6, 2, 2), ("third, changed mode", k3, 3, 3, 6, 3, 2)):
            r = C.do(s, fn, pt, *C.caches, C.labels)
            exp = vecs(C, c, a, b, key, prev, pad)
            got = C.ev(r[1]) if r[0] == "ret" else r
            ok = isinstance(got, (list, tuple)) and len(got) == 1 and vec_eq(got[0], exp)
            d = [i for i, (x, y) in enumerate(zip(got[0], exp)) if not val_eq(x, y)] if isinstance(got, (list, tuple)) and len(got) == 1 and isinstance(got[0], (list, tuple)) else show(got)
            ck.add("inputs", f"{pt.name} {fn}", ok, w, f"{nm} chord: entries {d} differ")


def ksm(ck, I, W, pt):
    w = loc(I, BU + "State.get_ksm_input")
    # which states have a fresh key-sequence hidden state (the model ran at them)
    for fresh, mode in itertools.product(((), (1,), (2,), (3,), (1, 3), (2, 3), (1, 2, 3)), ("both", "hidden", "cell")):
        C = base(I, W, pt)
        chain = [C.state(key=1)]
        ids = [None]
        cur, spec = None, [(0, 1), (1, 3), (3, 4), (2, 6)]
        for i, (c, end) in enumerate(spec, 1):
            s = C.chord_to(chain[-1], c, end, 0)
            if i in fresh:
                cur = f"h{i}"
                parts = (cur, cur + "c") if mode == "both" else ("h", cur) if mode == "cell" else (cur, "c")
                C.I.put(C.st, s, with_attr(C, s, "ksm_hidden_state", hid(C, *parts)))
            chain.append(s)
            ids.append(cur)
        for m in (1, 2, 3, 4):
            # rows since the model last ran before chord m
            first = m
            while first - 1 >= 1 and ids[first - 1] == ids[first - 2]:
                first -= 1
            r = C.do(chain[m], "get_ksm_input", pt, *C.caches, C.labels)
            exp = [vecs(C, spec[j - 1][0], 0 if j == 1 else spec[j - 2][1], spec[j - 1][1], 1, 1, True) for j in range(first, m + 1)]
            got = C.ev(r[1]) if r[0] == "ret" else r
            ok = isinstance(got, (list, tuple)) and len(got) == len(exp) and all(vec_eq(g, e) for g, e in zip(got, exp))
            ck.add("inputs", f"{pt.name} get_ksm_input", ok, w, f"chord {m}, model run at chords {fresh}: {len(got) if r[0] == 'ret' else show(got)} rows, required chords {list(range(first, m + 1))}")


def prior(ck, I, W, pt):
    w = loc(I, BU + "State.add_csm_prior")
    lo, hi = (0, 12) if pt == W.MIDI else rng(W, False)
    triad = W.const("data.data_types.TRIAD_REDUCTION")
    voc = {}
    cases = [(None, True), (None, False), (triad, True), (triad, False)]
    for first in (True, False):
        for red, inv in cases:
            for ci in range(4):
                C = base(I, W, pt)
                s = C.state(key=0)
                a = 0
                if not first:
                    s = C.chord_to(s, (ci + 1) % 4, 2, 0)
                    a = 2
                s = C.chord_to(s, ci, 5, fsym("lp1"))
                full_red, full_inv = (None, True) if first else (red, inv)
                root, t, iv = C.chords[ci]
                d = (root - C.keys[0][0]) % 12 if pt == W.MIDI else root - C.keys[0][0]
                key_ = (full_red is None, full_inv)
                if key_ not in voc:
                    voc[key_] = decode_fn(I, W, pt, False, True, full_inv, full_red)
                vocab = voc[key_]
                want = (d, full_red[t] if full_red else t, iv if full_inv else 0)
                if want not in vocab:
                    continue
                idx = vocab.index(want)
                n = len(vocab)
                pr = [Fraction(-i - 1, 3) for i in range(n)]
                C.I.put(C.st, s, with_attr(C, s, "csm_log_prior", nd.mk(I, C.st, (n,), pr)))
                redv = DICT(I, C.st, red) if red else None
                r = C.do(s, "add_csm_prior", False, pt, *C.caches, C.labels, inv, redv)
                got = C.ev(C.attr(s, "log_prob"), **ENV) if r[0] == "ret" else r
                exp = ENV["lp1"] + pr[idx] * (5 - a)
                ck.add("prior", f"{pt.name} first={first} reduced={red is not None} inversions={inv}", val_eq(got, exp), w, f"chord {C.chords[ci]}: score {show(got)}, required {show(exp)}")
    # pitch-based: after the first chord only
    npi = 12 if pt == W.MIDI else hi - lo
    for red, inv in itertools.product((None, triad), (True, False)):
        for ci in range(4):
            if red and inv and ci == 3:
                continue
            C = base(I, W, pt)
            s = C.chord_to(C.state(key=0), (ci + 1) % 4, 2, 0)
            s = C.chord_to(s, ci, 5, fsym("lp1"))
            p = [Fraction(i + 1, 64) for i in range(npi)]
            C.I.put(C.st, s, with_attr(C, s, "csm_log_prior", nd.mk(I, C.st, (npi,), p)))
            redv = DICT(I, C.st, red) if red else None
            r = C.do(s, "add_csm_prior", True, pt, *C.caches, C.labels, inv, redv)
            root, t, iv = C.chords[ci]
            t = red[t] if red else t
            on = set()
            for f in tones(t):
                q = (root - C.keys[0][0] + 7 * f) % 12 if pt == W.MIDI else root - C.keys[0][0] + f - lo
                if 0 <= q < npi:
                    on.add(q)
            exp = float(ENV["lp1"]) + 3 * sum(math.log(float(x if i in on else 1 - x)) for i, x in enumerate(p))
            got = C.ev(C.attr(s, "log_prob"), **ENV) if r[0] == "ret" else r
            ok = isinstance(got, (int, float, Fraction)) and abs(float(got) - exp) < 1e-6
            ck.add("prior", f"{pt.name} pitch based", ok, w, f"chord {C.chords[ci]}, reduced {red is not None}: score {show(got)}, required {exp}")


def paths(ck, I, W):
    pt = W.TPC
    C = base(I, W, pt)
    for keys in ([1, 1, 1], [1, 1, 2], [1, 2, 2], [1, 2, 1], [0, 1, 2], [0, 0, 1]):
        s = C.state(key=keys[0])
        r = C.do(s, "get_chords")
        ck.add("path", "start", r[0] == "ret" and C.ev(r[1]) == ((), (0,)) or r[0] == "ret" and [list(x) for x in C.ev(r[1])] == [[], [0]], loc(I, BU + "State.get_chords"), f"path of the first hypothesis: {show(C.ev(r[1]))}")
        ends, chords = [2, 3, 6], [0, 1, 3]
        for k, c, e in zip(keys, chords, ends):
            s = C.state(key=k, chord=c, change_index=e, prev_state=s)
        r = C.do(s, "get_chords")
        got = [list(x) for x in C.ev(r[1])] if r[0] == "ret" else r
        ck.add("path", "chords", got == [chords, [0] + ends], loc(I, BU + "State.get_chords"), f"chords {chords} ending at {ends}: {show(got)}")
        ek, ec = [], [0]
        for k, e in zip(keys, ends):
            if ek and ek[-1] == k:
                ec[-1] = e
            else:
                ek.append(k)
                ec.append(e)
        r = C.do(s, "get_keys")
        got = [list(x) for x in C.ev(r[1])] if r[0] == "ret" else r
        ck.add("path", "keys", got == [ek, ec], loc(I, BU + "State.get_keys"), f"keys {keys} of chords ending at {ends}: {show(got)}, required {[ek, ec]}")
