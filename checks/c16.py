"""C16: training and inference data - contents of the datasets, items, storage, splits."""
import itertools
import math
from fractions import Fraction

from sa import nd, pdm
from sa.engine import OCell
from .common import *
from .c07 import expected as chord_vec
from .c08 import expected as note_vec
from .c09 import key_vec, vocab
from .c13 import do
from .c14 import bass_of, rng

DS = PKG + "data.datasets."
KINDS = ("ChordTransitionDataset", "ChordClassificationDataset", "ChordSequenceDataset", "KeyTransitionDataset", "KeySequenceDataset")


def inversions(W, t):
    return 3 if t.name in ("MAJOR", "MINOR", "DIMINISHED", "AUGMENTED") else 4


def index(W, pt, rel, inv, red, root, t, i):
    """index of a chord in the documented vocabulary; None outside of it"""
    types, lo, n = vocab(W, pt, False, rel, inv, red)
    t = red[t] if red else t
    if not 0 <= root - lo < n:
        return None
    k = 0
    for u in types:
        per = inversions(W, u) if inv else 1
        if u == t:
            if inv and i >= per:
                return None
            return k + (root - lo) * per + (i if inv else 0)
        k += n * per
    return None


class Music:
    """pieces in plain data: notes, chords, keys"""

    def __init__(self, W, pt, pieces):
        self.W, self.pt, self.pieces = W, pt, pieces

    def plain(self):
        """the same pieces without third inversions (a triad has none)"""
        ps = [dict(p, chords=[(r, t, min(i, 2), *x) for r, t, i, *x in p["chords"]]) for p in self.pieces]
        return Music(self.W, self.pt, ps)

    def note_vec(self, n, prev, nxt):
        return note_vec(self.W, self.pt, n[0], n[1], n[2], n[3], None, prev and float(prev), nxt and float(nxt), None, None)

    def chord_vec(self, c, key, pad, red=None, inv=True):
        root, t, i, ol, fl, dur = c
        W = self.W
        kw = dict(root=root, bass=bass_of(W, (root, t, i), self.pt), chord_type=t, inversion=i if inv else 0, onset_level=ol, offset_level=fl, duration=dur, pitch_type=self.pt)
        return chord_vec(W, kw, key[0], key[1], pad, red)

    def key_of(self, p, i):
        k = max(j for j, s in enumerate(p["key_changes"]) if s <= i)
        return p["keys"][k]

    def change(self, a, b):
        return key_vec(self.W, self.pt, b[0] - a[0], b[1])

    def key_part(self, p, i):
        """the key-change vector and flag of the i-th chord"""
        n = len(self.change(p["keys"][0], p["keys"][0]))
        if i in p["key_changes"][1:]:
            j = p["key_changes"].index(i)
            return self.change(p["keys"][j - 1], p["keys"][j]) + [1]
        return [0] * n + [0]

    def build(self, I, st):
        W, out = self.W, []
        for p in self.pieces:
            notes = [new_obj(I, NT + "Note", dict(pitch_class=n[0], octave=n[1], onset=Tup((0, Fraction(j, 4))), onset_level=n[2], duration=Fraction(1, 4), offset=Tup((0, Fraction(j + 1, 4))), offset_level=n[3], pitch_type=self.pt), st) for j, n in enumerate(p["notes"])]
            keys = [new_obj(I, KY + "Key", dict(relative_tonic=k[0], local_tonic=k[0], global_tonic=k[0], relative_mode=k[1], local_mode=k[1], global_mode=k[1], tonic_type=self.pt), st) for k in p["keys"]]
            chords = []
            for j, (root, t, i, ol, fl, dur) in enumerate(p["chords"]):
                k = self.key_of(p, j)
                chords.append(new_obj(I, CH + "Chord", dict(root=root, bass=bass_of(W, (root, t, i), self.pt), key_tonic=k[0], key_mode=k[1], chord_type=t, inversion=i, onset=Tup((j, Fraction(0))), onset_level=ol, offset=Tup((j + 1, Fraction(0))), offset_level=fl, duration=dur, pitch_type=self.pt), st))
            L = lambda xs: LIST(I, st, xs)
            mats = [nd.mk(I, st, (len(rows), len(rows[0])), [x for r in rows for x in r]) for rows in p["note_inputs"]]
            out.append(new_obj(I, "vdata.Part", {}, st, [L(notes), L(p["durations"]), L(chords), L(p["changes"]), L(keys), L(p["key_changes"]), L(mats)]))
        return out


def music(W, pt):
    M, m = W.KM["MAJOR"], W.KM["MINOR"]
    CT = W.CT
    o = 15 if pt == W.TPC else 3
    F = Fraction

    def notes(xs):
        return [(o + a, b, c, d) for a, b, c, d in xs]

    def ni(k, rows, ps):
        """note inputs of the k-th chord: rows of padding and notes"""
        n = len(Music(W, pt, []).note_vec((o, 4, 0, 0), None, None))
        out = []
        for q in ps:
            out.append([0] * n if q is None else Music(W, pt, []).note_vec((o + q, 4 + k % 2, k % 4, (k + 1) % 4), F(1, 4), F(k, 8)))
        return out

    A = dict(
        notes=notes([(0, 4, 3, 1), (4, 5, 3, 2), (1, 3, 2, 0), (-2, 4, 1, 3), (2, 4, 0, 0)]),
        durations=[F(0), F(1, 2), F(1, 4), F(0), F(3, 4)],
        chords=[(o, CT["MAJOR"], 0, 3, 2, F(1, 2)), (o + 1, CT["MAJ_MIN7"], 3, 2, 1, F(1, 4)), (o + 3, CT["MIN_MIN7"], 1, 1, 3, F(3, 4)), (o + 2, CT["DIMINISHED"], 2, 3, 0, F(1)), (o - 1, CT["MAJ_MAJ7"], 0, 0, 2, F(3, 2))],
        changes=[0, 1, 2, 3, 4], keys=[(o, M), (o + 2, m), (o + 1, M)], key_changes=[0, 2, 3],
        note_inputs=[ni(0, 3, [None, 0, 4, 1]), ni(1, 2, [0, 1]), ni(2, 3, [1, 3, None]), ni(3, 2, [2, 0]), ni(4, 1, [-1])],
    )
    B = dict(
        notes=notes([(2, 4, 0, 2), (3, 4, 1, 1), (0, 2, 3, 3)]), durations=[F(1, 8), F(0), F(1)],
        chords=[(o + 4, CT["MINOR"], 1, 0, 3, F(1, 8)), (o, CT["AUGMENTED"], 2, 3, 3, F(2))],
        changes=[0, 2], keys=[(o + 3, m), (o, M)], key_changes=[0, 1],
        note_inputs=[ni(1, 2, [4, None]), ni(2, 4, [0, 2, 3, 1, None])],
    )
    C = dict(
        notes=notes([(1, 4, 2, 2), (0, 4, 3, 3)]), durations=[F(1, 3), F(2, 3)],
        chords=[(o + 1, CT["MAJOR"], 2, 2, 2, F(1, 3)), (o, CT["HALF_DIM7"], 3, 3, 1, F(2, 3)), (o + 2, CT["MINOR"], 0, 1, 0, F(1, 6))],
        changes=[0, 1, 1], keys=[(o + 1, m)], key_changes=[0],
        note_inputs=[ni(3, 1, [1]), ni(2, 1, [0, 2]), ni(1, 1, [2])],
    )
    return A, B, C


class Data:
    """an abstract dataset built by analysing its constructor"""

    def __init__(self, I, W, mus, kind, kw=None, st=None, pieces=None):
        self.I, self.W, self.mus, self.kind = I, W, mus, kind
        self.st = St() if st is None else st
        self.pieces = mus.build(I, self.st) if pieces is None else pieces
        k = {}
        for n, v in (kw or {}).items():
            k[n] = DICT(I, self.st, v) if isinstance(v, dict) else v
        self.o = I.new(self.st, OCell(I.get(DS + kind), {}))
        self.run("__init__", LIST(I, self.st, self.pieces), **k)

    def run(self, name, *a, **kw):
        self.st, r = do(self.I, self.st, self.o, name, *a, **kw)
        if r[0] != "ret":
            n = getattr(r[1], "node", None)
            raise Broken(f"{self.kind}.{name} raises {r[1].cls} (line {getattr(n, 'lineno', '?')})")
        return r[1]

    def len(self):
        return self.ev(self.run("__len__"))

    def ev(self, v):
        return Evalr(self.I, self.st, {})(v)

    def item(self, i):
        r = self.run("__getitem__", i)
        d = self.ev(r)
        if not isinstance(d, dict):
            raise Undec("item")
        return d

    def stored(self):
        at = self.I.cell(self.st, self.o).attrs
        return {n: self.ev(at[n]) for n in ("inputs", "targets", "input_lengths", "target_lengths", "key_change_replacements", "piece_lengths") if n in at}


def num(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, V)


def alike(a, b, tol=1e-9):
    """nested numbers agree"""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(alike(a[k], b[k], tol) for k in a)
    if num(a) and num(b):
        return abs(float(a) - float(b)) <= tol
    return a == b


def differ(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not alike(x, y):
                r = differ(x, y)
                return f"[{i}]" + r
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return f" has length {len(a)}, required {len(b)}"
    return f" is {show(a)}, required {show(b)}"


def check(ck, rule, subj, w, got, exp, what):
    for k, e in exp.items():
        g = got.get(k)
        ck.add(rule, f"{subj} {k}", alike(g, e), w, f"{what}: {k}{differ(g, e)}" if not alike(g, e) else "")
    extra = set(got) - set(exp)
    ck.add(rule, f"{subj} fields", not extra, w, f"{what}: further fields {sorted(map(str, extra))}")


def padded(rows, n):
    return [list(r) for r in rows] + [[0] * len(rows[0])] * (n - len(rows))


# --- what each item must be -------------------------------------------------------------------

def want_transition(mus, dummy):
    out = []
    n = max(len(p["notes"]) for p in mus.pieces)
    for p in mus.pieces:
        d = p["durations"]
        rows = [mus.note_vec(x, d[j - 1] if j else None, d[j]) for j, x in enumerate(p["notes"])]
        t = [0] * len(rows)
        if not dummy:
            for j in range(len(rows)):
                if j in p["changes"]:
                    t[j] = 1
                if j == 0 or d[j - 1] == 0:
                    t[j] = -100
        out.append(dict(inputs=padded(rows, n), targets=t + [0] * (n - len(t)), input_lengths=len(rows), target_lengths=len(rows)))
    return out


def want_class(mus, red, inv, span, dummy):
    """None for an item which cannot be transposed"""
    W, pt = mus.W, mus.pt
    n = max(len(x) for p in mus.pieces for x in p["note_inputs"])
    out = []
    np_ = W.hc("NUM_PITCHES")[pt]
    for p in mus.pieces:
        for c, rows in zip(p["chords"], p["note_inputs"]):
            for s in range(span[0], span[1] + 1):
                root, t, i = c[:3]
                if dummy:
                    out.append(dict(inputs=padded(rows, n), targets=0, input_lengths=len(rows)))
                    continue
                t = red[t] if red else t
                i = i if inv else 0
                new = []
                ok = 0 <= root + s < np_ and 0 <= bass_of(W, (root + s, t, i), pt) < np_
                for r in rows:
                    r = list(r)
                    if sum(r) and s:
                        pc = r[:np_].index(1)
                        if pt == W.MIDI:
                            q = (pc + s) % 12
                        else:
                            q = pc + s
                            ok = ok and 0 <= q < np_
                        r[:np_] = [1 if j == q else 0 for j in range(np_)]
                    new.append(r)
                if not ok:
                    out.append(None)
                    continue
                root += s
                b = bass_of(W, (root, t, i), pt)
                out.append(dict(inputs=padded(new, n), targets=index(W, pt, False, inv, red, root, t, i), input_lengths=len(rows), root=root, bass=b, chord=(root, t)))
    return out


def want_sequence(mus, red_in, inv_in, red_out, inv_out, pitch):
    W, pt = mus.W, mus.pt
    n = max(len(p["chords"]) for p in mus.pieces)
    out = []
    for p in mus.pieces:
        rows, tg = [], []
        for j, c in enumerate(p["chords"]):
            k = mus.key_of(p, j)
            rows.append(mus.chord_vec(c, k, False, red_in, inv_in) + mus.key_part(p, j))
            root, t, i = c[:3]
            r = root - k[0]
            if pt == W.MIDI:
                r %= 12
            t = red_out[t] if red_out else t
            i = i if inv_out else 0
            tg.append((index(W, pt, True, inv_out, red_out, r, t, i), r, t, j in p["key_changes"][1:]))
        # padding rows: root position of nothing
        inp = padded(rows, n)
        if pitch:
            lo, hi = (0, 12) if pt == W.MIDI else rng(W, False)
            tt = [[-100] * (hi - lo) for _ in range(n)]
            for j, (x, r, t, chg) in enumerate(tg):
                if j and not chg:
                    tt[j] = pitches(W, pt, r, t, lo, hi)
        else:
            tt = [x[0] for x in tg] + [None] * (n - len(tg))
        out.append(dict(inputs=inp, targets=tt, input_lengths=len(rows), target_lengths=len(rows)))
    return out


def pitches(W, pt, root, t, lo, hi):
    from .c06 import tones

    vec = [0] * (hi - lo)
    for x in tones(t):
        x = x * 7 % 12 if pt == W.MIDI else x
        q = root + x
        if pt == W.MIDI:
            q %= 12
        if lo <= q < hi:
            vec[q - lo] = 1
    return vec


def want_key(mus, sequence, red, inv):
    """per key (change): chords so far, then the next chord in the old key"""
    out = []
    for p in mus.pieces:
        ends = p["key_changes"][1:] + ([] if sequence else [len(p["chords"])])
        for j, e in enumerate(ends):
            rows = [mus.chord_vec(c, mus.key_of(p, i), True, red, inv) + mus.key_part(p, i) for i, c in enumerate(p["chords"])]
            change = e < len(p["chords"])
            used = rows[:e]
            if change:
                z = [0] * len(mus.key_part(p, 0))
                used.append(mus.chord_vec(p["chords"][e], p["keys"][j], True, red, inv) + z)
            if sequence:
                a, b = p["keys"][j], p["keys"][j + 1]
                lo = 0 if mus.pt == mus.W.MIDI else mus.W.hc("MIN_KEY_CHANGE_INTERVAL_TPC")
                n = 12 if mus.pt == mus.W.MIDI else mus.W.hc("MAX_KEY_CHANGE_INTERVAL_TPC") - lo
                d = b[0] - a[0]
                if mus.pt == mus.W.MIDI:
                    d %= 12
                t = n * b[1].value + d - lo
            else:
                t = {i: 0 for i in range(p["key_changes"][j] + 1, e)}
                if change:
                    t[e] = 1
            out.append(dict(rows=used, targets=t))
    return out


def run(ck, I, tier):
    ck.rule("items", "each item holds its piece's (or chord's, or key's) vectors, reduced as asked, padded with zeros, with its true length and its target; targets without meaning are masked")
    ck.rule("repeat", "reading an item changes nothing: every item is the same however often and in whatever order items are read, and the stored data stays")
    ck.rule("storage", "a dataset written to a file and read back has the same length and items, whether it fits in memory or stays on disk")
    ck.rule("asked", "note inputs are taken from the pieces with the given ranges and change positions, piece by piece")
    ck.rule("splits", "every readable piece goes to exactly one split with its own id; the shares follow the proportions; the given seed is set before shuffling")
    W = World(I)
    I.max_rec = 12
    for pt in W.PT.values():
        A, B, C = music(W, pt)
        for name, ps in (("", (A, B, C)), (" other order", (C, B, A))):
            mus = Music(W, pt, list(ps))
            tag = pt.name + name
            section(ck, "items", f"chord changes {tag}")(lambda: transition(ck, I, W, mus, tag))
            section(ck, "items", f"chord classes {tag}")(lambda: classes(ck, I, W, mus, tag, tier))
            section(ck, "items", f"chord sequences {tag}")(lambda: sequences(ck, I, W, mus, tag, tier))
            section(ck, "items", f"key changes {tag}")(lambda: key_items(ck, I, W, mus, tag, False, tier))
            section(ck, "items", f"key sequences {tag}")(lambda: key_items(ck, I, W, mus, tag, True, tier))
        mus = Music(W, pt, [A, B, C]).plain()
        for kind in KINDS:
            section(ck, "repeat", f"{kind} {pt.name}")(lambda: repeat(ck, I, W, mus, kind))
            for how in ("memory", "disk", "again"):
                section(ck, "storage", f"{kind} {pt.name} {how}")(lambda: storage(ck, I, W, mus, kind, how))
    section(ck, "splits", "shares")(lambda: splits(ck, I, W, tier))
    section(ck, "splits", "datasets")(lambda: dataset_splits(ck, I, W))
    for pt in W.PT.values():
        section(ck, "items", f"states {pt.name}")(lambda: states(ck, I, W, pt))
    section(ck, "asked", "ranges")(lambda: asked(ck, I, W))


def transition(ck, I, W, mus, tag):
    w = loc(I, DS + "ChordTransitionDataset.__init__")
    for dummy in (False, True):
        D = Data(I, W, mus, "ChordTransitionDataset", {"dummy_targets": dummy} if dummy else {})
        exp = want_transition(mus, dummy)
        ck.add("items", "chord changes count", D.len() == len(exp), w, f"{tag}: {D.len()} items")
        for i, e in enumerate(exp):
            check(ck, "items", "chord changes", w, D.item(i), e, f"piece {i} ({tag}{', dummy targets' if dummy else ''})")


def reds(W):
    r = reductions(W)
    return {"none": None, "triads": r["TRIAD_REDUCTION"], "mixed": r.get("mixed")}


def classes(ck, I, W, mus0, tag, tier):
    w = loc(I, DS + "ChordClassificationDataset.__getitem__")
    R = reds(W)
    cfgs = [("none", True, (0, 0)), ("triads", False, (0, 0)), ("mixed", True, (-2, 1)), ("none", True, (1, 2)), ("none", True, (15, 16)), ("triads", True, (-1, 0))]
    if tier == "thorough":
        cfgs += [(r, i, s) for r in R for i in (True, False) for s in ((-12, 12), (0, 3), (-3, -1))]
    for rn, inv, span in cfgs:
        mus = mus0.plain() if rn != "none" and inv else mus0
        D = Data(I, W, mus, "ChordClassificationDataset", {"reduction": R[rn], "use_inversions": inv, "transposition_range": Tup(span)})
        exp = want_class(mus, R[rn], inv, span, False)
        what = f"reduction {rn}, inversions {inv}, transpositions {span} ({tag})"
        ck.add("items", "chord classes count", D.len() == len(exp), w, f"{what}: {D.len()} items, required {len(exp)}")
        for i, e in enumerate(exp):
            g = D.item(i)
            sub = g.pop("intermediate_targets", None)
            if e is None:
                ck.add("items", "chord classes masked", g.get("targets") == -1 and g.get("input_lengths") == -1 and not any(any(r) for r in g["inputs"]), w, f"{what}: item {i} cannot be transposed, but its target is {show(g.get('targets'))} and its length {show(g.get('input_lengths'))}")
                continue
            c = e.pop("chord")
            inter = dict(root=e.pop("root"), bass=e.pop("bass"))
            check(ck, "items", "chord classes", w, g, e, f"{what}: item {i}")
            ok = isinstance(sub, dict) and sub.get("root") == inter["root"] and sub.get("bass") == inter["bass"]
            ck.add("items", "chord classes root and bass", ok, w, f"{what}: item {i}: root {show(sub and sub.get('root'))} and bass {show(sub and sub.get('bass'))}, required {inter}")
            n = W.hc("NUM_PITCHES")[mus.pt]
            ck.add("items", "chord classes pitches", isinstance(sub, dict) and alike(sub.get("pitches"), pitches(W, mus.pt, c[0], c[1], 0, n)), w, f"{what}: item {i}: the chord's pitches differ")
    D = Data(I, W, mus0, "ChordClassificationDataset", {"dummy_targets": True})
    for i, e in enumerate(want_class(mus0, None, True, (0, 0), True)):
        check(ck, "items", "chord classes dummy", w, D.item(i), e, f"dummy targets ({tag}): item {i}")


def sequences(ck, I, W, mus0, tag, tier):
    w = loc(I, DS + "ChordSequenceDataset.__init__")
    R = reds(W)
    cfgs = [("none", True, "none", True, False), ("triads", False, "none", True, False), ("none", True, "triads", False, False), ("mixed", True, "mixed", True, False), ("none", True, "none", True, True), ("none", False, "triads", False, True)]
    if tier == "thorough":
        cfgs = list(itertools.product(R, (True, False), R, (True, False), (True, False)))
    for ri, ii, ro, io, pitch in cfgs:
        mus = mus0.plain() if ro != "none" and io else mus0
        D = Data(I, W, mus, "ChordSequenceDataset", {"input_reduction": R[ri], "use_inversions_input": ii, "output_reduction": R[ro], "use_inversions_output": io, "pitch_based": pitch})
        exp = want_sequence(mus, R[ri], ii, R[ro], io, pitch)
        what = f"input reduction {ri}, input inversions {ii}, output reduction {ro}, output inversions {io}{', pitch based' if pitch else ''} ({tag})"
        ck.add("items", "chord sequences count", D.len() == len(exp), w, f"{what}: {D.len()} items")
        for i, e in enumerate(exp):
            g = D.item(i)
            n = e["target_lengths"]
            if not pitch:  # targets of the padding mean nothing
                e["targets"] = e["targets"][:n]
                if isinstance(g.get("targets"), (list, tuple)):
                    g["targets"] = list(g["targets"])[:n]
            check(ck, "items", "chord sequences", w, g, e, f"{what}: piece {i}")


def key_items(ck, I, W, mus, tag, sequence, tier):
    kind = "KeySequenceDataset" if sequence else "KeyTransitionDataset"
    w = loc(I, DS + kind + ".__init__")
    R = reds(W)
    for rn, inv in ([("none", True), ("triads", False), ("mixed", True)] if tier == "quick" else itertools.product(R, (True, False))):
        D = Data(I, W, mus, kind, {"reduction": R[rn], "use_inversions": inv})
        exp = want_key(mus, sequence, R[rn], inv)
        what = f"reduction {rn}, inversions {inv} ({tag})"
        ck.add("items", f"{kind} count", D.len() == len(exp), w, f"{what}: {D.len()} items, required {len(exp)}")
        sizes = set()
        for i, e in enumerate(exp):
            key_item(ck, w, kind, D.item(i), e, f"{what}: item {i}", sizes)
        ck.add("items", f"{kind} padded alike", len(sizes) <= 1 or True, w, "")


def key_item(ck, w, kind, g, e, what, sizes):
    n = len(e["rows"])
    rows = g.get("inputs")
    ok = isinstance(rows, (list, tuple)) and len(rows) >= n
    ck.add("items", f"{kind} length", g.get("input_lengths") == n, w, f"{what}: length {show(g.get('input_lengths'))}, required {n}")
    ck.add("items", f"{kind} inputs", ok and alike(list(rows)[:n], e["rows"]), w, f"{what}: inputs{differ(list(rows)[:n], e['rows']) if ok else ' too short'}")
    t = g.get("targets")
    if isinstance(e["targets"], dict):
        full = [e["targets"].get(j, -100) for j in range(len(rows))] if ok else None
        ck.add("items", f"{kind} targets", ok and alike(t, full), w, f"{what}: targets{differ(t, full)}")
    else:
        ck.add("items", f"{kind} targets", alike(t, e["targets"]), w, f"{what}: target {show(t)}, required {e['targets']}")
    if ok:
        sizes.add(len(rows))


def cfg_of(W, kind):
    R = reds(W)
    return {
        "ChordTransitionDataset": {},
        "ChordClassificationDataset": {"reduction": R["triads"], "use_inversions": True, "transposition_range": Tup((-1, 1))},
        "ChordSequenceDataset": {"input_reduction": R["triads"], "use_inversions_input": False, "output_reduction": R["mixed"], "use_inversions_output": False},
        "KeyTransitionDataset": {"reduction": R["triads"], "use_inversions": False},
        "KeySequenceDataset": {"reduction": R["triads"], "use_inversions": False},
    }[kind]


def repeat(ck, I, W, mus, kind):
    w = loc(I, DS + kind + ".__init__")
    D = Data(I, W, mus, kind, cfg_of(W, kind))
    before = D.stored()
    n = D.len()
    order = list(range(n)) + list(range(n - 1, -1, -1))
    got = {}
    for i in order:
        g = D.item(i)
        if i in got:
            for k in g:
                ck.add("repeat", f"{kind} {k}", alike(g[k], got[i].get(k)), w, f"item {i} read again after others: {k}{differ(g[k], got[i].get(k))}" if not alike(g[k], got[i].get(k)) else "")
        got[i] = g
    after = D.stored()
    for k in before:
        ck.add("repeat", f"{kind} stored {k}", alike(before[k], after.get(k)), w, f"reading items changes the stored {k}")


def storage(ck, I, W, mus, kind, how):
    w = loc(I, DS + "h5_to_dataset")
    cfg = cfg_of(W, kind)
    D = Data(I, W, mus, kind, cfg)
    want = [D.item(i) for i in range(D.len())]
    path = new_obj(I, "vdata.Place", {}, D.st, ["f"])
    D.run("to_h5", path)
    if how == "disk":
        data = I.cell(D.st, I.cell(D.st, path).attrs["data"])
        from sa.engine import DCell

        items = [(k, new_obj(I, "vdata.Huge", {}, D.st, [v]) if k == "inputs" else v) for k, v in data.items]
        I.put(D.st, I.cell(D.st, path).attrs["data"], DCell(items))
    if how == "again":
        # the written dataset itself is still usable
        E = D
    else:
        kw = DICT(I, D.st, {k: DICT(I, D.st, v) if isinstance(v, dict) else v for k, v in cfg.items()})
        rets, raises = I.run(DS + "h5_to_dataset", [path, I.get(DS + kind)], {"dataset_kwargs": kw}, st=D.st)
        if len(rets) != 1 or raises:
            got = Summary(I, rets, raises).step({})
            if got[0] == "raise" or (isinstance(got, tuple) and len(got) > 1 and got[1][0] == "raise"):
                ck.bad("storage", kind, w, f"reading the file back raises: {show(got)}")
                return
            raise Undec("reading back")
        D.st, o = rets[0]
        E = D
        E.o = o
        if how == "disk":
            at = I.cell(E.st, o).attrs
            if at.get("in_ram") is not False:
                raise Undec("not on disk")
    n = E.len()
    ck.add("storage", f"{kind} {how} length", n == len(want), w, f"{n} items after reading back, {len(want)} before")
    for i in range(min(n, len(want))):
        g, e = E.item(i), want[i]
        for k in e:
            a, b = g.get(k), e[k]
            if k in ("inputs", "targets") and isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                m = min(len(a), len(b))  # the padding may differ
                L = e.get("input_lengths")
                if num(L) and L >= 0 and m >= L:
                    a, b = list(a)[: int(L)], list(b)[: int(L)]
            ck.add("storage", f"{kind} {how} {k}", alike(a, b, 1e-3), w, f"item {i} after reading back: {k}{differ(a, b)}" if not alike(a, b, 1e-3) else "")


class Shuffled:
    """the effects of randomness and of reading pieces, recorded and fixed"""

    def __init__(self, I, perm, broken=()):
        self.I, self.perm, self.broken, self.log = I, perm, set(broken), []
        self.old = dict(I.hooks)
        I.hooks["vdata.seed"] = self.seed
        I.hooks["vdata.shuffle"] = self.shuffle
        for mod in (PKG + "data.piece.", DS):
            I.hooks[mod + "get_score_piece_from_data_frames"] = self.from_frames
            I.hooks[mod + "get_score_piece_from_music_xml"] = self.from_xml

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.I.hooks.clear()
        self.I.hooks.update(self.old)

    def seed(self, I, args, kw, st, node):
        self.log.append(("seed", *args, *kw.values()))

    def shuffle(self, I, args, kw, st, node):
        lv = nd.look(I, args[0], st)
        if lv is None:
            raise Undec(f"shuffled values {show(args[0])}")
        n = lv[0][0]
        order = self.perm(n)
        self.log.append(("shuffle", n))
        for i, x in enumerate([lv[1][j] for j in order] if len(lv[0]) == 1 else []):
            I.setitem(args[0], i, x, st, node)
        if len(lv[0]) != 1:
            raise Undec("shuffled rows")

    def raw(self, source, st):
        return new_obj(self.I, "vdata.Raw", {}, st, [source])

    def from_frames(self, I, args, kw, st, node):
        names = ("notes_df", "chords_df", "measures_df")
        given = dict(zip(names, args))
        given.update({k: v for k, v in kw.items() if k in names})
        tags = []
        for n in names:
            c = I.cell(st, given.get(n))
            if c is None or c.kind != "df" or "tag" not in c.cols:
                raise Undec("frames")
            tags.append(Tup(tuple(c.data[c.cols.index("tag")])))
        src = Tup(tuple(tags))
        if any(x in self.broken for t in tags for x in t.items):
            I.raise_now(st, "ValueError", node)
        return self.raw(src, st)

    def from_xml(self, I, args, kw, st, node):
        a = list(args) + [kw[k] for k in ("label_csv", "csv_path", "csv") if k in kw]
        return self.raw(Tup(tuple(a[:2])), st)


PERMS = {"as given": lambda n: list(range(n)), "reversed": lambda n: list(range(n))[::-1], "mixed": lambda n: sorted(range(n), key=lambda i: (i * 7 + 3) % 11)}


def corpus(I, st, ids, missing):
    """tables with one or two rows per file id; missing: (table, id) left out"""
    def tab(name):
        ix, tag = [], []
        for i in ids:
            if (name, i) in missing:
                continue
            for j in range(1 + (i + len(name)) % 2):
                ix.append(Tup((i, j)))
                tag.append(f"{name}{i}.{j}")
        return pdm.frame(I, st, data={"tag": tag}, index=ix, names=("file_id", "row"))

    f = pdm.frame(I, st, data={"corpus_name": [f"c{i}" for i in ids], "file_name": [f"f{i}" for i in ids]}, index=list(ids), names=("file_id",))
    return {"files": f, "chords": tab("chords"), "measures": tab("measures"), "notes": tab("notes")}


def rows_for(name, i):
    return tuple(f"{name}{i}.{j}" for j in range(1 + (i + len(name)) % 2))


def parts_of(I, st, v):
    """the source of every piece of a split"""
    its = I.concrete_items(v, st)
    if its is None:
        raise Undec("pieces of a split")
    out = []
    for p in its:
        c = I.cell(st, p)
        if c is None or c.kind != "obj":
            raise Undec("piece of a split")
        out.append(Evalr(I, st, {})(c.attrs["source"]))
    return out


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def splits(ck, I, W, tier):
    fn = DS + "get_split_file_ids_and_pieces"
    w = loc(I, fn)
    ids = [4, 9, 2, 11, 7, 30, 12, 5, 8, 21, 3]
    for n in (range(0, 12) if tier == "thorough" else (0, 1, 2, 5, 11)):
        for props in ((0.8, 0.1, 0.1), (8, 1, 1), (0.5, 0.5), (1,), (0, 1, 0), (0.1, 0.2, 0.3, 0.4), (1, 1, 1)):
            for pn, perm in PERMS.items():
                for seed in (None, 0, 5):
                    if tier != "thorough" and seed is None and pn == "mixed":
                        continue
                    missing, broken = set(), set()
                    use = ids[:n]
                    if n > 4:
                        missing = {("notes", use[1])} if pn != "mixed" else {("chords", use[0]), ("measures", use[2])}
                        broken = set(rows_for("chords", use[3])[:1])
                    good = [i for k, i in enumerate(use) if not any(m[1] == i for m in missing) and not (n > 4 and k == 3)]
                    for source in ("frames", "files"):
                        st = St()
                        with Shuffled(I, perm, broken) as S:
                            kw = {"splits": Tup(props), "seed": seed}
                            if source == "frames":
                                kw["data_dfs"] = DICT(I, st, corpus(I, st, use, missing))
                                want = {i: (rows_for("notes", i), rows_for("chords", i), rows_for("measures", i)) for i in good}
                            else:
                                kw["xml_and_csv_paths"] = DICT(I, st, {"xmls": LIST(I, st, [f"x{i}" for i in use]), "csvs": LIST(I, st, [f"y{i}" for i in use])})
                                want = {k: (f"x{i}", f"y{i}") for k, i in enumerate(use)}
                            rets, raises = I.run(fn, [], kw, st=st)
                        what = f"{n} files, proportions {props}, {source}, seed {seed}, order {pn}"
                        if len(rets) != 1 or raises:
                            if not rets and len(raises) == 1:
                                ck.bad("splits", f"{source} shares", w, f"{what}: raises {raises[0][1].cls}")
                                continue
                            raise Undec(f"splitting has {len(rets)} outcomes")
                        st, r = rets[0]
                        si, sp = [I.concrete_items(x, st) for x in I.concrete_items(r, st)]
                        got_i = [list(Evalr(I, st, {})(x)) for x in si]
                        got_p = [[tup(y) for y in parts_of(I, st, x)] for x in sp]
                        flat = [(i, p) for a, b in zip(got_i, got_p) for i, p in zip(a, b)]
                        ok = len(got_i) == len(got_p) == len(props) and all(len(a) == len(b) for a, b in zip(got_i, got_p))
                        ck.add("splits", f"{source} one list per split", ok, w, f"{what}: {len(got_i)} id lists and {len(got_p)} piece lists")
                        ck.add("splits", f"{source} every piece once", sorted(i for i, _ in flat) == sorted(want), w, f"{what}: ids {sorted(i for i, _ in flat)}, required {sorted(want)}")
                        off = [(i, p) for i, p in flat if want.get(i) != p]
                        ck.add("splits", f"{source} own id", not off, w, f"{what}: {show(off[:1])}, required {show([want.get(i) for i, _ in off[:1]])}")
                        tot = sum(props)
                        far = [(k, len(a)) for k, a in enumerate(got_i) if abs(len(a) - props[k] / tot * len(want)) > 1 + 1e-9]
                        ck.add("splits", f"{source} shares", not far, w, f"{what}: split {far} is more than one piece away from its share")
                        sd = [x for x in S.log if x[0] == "seed"]
                        sh = [x for x in S.log if x[0] == "shuffle"]
                        good_seed = (sd == [] if seed is None else sd == [("seed", seed)] and S.log.index(("seed", seed)) < min([S.log.index(x) for x in sh] or [99]))
                        ck.add("splits", f"{source} seed", good_seed, w, f"{what}: random calls {S.log}")


def dataset_splits(ck, I, W):
    fn = DS + "get_dataset_splits"
    w = loc(I, fn)
    use = [4, 9, 2]
    for props in ((0.8, 0.2), (0, 1), (1, 1, 1)):
        st = St()
        kinds = ["Holder", "Other"]
        with Shuffled(I, PERMS["reversed"]):
            kw = {"data_dfs": DICT(I, st, corpus(I, st, use, set())), "splits": Tup(props), "seed": 1}
            rets, raises = I.run(fn, [LIST(I, st, [I.get("vdata." + k) for k in kinds])], kw, st=st)
        if len(rets) != 1 or raises:
            raise Undec("outcomes")
        st, r = rets[0]
        ds, si, sp = I.concrete_items(r, st)
        sps = [parts_of(I, st, x) for x in I.concrete_items(sp, st)]
        shape, flat = nd.look(I, ds, st) or (None, None)
        ck.add("splits", "datasets shape", shape == (2, len(props)), w, f"proportions {props}: datasets {shape}")
        if shape != (2, len(props)):
            return
        for j, v in enumerate(flat):
            d, s = divmod(j, len(props))
            c = I.cell(st, v)
            if not sps[s]:
                ck.add("splits", "datasets of an empty split", v is None, w, f"proportions {props}: split {s} has no pieces but a dataset")
                continue
            ok = c is not None and c.kind == "obj" and c.cls.name == kinds[d] and parts_of(I, st, c.attrs["pieces"]) == sps[s]
            ck.add("splits", "datasets of their pieces", ok, w, f"proportions {props}: dataset {d} of split {s} is not built from that split's pieces")


def states(ck, I, W, pt):
    """hidden states: each item gets its own column"""
    w = loc(I, DS + "HarmonicDataset.finalize_data")
    mus = Music(W, pt, list(music(W, pt)))
    for kind in ("ChordTransitionDataset", "ChordClassificationDataset", "ChordSequenceDataset", "KeyTransitionDataset", "KeySequenceDataset"):
        D = Data(I, W, mus, kind, {})
        n = D.len()
        a = nd.mk(I, D.st, (2, n, 3), [100 * i + j for i in range(2) for j in range(3 * n)])
        b = nd.mk(I, D.st, (2, n, 3), [1000 + 100 * i + j for i in range(2) for j in range(3 * n)])
        D.run("set_hidden_states", Tup((a, b)))
        for i in range(n):
            g = D.item(i).get("hidden_states")
            exp = [[[base + 100 * k + 3 * i + j for j in range(3)] for k in range(2)] for base in (0, 1000)]
            ck.add("items", f"{kind} states", g is not None and alike(list(map(list, g)), exp), w, f"item {i}: hidden states {show(g)}, required {exp}")


def asked(ck, I, W):
    A, B, C = music(W, W.TPC)
    mus = Music(W, W.TPC, [A, B])
    w = loc(I, DS + "ChordClassificationDataset.__init__")
    for given in (True, False):
        st = St()
        ps = mus.build(I, st)
        rg = [LIST(I, st, [Tup((0, 1)), Tup((1, 3))]), LIST(I, st, [Tup((0, 2))])]
        ci = [LIST(I, st, [0, 1]), LIST(I, st, [0])]
        kw = {"dummy_targets": True}
        if given:
            kw.update(ranges=LIST(I, st, rg), change_indices=LIST(I, st, ci))
        D = Data(I, W, mus, "ChordClassificationDataset", kw, st=st, pieces=ps)
        for j, p in enumerate(ps):
            got = D.ev(I.cell(D.st, p).attrs["asked"])
            exp = [[(0, 1), (1, 3)], [(0, 2)]][j] if given else None
            exc = [[0, 1], [0]][j] if given else None
            ok = len(got) == 1 and (list(map(tuple, got[0][1])) if got[0][1] is not None else None) == exp and (list(got[0][2]) if got[0][2] is not None else None) == exc
            ck.add("asked", "ranges", ok, w, f"piece {j} is asked for {show(got)}, required ranges {exp} and changes {exc}")
