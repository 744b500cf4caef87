"""C18: pieces - notes, chords, keys, their positions among the notes, and the classifier's inputs."""
import itertools
from fractions import Fraction

from sa import nd, pdm

from .c08 import close, expected
from .c12 import KEYROW, chord_exp, defaultdict_of, diff, fields, key_exp, level
from .common import *

PI = PKG + "data.piece."
F = Fraction
NA = pdm.NA
# measures: a pick-up, a change of meter, a split measure
MEAS = [(0, "4/4", F(1, 4), F(3, 4)), (1, "4/4", F(1), F(0)), (2, "3/4", F(3, 4), F(0)), (3, "6/8", F(3, 8), F(0)), (4, "6/8", F(3, 8), F(3, 8)), (5, "4/4", F(1), F(0))]
SIG = {m: s for m, s, _, _ in MEAS}


def pos(p):
    """position in whole notes since the beginning"""
    t = F(0)
    for mc, _, dur, off in MEAS:
        if mc == p[0]:
            return t + p[1] - off
        t += dur
    return t + p[1]


def measures(I, st):
    return pdm.frame(I, st, data={
        "mc": [m[0] for m in MEAS], "timesig": [m[1] for m in MEAS], "act_dur": [m[2] for m in MEAS], "mc_offset": [m[3] for m in MEAS],
        "next": [m[0] + 1 for m in MEAS[:-1]] + [NA],
    })


def N(mc, on, omc, off, midi, tpc):
    return dict(midi=midi, tpc=tpc, mc=mc, offset_mc=omc, mn_onset=F(on), offset_beat=F(off), duration=pos((omc, F(off))) - pos((mc, F(on))), mc_onset=F(on))


def C(mc, on, mcn, onn, root, ctype, fb=NA, numeral="I", **over):
    d = pos((mcn, F(onn))) - pos((mc, F(on)))
    return dict(numeral=numeral, root=root, chord_type=ctype, figbass=fb, mc=mc, mc_next=mcn, mn_onset=F(on), mn_onset_next=F(onn), duration=d, **{"changes": NA, **KEYROW, "localkey_is_minor": over.get("localkey", "I").islower(), **over})


def scores():
    q = F(1, 4)
    chorale = dict(
        notes=[N(0, F(3, 4), 1, 0, 67, 1), N(1, 0, 1, q, 48, 0), N(1, 0, 1, F(1, 2), 64, 4), N(1, q, 1, F(1, 2), 50, 2), N(1, F(1, 2), 2, q, 55, 1), N(1, F(1, 2), 1, F(3, 4), 65, -1), N(1, F(3, 4), 2, 0, 62, 2), N(2, 0, 2, F(1, 2), 59, 5), N(2, F(1, 2), 3, 0, 57, 3), N(3, 0, 3, F(1, 8), 52, 4), N(3, q, 4, F(1, 2), 60, 0), N(4, F(3, 8), 5, 0, 45, 3), N(5, 0, 5, 1, 50, 2)],
        chords=[C(0, F(3, 4), 1, 0, 1, "M"), C(1, 0, 1, q, 0, "M"), C(1, q, 1, F(1, 2), 0, "M", "6"), C(1, F(1, 2), 2, 0, 1, "Mm7", "65", changes="4"), C(2, 0, 2, F(1, 2), 1, "Mm7", "65"), C(2, F(1, 2), 3, 0, 3, "m", localkey="vi"), C(3, 0, 4, F(3, 8), 0, "m", localkey="vi"), C(4, F(3, 8), 5, 0, 1, "M", localkey="vi", relativeroot="iv"), C(5, 0, 5, 1, 0, "m", localkey="ii")],
    )
    # chords between notes, notes before the first chord, rows that cannot be read
    gaps = dict(
        notes=[N(1, 0, 1, F(1, 2), 60, 0), N(1, q, 2, 0, 64, 4), N(1, F(1, 2), 2, F(1, 2), 67, 30), N(1, F(3, 4), 1, 1, 70, -2), N(2, F(1, 8), 4, F(3, 8), 62, 2), N(4, F(3, 8), 5, 0, 55, 1), N(4, F(3, 8), 4, F(1, 2), 43, 1)],
        chords=[C(1, F(1, 8), 1, F(1, 2), 0, "M"), C(1, F(1, 2), 1, F(3, 4), 0, "x"), C(1, F(3, 4), 2, 0, 2, "mm7", "2"), C(2, 0, 2, F(1, 8), 1, "M", numeral="@none"), C(2, F(1, 8), 3, 0, 2, "mm7", "2"), C(3, 0, 3, F(1, 8), 5, "o7", localkey="V"), C(3, F(1, 8), 4, F(1, 2), 0, "M", localkey="V"), C(4, F(1, 2), 5, 1, 0, "M", "64", localkey="V", relativeroot="V")],
    )
    # the same key written in different ways; one chord through several keys
    keys = dict(
        notes=[N(1, 0, 1, q, 60, 0), N(1, q, 1, F(1, 2), 64, 4), N(1, F(1, 2), 1, F(3, 4), 67, 1), N(1, F(3, 4), 2, 0, 60, 0), N(2, 0, 2, q, 62, 2), N(2, q, 2, F(1, 2), 60, 0), N(2, F(1, 2), 3, 0, 55, 1)],
        chords=[C(1, 0, 1, q, 0, "M"), C(1, q, 1, F(1, 2), 1, "M", relativeroot="I"), C(1, F(1, 2), 1, F(3, 4), 0, "M", localkey="V"), C(1, F(3, 4), 2, 0, 1, "M", localkey="I", relativeroot="V"), C(2, 0, 2, q, 0, "M", localkey="V", relativeroot="V"), C(2, q, 2, F(1, 2), -1, "M", localkey="V/V"), C(2, F(1, 2), 3, 0, 0, "m", globalkey="c", globalkey_is_minor=True, localkey="i")],
    )
    # several chords before the first change; keys written differently
    late = dict(
        notes=[N(1, F(k, 8), 1, F(k + 1, 8), 60 + k, t) for k, t in enumerate((0, 2, 4, -1, 1, 3, 5, 0))] + [N(2, 0, 2, F(1, 2), 62, 2)],
        chords=[C(1, F(3, 8), 1, F(4, 8), 0, "M"), C(1, F(4, 8), 1, F(5, 8), 1, "M", relativeroot="I"), C(1, F(5, 8), 1, F(6, 8), 0, "m", localkey="V"), C(1, F(6, 8), 1, F(7, 8), 1, "Mm7", "2", localkey="I", relativeroot="V"), C(1, F(7, 8), 2, 0, 3, "m", localkey="IV/V"), C(2, 0, 2, F(1, 2), 0, "m", globalkey="c", globalkey_is_minor=True, localkey="i")],
    )
    one = dict(notes=[N(1, 0, 1, 1, 60, 0)], chords=[C(1, 0, 2, 0, 0, "M")])
    held = dict(notes=[N(1, 0, 5, 0, 36, 0), N(1, 0, 1, q, 60, 0), N(2, 0, 2, F(1, 2), 62, 2), N(3, 0, 4, F(1, 2), 64, 4)], chords=[C(1, 0, 2, 0, 0, "M"), C(2, 0, 2, F(1, 2), 1, "M"), C(2, F(1, 2), 4, F(3, 4), 0, "M"), ])
    # notes of no length (grace notes) where chords begin, and at the end
    graces = dict(notes=[N(1, 0, 1, 0, 71, 5), N(1, 0, 1, q, 60, 0), N(1, q, 1, q, 65, -1), N(1, q, 1, q, 64, 4), N(1, q, 2, 0, 62, 2), N(2, 0, 2, 0, 61, 7), N(2, 0, 2, F(1, 2), 59, 5), N(3, 0, 3, F(1, 8), 57, 3), N(3, F(1, 8), 3, F(1, 8), 57, 3)],
                  chords=[C(1, 0, 1, q, 0, "M"), C(1, q, 2, 0, 2, "m"), C(2, 0, 3, 0, 1, "M", "6"), C(3, 0, 3, F(1, 4), 0, "M")])
    return {"chorale": chorale, "gaps": gaps, "keys": keys, "late": late, "one note": one, "held": held, "graces": graces}


class Want:
    """the piece the rows describe"""

    def __init__(self, W, I, score, red=None, inv=True, rel=True, sus=False):
        self.W = W
        self.notes = []
        for r in score["notes"]:
            p = r["tpc"] + 15
            if 0 <= p < W.hc("NUM_PITCHES")[W.TPC]:
                self.notes.append(dict(pitch_class=p, octave=r["midi"] // 12, onset=(r["mc"], r["mn_onset"]), onset_level=level(SIG[r["mc"]], r["mn_onset"]), duration=r["duration"], offset=(r["offset_mc"], r["offset_beat"]), offset_level=level(SIG[r["offset_mc"]], r["offset_beat"]), pitch_type=W.TPC))
        self.chords = self.keys = self.changes = self.ranges = self.key_changes = None
        if score["chords"] is None:
            return
        rel_fields = ["root", "chord_type"] + ["inversion"] * inv + ["suspension"] * sus
        self.chords, ks = [], []
        for r in score["chords"]:
            c = chord_exp(W, I, r, W.TPC, red, inv, rel, order_sigs=SIG)
            if c is None:
                continue
            prev = self.chords[-1] if self.chords else None
            if prev and all(prev[f] == c[f] for f in rel_fields):
                prev.update(offset=c["offset"], offset_level=c["offset_level"], duration=prev["duration"] + c["duration"])
                continue
            self.chords.append(c)
            ks.append(key_exp(W, r, W.TPC))
        ns = self.notes
        self.changes = [next((i for i, n in enumerate(ns) if pos(n["onset"]) >= pos(c["onset"])), len(ns) - 1) for c in self.chords]
        starts = [next((i for i, n in enumerate(ns) if pos(n["onset"]) >= pos(c["onset"]) or pos(n["offset"]) > pos(c["onset"])), len(ns)) for c in self.chords]
        self.ranges = list(zip(starts, self.changes[1:] + [len(ns)]))
        kf = ["relative_tonic", "relative_mode"] if rel else ["local_tonic", "local_mode"]
        self.key_changes = [i for i, k in enumerate(ks) if i == 0 or any(k[f] != ks[i - 1][f] for f in kf)]
        self.keys = [ks[i] for i in self.key_changes]

    def end(self):
        return self.chords[-1]["offset"] if self.chords else max((n["offset"] for n in self.notes), key=pos)

    def durations(self):
        ps = [pos(n["onset"]) for n in self.notes] + [pos(self.end())]
        return [b - a for a, b in zip(ps, ps[1:])]

    def inputs(self, window, ranges=None, changes=None):
        """rows of vectors per chord"""
        W, ns, ds = self.W, self.notes, self.durations()
        real = ranges is None
        out = []
        for i, ((a, b), ch) in enumerate(zip(ranges or self.ranges, changes or self.changes)):
            if real:
                on, length = pos(self.chords[i]["onset"]), self.chords[i]["duration"]
            else:
                on = pos(ns[ch]["onset"])
                length = (pos(ns[b]["onset"]) if b < len(ns) else pos(self.end())) - on
            lo, hi = a - window, b + window
            part = [(j, ns[j]) for j in range(max(lo, 0), min(hi, len(ns)))]
            pit = [(n["octave"], 12 * n["octave"] + (7 * (n["pitch_class"] - 15)) % 12) for _, n in part]
            rows = []
            for j, n in part:
                metr = [1, 1, 1]
                if length:
                    x, d = (pos(n["onset"]) - on) / length, n["duration"] / length
                    metr = [x, x + d, d]
                rows.append(expected(W, W.TPC, n["pitch_class"], n["octave"], n["onset_level"], n["offset_level"], metr, ds[j - 1] if j else None, ds[j], min(pit), max(pit)))
            z = [0] * len(rows[0])
            out.append([z] * (max(lo, 0) - lo) + rows + [z] * (hi - min(hi, len(ns))))
        return out


def frames(I, st, score, offset=0):
    def fr(rows, drop=()):
        cols = [k for k in rows[0] if k not in drop]
        return pdm.frame(I, st, data={k: [r[k] for r in rows] for k in cols}, index=[offset + 3 * i for i in range(len(rows))], names=("id",))

    return fr(score["notes"]), (fr(score["chords"]) if score["chords"] is not None else None), measures(I, st)


def run_one(I, fn, args, kw, st):
    s = summarise(I, fn, args, kw, st=st)
    st, (kind, v) = s.step({})
    if kind == "raise":
        e = Broken(f"{fn.rsplit('.', 1)[-1]} raises {v.cls}")
        nd_ = getattr(v, "node", None)
        e.where = loc(I, fn) + (f" (at line {nd_.lineno})" if nd_ is not None else "")
        raise e
    return st, v


def build(I, W, st, score, red=None, inv=True, rel=True, sus=False, offset=0):
    n, c, m = frames(I, st, score, offset)
    kw = dict(use_inversions=inv, use_relative=rel, use_suspensions=sus, name="piece")
    if red:
        kw["chord_reduction"] = DICT(I, st, red)
    return run_one(I, PI + "get_score_piece_from_data_frames", [n, c, m], kw, st), m


def run(ck, I, tier):
    ck.rule("rows", "a piece holds, in order, the notes of the readable note rows and the chords of the readable chord rows, immediate repetitions (under the inversion and suspension settings) joined to one chord lasting to the end of the last")
    ck.rule("places", "each chord changes at the first note not before its onset (or the last note), and its range goes from the first note starting at or sounding past its onset to the next chord's change (or the last note's end)")
    ck.rule("keys", "the keys are those of the chords, one per stretch of chords in the same (relative or local) key, each placed at its first chord")
    ck.rule("durations", "the cached durations are the distances between the onsets of neighbouring notes, the last one up to the end of the last chord (or of the last note to end)")
    ck.rule("inputs", "a chord's input holds the vectors of the notes of its range and window, in their places, zeros where the window leaves the piece; the vectors are relative to this chord's onset and duration and to the notes of the window")
    ck.rule("within", "the chords within a range of inputs are those sounding during one of them")
    ck.rule("mask", "the reduction mask keeps exactly the objects that do not repeat their predecessor")
    ck.rule("dict", "a piece written as a dictionary and read back is the same piece")
    ck.rule("pure", "building and reading pieces changes neither tables, notes, chords nor keys")
    W = World(I)
    red = reductions(W)
    ks = list(red)
    for name, sc in scores().items():
        for inv, rel, sus in itertools.product((True, False), repeat=3):
            subj = f"{name} inversions={inv} relative={rel} suspensions={sus}"
            section(ck, "rows", subj)(lambda: piece(ck, I, W, sc, subj, None, inv, rel, sus))
        for rn in ks:
            if red[rn]:
                section(ck, "rows", f"{name} reduction={rn}")(lambda: piece(ck, I, W, sc, f"{name} reduction={rn}", red[rn], False, True, False))
        section(ck, "rows", f"{name} without chords")(lambda: piece(ck, I, W, dict(sc, chords=None), f"{name} without chords", None, True, True, False))
        for w in (0, 2, 5):
            section(ck, "inputs", f"{name} window={w}")(lambda: inputs(ck, I, W, sc, f"{name} window={w}", w))
        section(ck, "within", name)(lambda: within_range(ck, I, W, sc, name))
        section(ck, "dict", name)(lambda: roundtrip(ck, I, W, sc, name))
        section(ck, "dict", f"{name} without chords")(lambda: roundtrip(ck, I, W, dict(sc, chords=None), f"{name} without chords"))
    section(ck, "mask", "chords and keys")(lambda: masks(ck, I, W))
    section(ck, "places", "range start")(lambda: range_start(ck, I, W))


def attr(I, st, p, *names):
    c = I.cell(st, p)
    for n in names:
        if n in c.attrs:
            return c.attrs[n]
    raise Undec(f"no {names[0]}")


GET = {"notes": "get_inputs", "chords": "get_chords", "keys": "get_keys", "changes": "get_chord_change_indices", "ranges": "get_chord_ranges", "key_changes": "get_key_change_indices"}


def get(I, st, p, what, *args, **kw):
    c = I.cell(st, p)
    f, _ = c.cls.lookup(what)
    if f is None:
        raise Undec(f"no {what}")
    return run_one(I, f.qual if f.qual.startswith(PKG) else c.cls.mod.name + "." + f.qual, [p, *args], kw, st)


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


def read(I, st, v):
    return plain(Evalr(I, st, {})(v))


def compare(ck, rule, subj, w, got, exp, what, cls=None):
    """lists of objects / of indexes"""
    if exp is None:
        return ck.add(rule, subj, got is None, w, f"{subj}: {what} {show(got)}, should be None")
    if not isinstance(got, list):
        return ck.bad(rule, subj, w, f"{subj}: {what} {show(got)}")
    if cls:
        if not ck.add(rule, subj, len(got) == len(exp), w, f"{subj}: {len(got)} {what}, required {len(exp)}"):
            return False
        for i, (g, e) in enumerate(zip(got, exp)):
            if not isinstance(g, Obj):
                raise Undec(f"{what} {i} is {show(g)}")
            d = diff(fields(g, e), e)
            if not ck.add(rule, subj, not d and g.cls == cls, w, f"{subj}: {what} {i}: {d or g.cls}"):
                return False
        return True
    return ck.add(rule, subj, got == plain(exp), w, f"{subj}: {what} {show(got)}, required {show(exp)}", n=len(exp))


def same_piece(ck, I, st, p, want, subj, w):
    vals = {}
    for k, m in GET.items():
        st, v = get(I, st, p, m)
        vals[k] = read(I, st, v)
    compare(ck, "rows", subj, w, vals["notes"], want.notes, "notes", "Note")
    compare(ck, "rows", subj, w, vals["chords"], want.chords, "chords", "Chord")
    compare(ck, "keys", subj, w, vals["keys"], want.keys, "keys", "Key")
    compare(ck, "keys", subj, w, vals["key_changes"], want.key_changes, "key changes")
    compare(ck, "places", subj, w, vals["changes"], want.changes, "chord changes")
    compare(ck, "places", subj, w, vals["ranges"], want.ranges, "chord ranges")
    return st


def piece(ck, I, W, sc, subj, red, inv, rel, sus):
    w = loc(I, PI + "get_score_piece_from_data_frames")
    st = St()
    want = Want(W, I, sc, red, inv, rel, sus)
    (st, p), m = build(I, W, st, sc, red, inv, rel, sus, offset=7)
    st = same_piece(ck, I, st, p, want, subj, w)
    for _ in range(2):
        st, v = get(I, st, p, "get_duration_cache")
        compare(ck, "durations", subj, loc(I, PI + "ScorePiece.get_duration_cache"), read(I, st, v), want.durations(), "durations")
    if want.keys is not None:
        st, v = get(I, st, p, "get_key_change_input_indices")
        compare(ck, "keys", subj, loc(I, PI + "Piece.get_key_change_input_indices"), read(I, st, v), [want.changes[i] for i in want.key_changes], "key change inputs")


def matrices(I, st, v):
    out = []
    its = I.concrete_items(v, st)
    if its is None:
        raise Undec("no list of inputs")
    return [plain(Evalr(I, st, {})(x)) for x in its]


def inputs(ck, I, W, sc, subj, window):
    w = loc(I, PI + "get_chord_note_input")
    want = Want(W, I, sc)
    (st, p), _ = build(I, W, St(), sc)
    n = len(want.notes)
    cases = [("own chords", None, None)]
    if n > 4:
        cases += [("given ranges", [(0, 2), (1, 4), (3, n)], [0, 2, 4]), ("given ranges to the end", [(0, n), (n - 1, n)], [0, n - 1])]
    cases.append(("the whole piece", [(0, n)], [0]))
    for nm, ra, chg in cases:
        kw = dict(window=window)
        if ra:
            kw.update(ranges=LIST(I, st, [Tup(x) for x in ra]), change_indices=LIST(I, st, chg))
        st, v = get(I, st, p, "get_chord_note_inputs", **kw)
        got, exp = matrices(I, st, v), want.inputs(window, ra, chg)
        if not ck.add("inputs", f"{subj} {nm}", len(got) == len(exp), w, f"{subj} {nm}: {len(got)} inputs, required {len(exp)}"):
            continue
        for i, (g, e) in enumerate(zip(got, exp)):
            if not ck.add("inputs", f"{subj} {nm}", len(g) == len(e), w, f"{subj} {nm}: chord {i} has {len(g)} rows, required {len(e)}"):
                break
            bad = [j for j in range(len(e)) if not (isinstance(g[j], list) and close(g[j], e[j]))]
            if bad:
                j = bad[0]
                k = next((k for k, (a, b) in enumerate(zip(g[j], e[j])) if not close([a], [b])), "length") if isinstance(g[j], list) else "?"
                ck.bad("inputs", f"{subj} {nm}", w, f"{subj} {nm}: chord {i} row {j} element {k}: {show(g[j][k]) if isinstance(k, int) else ''}, required {show(e[j][k]) if isinstance(k, int) else ''}")
                break
            ck.ok("inputs", f"{subj} {nm}", w)
    # nothing moved
    same_piece(Only(ck, "pure"), I, st, p, want, subj, w)


class Only:
    """reports under one rule"""

    def __init__(self, ck, rule):
        self.ck, self.rule = ck, rule

    def add(self, rule, *a, **k):
        return self.ck.add(self.rule, *a, **k)

    def bad(self, rule, *a, **k):
        return self.ck.bad(self.rule, *a, **k)


def within_range(ck, I, W, sc, subj):
    w = loc(I, PI + "Piece.get_chords_within_range")
    want = Want(W, I, sc)
    (st, p), _ = build(I, W, St(), sc)
    ch, n = want.changes, len(want.notes)
    if len(set(ch)) < len(ch):
        return
    ends = ch[1:] + [n]
    for a in range(n):
        for b in list(range(a + 1, n + 1)) + [None]:
            st2, v = get(I, st.copy(), p, "get_chords_within_range", a, b)
            its = I.concrete_items(v, st2)
            if its is None:
                raise Undec("no list")
            got = [Evalr(I, st2, {})(x) for x in its]
            if not all(isinstance(g, Obj) for g in got):
                raise Undec("chords")
            exp = [want.chords[i]["onset"] for i in range(len(ch)) if ends[i] > a and (b is None or ch[i] < b)]
            on = [g.get("onset") for g in got]
            ck.add("within", subj, on == exp, w, f"{subj}: chords within {a}..{b} start at {show(on)}, required {show(exp)}")


def roundtrip(ck, I, W, sc, subj):
    w = loc(I, PI + "ScorePiece.to_dict")
    want = Want(W, I, sc)
    (st, p), m = build(I, W, St(), sc)
    st, d = get(I, st, p, "to_dict")
    st, q = run_one(I, PI + "get_score_piece_from_dict", [m, d], {"name": "again"}, st)
    st = same_piece(Only(ck, "dict"), I, st, q, want, subj, w)
    st, v = get(I, st, q, "get_duration_cache")
    compare(ck, "dict", subj, w, read(I, st, v), want.durations(), "durations")


def masks(ck, I, W):
    w = loc(I, PI + "get_reduction_mask")
    cs = [dict(root=14), dict(root=14, inversion=2), dict(root=15, inversion=2), dict(root=15, inversion=2, suspension=None), dict(root=15, inversion=2, chord_type=W.CT["MAJOR"]), dict(root=15, inversion=2, chord_type=W.CT["MAJOR"], key_tonic=3), dict(root=14)]
    for inv, sus in itertools.product((None, True, False), repeat=2):
        kw = {k: v for k, v in (("use_inversion", inv), ("use_suspension", sus)) if v is not None}
        f = ["root", "chord_type"] + ["inversion"] * (inv is not False) + ["suspension"] * (sus is True)
        full = [chord_kw(W, **c) for c in cs]
        mask(ck, I, "Chord", CH, full, f, kw, w)
    ks = [dict(), dict(relative_tonic=3), dict(relative_tonic=3, local_tonic=4), dict(relative_tonic=3, local_tonic=4, local_mode=W.KM["MINOR"]), dict(relative_tonic=3, relative_mode=W.KM["MAJOR"], local_mode=W.KM["MINOR"], local_tonic=4), dict(relative_tonic=3, relative_mode=W.KM["MAJOR"], local_mode=W.KM["MINOR"], local_tonic=4, global_tonic=2)]
    for rel in (None, True, False):
        kw = {} if rel is None else dict(use_relative=rel)
        f = ["local_tonic", "local_mode"] if rel is False else ["relative_tonic", "relative_mode"]
        mask(ck, I, "Key", KY, [key_kw(W, **k) for k in ks], f, kw, w)


def mask(ck, I, cls, mod, full, f, kw, w):
    for n in (0, 1, 2, len(full)):
        for use_kw in ((True, False) if not kw else (True,)):
            st = St()
            objs = LIST(I, st, [new_obj(I, mod + cls, x, st) for x in full[:n]])
            args = [objs] + ([DICT(I, st, kw)] if use_kw else [])
            st, v = run_one(I, PI + "get_reduction_mask", args, {}, st)
            got = [bool(x) for x in read(I, st, v)]
            exp = [i == 0 or any(conc(full[i][k]) != conc(full[i - 1][k]) for k in f) for i in range(n)]
            ck.add("mask", f"{cls} {kw}", got == exp, w, f"{n} of {cls} with {kw}: mask {got}, required {exp}")


def range_start(ck, I, W):
    fn = PI + "get_range_start"
    w = loc(I, fn)
    for name, sc in scores().items():
        want = Want(W, I, sc)
        st = St()
        notes = LIST(I, st, [new_obj(I, NT + "Note", {k: Tup(v) if isinstance(v, tuple) else v for k, v in n.items()}, st) for n in want.notes])
        times = sorted({n[k] for n in want.notes for k in ("onset", "offset")} | {(1, F(1, 16)), (0, F(0)), (9, F(0))})
        for t in times:
            st2, v = run_one(I, fn, [Tup(t), notes], {}, st.copy())
            exp = next((i for i, n in enumerate(want.notes) if n["onset"] >= t or n["offset"] > t), len(want.notes))
            ck.add("places", f"range start {name}", v == exp, w, f"{name}: range at {show(t)} starts at {show(v)}, required {exp}")
