"""C19: pieces read from MusicXML scores and label files."""
from fractions import Fraction

from sa import pdm

from .c12 import diff, fields, lab_chord, lab_key, level, spelled
from . import c12
from .c18 import NA, compare, get, read, run_one
from .common import *

PI = PKG + "data.piece."
F = Fraction
STEP = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}


def P(name):
    """music21 name with octave -> (name, octave, MIDI number)"""
    i = next(k for k, c in enumerate(name) if c.isdigit())
    nm, o = name[:i], int(name[i:])
    return nm, o, 12 * (o + 1) + STEP[nm[0]] + nm.count("#") - nm[1:].count("-")


def scores():
    """measures: (number, length in quarters, time signature shown, notes); note: (offset, length, names); brackets: (number, first, last)"""
    plain = dict(measures=[(1, 4.0, "4/4", [(0.0, 1.0, ["C4", "E4", "G4"]), (1.0, 1.0, ["D4"]), (2.0, 2.0, ["F#4"])]), (2, 4.0, None, [(0.0, 4.0, ["B-3"])]), (3, 4.0, None, [(0.0, 3.0, ["B#3"]), (3.0, 1.0, ["C-5"])])], brackets=[])
    pickup = dict(measures=[(0, 1.0, "3/4", [(0.0, 0.5, ["G4"]), (0.5, 3.0, ["A4"])]), (1, 3.0, None, [(0.0, 4.0, ["C4"]), (1.5, 0.5, ["D5", "F5"])]), (2, 3.0, None, [(2.0, 1.0, ["E4"])]), (3, 2.0, None, [(0.0, 2.0, ["C4"])])], brackets=[])
    meter = dict(measures=[(1, 3.0, "6/8", [(0.0, 1.5, ["C4"])]), (2, 4.0, "4/4", [(0.0, 8.0, ["D4"]), (3.0, 2.0, ["E-2"])]), (3, 4.0, "4/4", [(1.0, 3.0, ["F4"])]), (4, 1.0, None, [(0.5, 0.5, ["G4"])]), (5, 3.0, None, [(0.0, 3.0, ["A4"])]), (6, 2.0, "2/4", [(0.0, 2.0, ["B4"])])], brackets=[])
    endings = dict(measures=[(1, 4.0, "4/4", [(0.0, 4.0, ["C4"])]), (2, 4.0, None, [(0.0, 4.0, ["D4"])]), (3, 4.0, None, [(0.0, 4.0, ["E4"])]), (4, 4.0, None, [(0.0, 4.0, ["F4"])]), (5, 4.0, None, [(0.0, 4.0, ["G4"])]), (6, 4.0, None, [(0.0, 2.0, ["A4"])])], brackets=[("1", 3, 4), ("2", 5, 5)])
    split = dict(measures=[(1, 4.0, "4/4", [(0.0, 4.0, ["C4"])]), (2, 2.0, None, [(0.0, 2.0, ["D4"])]), (2, 2.0, None, [(0.0, 1.0, ["E4"]), (1.0, 3.0, ["F4"])]), (3, 4.0, None, [(0.0, 4.0, ["G4"])])], brackets=[])
    one = dict(measures=[(1, 4.0, "4/4", [(0.0, 2.0, ["C4"]), (2.0, 2.0, ["D4"])])], brackets=[])
    return {"plain": plain, "pick-up": pickup, "meter": meter, "endings": endings, "split": split, "one measure": one}


class Want:
    def __init__(self, W, sc):
        self.W = W
        skip = {k for n, a, b in sc["brackets"] if n == "1" for k in range(a, b + 1)}
        kept, t, first = [], F(0), None
        raw = F(0)
        ts = "4/4"
        for i, (num, ql, sig, notes) in enumerate(sc["measures"]):
            d = F(ql) / 4
            if num in skip:
                raw += d
                continue
            changed = sig is not None and sig != ts
            if sig is not None:
                ts = sig
            kept.append(dict(mn=num, dur=d, ts=ts, start=t, changed=changed and i > 0, notes=notes))
            t += d
            raw += d
        # positions within the bar: bars are counted from the second measure (the first may be a pick-up) or from the last change of meter
        epoch = F(sc["measures"][0][1]) / 4 if len(sc["measures"]) > 1 else F(0)
        for m in kept:
            if m["changed"]:
                epoch = m["start"]
            m["off"] = (m["start"] - epoch) % F(m["ts"])
        self.kept = kept

    def table(self):
        k = self.kept
        return {"mc": list(range(len(k))), "mn": [m["mn"] for m in k], "timesig": [m["ts"] for m in k], "start": [m["start"] for m in k], "act_dur": [m["dur"] for m in k], "mc_offset": [m["off"] for m in k], "next": list(range(1, len(k))) + [None]}

    def at(self, t):
        i = max(j for j, m in enumerate(self.kept) if m["start"] <= t)
        return i, t - self.kept[i]["start"] + self.kept[i]["off"]

    def notes(self):
        W, out = self.W, []
        for i, m in enumerate(self.kept):
            for off, ql, names in m["notes"]:
                for nm in names:
                    n, o, midi = P(nm)
                    on = m["start"] + F(off) / 4
                    a, b = self.at(on), self.at(on + F(ql) / 4)
                    out.append(dict(pitch_class=spelled(W, n.replace("-", "b"), W.TPC), octave=midi // 12, onset=a, onset_level=level(m["ts"], a[1]), duration=F(ql) / 4, offset=b, offset_level=level(self.kept[b[0]]["ts"], b[1]), pitch_type=W.TPC))
        return out


def forms(sc):
    """the score's notes by measure: parts apart or together, ties as written or joined"""
    starts, t = [], 0.0
    for num, ql, sig, notes in sc["measures"]:
        starts.append(t)
        t += ql
    out = {}
    for stripped in (False, True):
        per = [[[], []] for _ in starts]
        for i, (num, ql, sig, notes) in enumerate(sc["measures"]):
            for k, (off, ln, names) in enumerate(notes):
                j, on, left = i, off, ln
                while not stripped and j + 1 < len(starts) and on + left > sc["measures"][j][1]:
                    here = sc["measures"][j][1] - on
                    per[j][k % 2].append((on, here, names))
                    j, on, left = j + 1, 0.0, left - here
                per[j][k % 2].append((on, left, names))
        for flat in (False, True):
            out[flat, stripped] = [[sorted(p[0] + p[1], key=lambda x: x[0])] if flat else p for p in per]
    return starts, out


def build(I, st, sc):
    def note(off, ql, nm):
        n, o, m = P(nm)
        return new_obj(I, "vm21.Note", {}, st, [off, ql, n, o, m])

    starts, fs = forms(sc)
    table = {}
    for key, per in fs.items():
        ms = []
        for i, (num, ql, sig, _) in enumerate(sc["measures"]):
            parts = []
            for notes in per[i]:
                ns = []
                for off, ln, names in notes:
                    # the notes of a chord have no place of their own
                    ns.append(note(off, ln, names[0]) if len(names) == 1 else new_obj(I, "vm21.Chord", {}, st, [off, ln, LIST(I, st, [note(0.0, 1.0, x) for x in names])]))
                parts.append(new_obj(I, "vm21.Measure", {}, st, [num, ql, sig, LIST(I, st, ns)]))
            ms.append(Tup((starts[i], LIST(I, st, parts))))
        table[Tup(key)] = LIST(I, st, ms)
    br = [new_obj(I, "vm21.Bracket", {}, st, list(b)) for b in sc["brackets"]]
    return new_obj(I, "vm21.Score", {}, st, [DICT(I, st, table), LIST(I, st, br)])


def run(ck, I, tier):
    ck.rule("measures", "the measures of a score: first endings left out and time closed up over them, each with its number, time signature, start, length up to the next, place within its bar, and follower")
    ck.rule("notes", "each note of the measures kept (chords note by note), with its pitch, octave of its MIDI number, length, and the measure, beat and level of its onset and offset; ties joined, parts together")
    ck.rule("labels", "a labelled score holds the chord and relative key of each label row with a positive length from the beginning on, each chord placed among the notes, keys at the first chord in them")
    W = World(I)
    for name, sc in scores().items():
        section(ck, "measures", name)(lambda: score(ck, I, W, sc, name))
    section(ck, "labels", "no labels")(lambda: unlabelled(ck, I, W))
    for name in label_sets():
        section(ck, "labels", name)(lambda: labelled(ck, I, W, name))


def score(ck, I, W, sc, name):
    want = Want(W, sc)
    fn = PI + "get_measures_df_from_music21_score"
    w = loc(I, fn)
    st = St()
    s = build(I, st, sc)
    st, df = run_one(I, fn, [s], {}, st)
    c = I.cell(st, df)
    if c is None or c.kind != "df":
        raise Undec("no frame")
    for k, exp in want.table().items():
        if c.col(k) is None:
            ck.bad("measures", name, w, f"{name}: no column {k}")
            continue
        got = [None if pdm.is_null(x) is True else Evalr(I, st, {})(x) for x in c.data[c.col(k)]]
        ck.add("measures", name, got == exp, w, f"{name}: {k} {show(got)}, required {show(exp)}", n=len(exp))
    fn = PI + "get_notes_from_music_xml"
    w = loc(I, fn)
    st, ns = run_one(I, fn, [s, df], {}, st)
    compare(ck, "notes", name, w, read(I, st, ns), want.notes(), "notes", "Note")


class Files:
    """the score and the labels behind the paths"""

    def __init__(self, I, sc, rows):
        self.I, self.sc, self.rows = I, sc, rows
        self.old = {}

    def __enter__(self):
        for k, f in (("music21.converter.parse", self.parse), ("pandas.read_csv", self.csv)):
            self.old[k] = self.I.hooks.get(k)
            self.I.hooks[k] = f

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                self.I.hooks.pop(k, None)
            else:
                self.I.hooks[k] = v

    def parse(self, I, args, kw, st, node):
        return build(I, st, self.sc)

    def csv(self, I, args, kw, st, node):
        conv = kw.get("converters")
        names = I.concrete_items(kw.get("names"), st)
        c = I.cell(st, conv)
        if names is None or kw.get("header", 0) is not None or c is None or c.kind != "dict":
            raise Undec("how the labels are read")
        if {k for k, _ in c.items} < {"on", "off"} or len(names) != 6:
            raise Undec("how the labels are read")
        keys = ["on", "off", "key", "degree", "type", "inv"]
        return pdm.frame(I, st, data={n: [r[k] for r in self.rows] for n, k in zip(names, keys)})


def unlabelled(ck, I, W):
    fn = PI + "get_score_piece_from_music_xml"
    for name, sc in scores().items():
        st = St()
        with Files(I, sc, []):
            st, p = run_one(I, fn, ["x.mxl", None], {"name": "x"}, st)
        want = Want(W, sc)
        st, v = get(I, st, p, "get_inputs")
        compare(ck, "labels", f"no labels {name}", loc(I, fn), read(I, st, v), want.notes(), "notes", "Note")
        for m in ("get_chords", "get_keys", "get_chord_change_indices", "get_key_change_indices"):
            st, v = get(I, st, p, m)
            ck.add("labels", f"no labels {name}", v is None, loc(I, fn), f"{name}: {m} of a score without labels is {show(v)}")


def L(on, off, key, degree, typ, inv):
    return dict(on=F(on), off=F(off), key=key, degree=degree, type=typ, inv=inv)


def label_sets():
    return {
        "one key": ("plain", [L(0, 1, "C", "1", "M", 0), L(1, 2, "C", "5", "D7", 1), L(2, 4, "C", "1", "M", 2), L(4, 8, "C", "4", "M", 0), L(8, 12, "C", "1+", "M", 0)]),
        "keys": ("pick-up", [L(0, "1/2", "a", "5", "D7", 3), L("1/2", 1, "a", "1", "m", 0), L(1, 3, "C", "5/5", "M", 0), L(3, "7/2", "C", "5/5", "M", 1), L("7/2", 6, "G", "1", "M", 0), L(6, 7, "G", "2/6", "h7", 0), L(7, 9, "e", "7", "d7", 1)]),
        "faulty": ("endings", [L(-1, 1, "C", "1", "M", 0), L(-2, 0, "C", "1", "M", 0), L(0, 3, "F", "1", "M", 0), L(3, 3, "F", "2", "m", 0), L(3, 8, "F", "6", "m", 1), L(8, 7, "d", "1", "m", 0), L(8, 10, "d", "5+", "M", 0), L(10, 16, "d", "1", "m", 0)]),
        "between notes": ("meter", [L("1/2", "5/4", "C", "1", "M", 0), L("5/4", 2, "C", "2", "m", 0), L(2, 5, "C", "5", "D7", 0), L(5, 9, "E-", "1", "M", 1), L(9, 11, "E-", "4", "M", 0), L(11, 17, "E-", "5", "D7", 2)]),
    }


def labelled(ck, I, W, name):
    fn = PI + "get_score_piece_from_music_xml"
    w = loc(I, fn)
    which, rows = label_sets()[name]
    sc = scores()[which]
    want = Want(W, sc)
    ns = want.notes()
    st = St()
    with Files(I, sc, rows):
        st, p = run_one(I, fn, ["x.mxl", "x.csv"], {"name": "x"}, st)
    rows = [dict(r, on=r["on"] / 4, off=r["off"] / 4, degree=r["degree"].rstrip("+")) for r in rows if r["on"] >= 0 and r["off"] > r["on"]]
    chords, keys = [], []
    glob = None
    for r in rows:
        if glob is None:
            k = lab_key(W, r, W.TPC)
            glob = (k["local_tonic"], k["local_mode"])
        keys.append(lab_key(W, r, W.TPC, glob))
        # the chord of the row with this score's positions
        c = lab_chord(W, dict(r, on=F(0), off=F(1, 4)), W.TPC)
        a, b = want.at(r["on"]), want.at(r["off"])
        c.update(onset=a, offset=b, onset_level=level(want.kept[a[0]]["ts"], a[1]), offset_level=level(want.kept[b[0]]["ts"], b[1]), duration=r["off"] - r["on"])
        chords.append(c)
    changes = [next((i for i, n in enumerate(ns) if n["onset"] >= c["onset"]), len(ns) - 1) for c in chords]
    starts = [next((i for i, n in enumerate(ns) if n["onset"] >= c["onset"] or n["offset"] > c["onset"]), len(ns)) for c in chords]
    kc = [i for i, k in enumerate(keys) if i == 0 or (k["relative_tonic"], k["relative_mode"]) != (keys[i - 1]["relative_tonic"], keys[i - 1]["relative_mode"])]
    for m, exp, what, cls in (
        ("get_inputs", ns, "notes", "Note"), ("get_chords", chords, "chords", "Chord"), ("get_keys", [keys[i] for i in kc], "keys", "Key"), ("get_key_change_indices", kc, "key changes", None),
        ("get_chord_change_indices", changes, "chord changes", None), ("get_chord_ranges", list(zip(starts, changes[1:] + [len(ns)])), "chord ranges", None),
    ):
        st, v = get(I, st, p, m)
        compare(ck, "labels", name, w, read(I, st, v), exp, what, cls)
