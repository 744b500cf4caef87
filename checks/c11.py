"""C11: chord, key and note objects - equality, repetition, merging, dictionary round trips."""
import itertools
from fractions import Fraction

from .common import *

CLS = {
    "Chord": (CH + "Chord", chord_kw, CHORD_FIELDS),
    "Key": (KY + "Key", key_kw, KEY_FIELDS),
    "Note": (NT + "Note", note_kw, NOTE_FIELDS),
}


def alternatives(W, cls, f):
    """other values of a field, including ones that look alike"""
    if f in ("pitch_type", "tonic_type"):
        return [W.MIDI]
    if f in ("key_mode", "relative_mode", "global_mode"):
        return [W.KM["MAJOR"]]
    if f == "local_mode":
        return [W.KM["MINOR"]]
    if f == "chord_type":
        return [W.CT["MINOR"], W.CT["MIN_MAJ7"]]
    if f in ("onset", "offset"):
        return [Tup((3, Fraction(1, 8))), Tup((5, Fraction(1, 4))), Tup((2, Fraction(1, 4)))]
    if f in ("duration", "mc_onset"):
        return [Fraction(1, 3), Fraction(0)]
    if f == "suspension":
        return [None, "b4", "4"]
    return [0, 3, 11]


def sym_fields(cls):
    return {
        "Chord": ["root", "bass", "key_tonic", "inversion", "onset_level", "offset_level"],
        "Key": ["relative_tonic", "local_tonic", "global_tonic"],
        "Note": ["pitch_class", "octave", "onset_level", "offset_level"],
    }[cls]


def run(ck, I, tier):
    ck.rule("equal", "two objects are equal exactly when every constructor field agrees; objects of other classes and None are unequal")
    ck.rule("dict", "to_dict lists exactly the constructor's parameters with the object's values, and building an object from it gives an equal object")
    ck.rule("repeat", "a chord repeats another iff pitch type, root and type agree (and inversion or suspension where asked); a key iff its relative (or local) tonic and mode and its pitch type agree; other fields are ignored")
    ck.rule("merge", "merging a following chord extends offset, offset level and duration and changes nothing else, and leaves the following chord alone")
    ck.rule("ctor", "a new object holds exactly the values it was given")
    ck.rule("print", "the printed form names the object's own pitch, mode, chord type, inversion, bass and positions")
    W = World(I)
    for cls in CLS:
        section(ck, "equal", cls)(lambda: equality(ck, I, W, cls))
        section(ck, "dict", cls)(lambda: dicts(ck, I, W, cls))
        section(ck, "ctor", cls)(lambda: ctor(ck, I, W, cls))
    section(ck, "print", "names")(lambda: printed(ck, I, W))
    section(ck, "repeat", "Chord")(lambda: repeat_chord(ck, I, W))
    section(ck, "repeat", "Key")(lambda: repeat_key(ck, I, W))
    section(ck, "merge", "Chord")(lambda: merge(ck, I, W))


def build(I, W, cls, st, **over):
    dotted, kwf, _ = CLS[cls]
    return new_obj(I, dotted, kwf(W, **over), st)


def truth(I, fn, args, kw, st):
    rets, raises = I.run(fn, args, kw, st=st)
    got = Summary(I, rets, raises).at({})
    if got[0] == "raise":
        return got
    if got[1] is True or got[1] is False:
        return got[1]
    if isinstance(got[1], int):
        return bool(got[1])
    if repr(got[1]).find("NotImplemented") >= 0:
        return None
    raise Undec(f"not a truth value: {got[1]!r:.80}")


def equality(ck, I, W, cls):
    dotted, kwf, fields = CLS[cls]
    w = loc(I, dotted + ".__eq__")
    st = St()
    a, b = build(I, W, cls, st), build(I, W, cls, st)
    ck.add("equal", f"{cls} same", truth(I, dotted + ".__eq__", [a, b], {}, st) is True, w, "two objects with the same fields are unequal")
    base = kwf(W)
    for f in fields:
        for alt in alternatives(W, cls, f):
            if conc(alt) == conc(base[f]):
                continue
            st = St()
            a, b = build(I, W, cls, st), build(I, W, cls, st, **{f: alt})
            for x, y in ((a, b), (b, a)):
                ck.add("equal", f"{cls} {f}", truth(I, dotted + ".__eq__", [x, y], {}, st.copy()) is False, w, f"objects which differ in {f} ({show(conc(base[f]))} / {show(conc(alt))}) are equal")
    other = {"Chord": "Key", "Key": "Note", "Note": "Chord"}[cls]
    st = St()
    a = build(I, W, cls, st)
    for nm, o in (("None", None), (other, build(I, W, other, st)), ("a number", 3), ("a tuple", Tup((1, 2)))):
        r = truth(I, dotted + ".__eq__", [a, o], {}, st.copy())
        ck.add("equal", f"{cls} other types", r is False or r is None, w, f"compared with {nm}: {show(r)}")
    # symbolic: equality of the integer fields is exactly equality of the values
    for f in sym_fields(cls):
        st = St()
        p, q = isym("p"), isym("q")
        a, b = build(I, W, cls, st, **{f: p}), build(I, W, cls, st, **{f: q})
        s = summarise(I, dotted + ".__eq__", [a, b], {}, st=st)
        for x, y in ((0, 0), (5, 5), (0, 1), (3, 2), (-1, 1), (34, 0)):
            got = s.at({"p": x, "q": y})
            ck.add("equal", f"{cls} {f} as a symbol", got == ("ret", x == y), w, f"{f} {x} / {y}: {show(got)}")


def as_dict(I, st, v):
    c = I.cell(st, v)
    if c is None or c.kind != "dict" or c.open:
        raise Undec("not a plain dictionary")
    return {k: x for k, x in c.items}


def dicts(ck, I, W, cls):
    dotted, kwf, fields = CLS[cls]
    w = loc(I, dotted + ".to_dict")
    variants = [{}]
    if cls == "Chord":
        variants += [{"suspension": None}, {"pitch_type": W.MIDI, "root": 3}]
    if cls == "Note":
        variants += [{"mc_onset": Fraction(0)}]
    for over in variants:
        st = St()
        kw = kwf(W, **over)
        o = new_obj(I, dotted, kw, st)
        rets, raises = I.run(dotted + ".to_dict", [o], {}, st=st)
        if len(rets) != 1 or raises:
            if not rets:
                ck.bad("dict", cls, w, "to_dict raises")
                return
            raise Undec("several outcomes")
        s, v = rets[0]
        d = as_dict(I, s, v)
        ck.add("dict", f"{cls} fields", set(d) == set(fields), w, f"fields {sorted(set(d) ^ set(fields))} missing or extra")
        ev = Evalr(I, s, {})
        bad = [f for f in fields if f in d and not val_eq(ev(d[f]), conc(kw[f]))]
        ck.add("dict", f"{cls} values", not bad, w, f"values of {bad} differ from the object's")
        if set(d) == set(fields):
            o2 = new_obj(I, dotted, d, s)
            ck.add("dict", f"{cls} round trip", truth(I, dotted + ".__eq__", [o, o2], {}, s) is True, w, "the object built from the dictionary differs")


def ctor(ck, I, W, cls):
    dotted, kwf, fields = CLS[cls]
    w = loc(I, dotted + ".__init__")
    st = St()
    kw = kwf(W)
    o = new_obj(I, dotted, kw, st)
    at = I.cell(st, o).attrs
    ev = Evalr(I, st, {})
    for f in fields:
        ck.add("ctor", f"{cls} {f}", f in at and val_eq(ev(at[f]), conc(kw[f])), w, f"{f} was given {show(conc(kw[f]))}, the object holds {show(ev(at[f])) if f in at else 'nothing'}")
    if cls == "Note":
        for mo, exp in ((None, Fraction(1, 4)), (Fraction(0), Fraction(0))):
            st = St()
            kw = kwf(W, mc_onset=mo)
            o = new_obj(I, dotted, kw, st)
            got = Evalr(I, st, {})(I.cell(st, o).attrs.get("mc_onset"))
            ck.add("ctor", "Note mc_onset default", val_eq(got, exp), w, f"mc_onset given {mo}: {show(got)}, required {exp}")


def repeat_chord(ck, I, W):
    fn = CH + "Chord.is_repeated"
    w = loc(I, fn)
    base = chord_kw(W)
    for ui, us in itertools.product((None, True, False), repeat=2):
        kw = {}
        if ui is not None:
            kw["use_inversion"] = ui
        if us is not None:
            kw["use_suspension"] = us
        rel = {"pitch_type", "root", "chord_type"}
        if ui in (None, True):
            rel.add("inversion")
        if us is True:
            rel.add("suspension")
        subj = f"Chord inversion={ui} suspension={us}"
        for f in CHORD_FIELDS:
            for alt in alternatives(W, "Chord", f):
                if conc(alt) == conc(base[f]):
                    continue
                st = St()
                a, b = build(I, W, "Chord", st), build(I, W, "Chord", st, **{f: alt})
                for x, y in ((a, b), (b, a)):
                    got = truth(I, fn, [x, y], kw, st.copy())
                    ck.add("repeat", subj, got is (f not in rel), w, f"chords differing in {f} ({show(conc(base[f]))} / {show(conc(alt))}): repeated = {got}")
        st = St()
        a, b = build(I, W, "Chord", st), build(I, W, "Chord", st)
        ck.add("repeat", subj, truth(I, fn, [a, b], kw, st) is True, w, "the same chord is not a repetition")
        # a combination of irrelevant differences is still a repetition
        st = St()
        a = build(I, W, "Chord", st)
        irr = {f: alternatives(W, "Chord", f)[0] for f in CHORD_FIELDS if f not in rel}
        b = build(I, W, "Chord", st, **irr)
        ck.add("repeat", subj, truth(I, fn, [a, b], kw, st) is True, w, "fields that must be ignored decide")
    st = St()
    a = build(I, W, "Chord", st)
    for o in (None, build(I, W, "Key", st)):
        ck.add("repeat", "Chord other types", truth(I, fn, [a, o], {}, st.copy()) is False, w, "another type counts as a repetition")


def repeat_key(ck, I, W):
    base = key_kw(W)
    for m in ("is_repeated", "equals"):
        fn = KY + "Key." + m
        w = loc(I, fn)
        for ur in (None, True, False):
            kw = {} if ur is None else {"use_relative": ur}
            rel = {"tonic_type", "relative_tonic", "relative_mode"} if ur is not False else {"tonic_type", "local_tonic", "local_mode"}
            subj = f"Key.{m} use_relative={ur}"
            for f in KEY_FIELDS:
                for alt in alternatives(W, "Key", f):
                    if alt == base[f]:
                        continue
                    st = St()
                    a, b = build(I, W, "Key", st), build(I, W, "Key", st, **{f: alt})
                    for x, y in ((a, b), (b, a)):
                        got = truth(I, fn, [x, y], kw, st.copy())
                        ck.add("repeat", subj, got is (f not in rel), w, f"keys differing in {f}: {got}")
            st = St()
            a, b = build(I, W, "Key", st), build(I, W, "Key", st)
            ck.add("repeat", subj, truth(I, fn, [a, b], kw, st) is True, w, "the same key is not a repetition")
            st = St()
            a = build(I, W, "Key", st)
            b = build(I, W, "Key", st, **{f: alternatives(W, "Key", f)[0] for f in KEY_FIELDS if f not in rel})
            ck.add("repeat", subj, truth(I, fn, [a, b], kw, st) is True, w, "fields that must be ignored decide")
        st = St()
        a = build(I, W, "Key", st)
        for o in (None, build(I, W, "Chord", st)):
            ck.add("repeat", f"Key.{m} other types", truth(I, fn, [a, o], {}, st.copy()) is False, w, "another type counts as the same key")


def merge(ck, I, W):
    fn = CH + "Chord.merge_with"
    w = loc(I, fn)
    for lv in itertools.product((3, 1, 0), repeat=2):
        merge_one(ck, I, W, fn, w, *lv)


def merge_one(ck, I, W, fn, w, la, lb):
    st = St()
    d1, d2 = T("sym", "d1", "frac"), T("sym", "d2", "frac")
    a = build(I, W, "Chord", st, duration=d1, offset_level=la)
    nxt = dict(root=3, bass=4, key_tonic=5, key_mode=W.KM["MAJOR"], chord_type=W.CT["MAJOR"], inversion=2, onset=Tup((7, F_(1, 2))), onset_level=0, offset=Tup((9, F_(3, 4))), offset_level=lb, duration=d2, suspension=None)
    b = build(I, W, "Chord", st, **nxt)
    before_a, before_b = dict(I.cell(st, a).attrs), dict(I.cell(st, b).attrs)
    rets, raises = I.run(fn, [a, b], {}, st=st)
    if len(rets) != 1:
        if raises and not rets:
            ck.bad("merge", "Chord", w, "merging raises")
            return
        raise Undec("several outcomes")
    s = rets[0][0]
    for k in range(3):
        env = {"d1": F_(3 + k, 8), "d2": F_(5, 7 + k)}
        ev = Evalr(I, s, env)
        at, bt = I.cell(s, a).attrs, I.cell(s, b).attrs
        for f in CHORD_FIELDS:
            exp = {"offset": (9, F_(3, 4)), "offset_level": lb, "duration": env["d1"] + env["d2"]}.get(f, ev(before_a[f]))
            got = ev(at[f])
            ck.add("merge", f"Chord {f}", val_eq(got, exp), w, f"{f} after merging is {show(got)}, required {show(exp)}")
            ck.add("merge", "following chord", val_eq(ev(bt[f]), ev(before_b[f])), w, f"{f} of the following chord changed")


def printed(ck, I, W):
    def name_of(W, p, pt):
        return summarise(I, HU + "get_pitch_string", [p, pt], {}).at({})[1]

    def text(cls, **over):
        st = St()
        o = build(I, W, cls, st, **over)
        return summarise(I, CLS[cls][0] + ".__str__", [o], {}, st=st).at({})

    for pt in W.PT.values():
        for p in (0, 3, 7, 11):
            for q in (1, 8):
                for mode in W.KM.values():
                    other = W.KM["MAJOR" if mode.name == "MINOR" else "MINOR"]
                    got = text("Key", relative_tonic=p, local_tonic=q, global_tonic=q, relative_mode=mode, local_mode=other, global_mode=other, tonic_type=pt)
                    exp = ("ret", f"{name_of(W, p, pt)} KeyMode.{mode.name}")
                    ck.add("print", "Key", got == exp, loc(I, KY + "Key.__str__"), f"{show(got)}, required {show(exp)}")
                got = text("Note", pitch_class=p, octave=q, onset="on", offset="off", pitch_type=pt, mc_onset=0)
                exp = ("ret", f"{name_of(W, p, pt)}{q}: on--off")
                ck.add("print", "Note", got == exp, loc(I, NT + "Note.__str__"), f"{show(got)}, required {show(exp)}")
                for inv, nm in enumerate(("root position", "1st inversion", "2nd inversion", "3rd inversion", "4th inversion")):
                    got = text("Chord", root=p, bass=q, inversion=inv, chord_type=W.CT["HALF_DIM7"], pitch_type=pt, onset="on", offset="off")
                    exp = ("ret", f"{name_of(W, p, pt)}:%7 {nm} BASS={name_of(W, q, pt)}: on--off")
                    ck.add("print", "Chord", got == exp, loc(I, CH + "Chord.__str__"), f"{show(got)}, required {show(exp)}")
