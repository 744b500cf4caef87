"""C08: note feature vectors - layout, length, values."""
import itertools
from fractions import Fraction

from sa import pdm

from .common import *

ONSET = (3, Fraction(1, 4))


def hot(i, k):
    return [1 if j == i else 0 for j in range(k)]


def midi(W, pt, pc, octave):
    return 12 * octave + (pc if pt == W.MIDI else 7 * (pc - 15) % 12)


def expected(W, pt, pc, octave, ol, fl, metr, prev, nxt, mn, mx):
    m = midi(W, pt, pc, octave)
    out = hot(pc, W.hc("NUM_PITCHES")[pt]) + hot(octave, 10) + hot(ol, 4) + hot(fl, 4)
    out += metr if metr is not None else [0, 0, 0]
    out += [prev or 0, nxt or 0]
    out += [1 if mn is not None and m == mn[1] else 0]
    out += hot(octave - (mn[0] if mn else 0), 10)
    out += [m / 127]
    if mn is not None and mx is not None:
        out += [(m - mn[1]) / ((mx[1] - mn[1]) or 1)]
    else:
        out += [0]
    return out


def close(got, exp):
    return len(got) == len(exp) and all(not isinstance(a, V) and a is not None and abs(a - b) < 1e-9 for a, b in zip(got, exp))


def run(ck, I, tier):
    ck.rule("vector", "a note's vector is: pitch class, octave, onset level and offset level one-hots, position and length within the chord, gaps to the neighbouring onsets, lowest-note flag, octave above the lowest one-hot, MIDI number / 127, height within the range")
    ck.rule("length", "the declared note-vector length equals the length of the vector for both pitch types")
    ck.rule("range", "every MIDI note 0..127 has a vector")
    ck.rule("pure", "building a vector does not change the note")
    W = World(I)
    for pt in W.PT.values():
        for ctx in ("none", "chord", "chord0", "gaps", "measured", "incomplete"):
            for ext in ("none", "min", "minmax", "same", "max"):
                subj = f"{pt.name} context={ctx} extremes={ext}"
                section(ck, "vector", subj)(lambda: vec(ck, I, W, pt, ctx, ext, subj))
        section(ck, "range", pt.name)(lambda: rng(ck, I, W, pt))


def build_note(I, W, st, pt, pc, octave, ol, fl, dur):
    return new_obj(I, NT + "Note", note_kw(W, pitch_class=pc, octave=octave, onset_level=ol, offset_level=fl, pitch_type=pt, duration=dur), st)


def vec(ck, I, W, pt, ctx, ext, subj):
    w = loc(I, NT + "Note.to_vec")
    n = W.hc("NUM_PITCHES")[pt]
    L = summarise(I, NT + "get_note_vector_length", [pt], {}).at({})
    for i in range(0, n * 10, 7 if n < 20 else 11):
        pc, octave = i % n, (i // 3) % 10
        ol, fl = i % 4, (i // 5) % 4
        dur = [Fraction(3, 8), Fraction(1), Fraction(0), Fraction(5, 2)][i % 4]
        m = midi(W, pt, pc, octave)
        kw, metr, prev, nxt = {}, None, None, None
        st = St()
        if ctx in ("chord", "chord0"):
            cd = Fraction(3, [4, 2, 8][i % 3]) if ctx == "chord" else Fraction(0)
            at = [Fraction(1, 4), Fraction(0), Fraction(-1, 2), Fraction(7, 4)][(i // 2) % 4]
            kw = dict(chord_onset=Tup((3, Fraction(0))), chord_offset=Tup((4, Fraction(0))), chord_duration=cd, measures_df=nnsym("measures"), note_onset=at)
            metr = [1, 1, 1]
            if cd:
                a, b = at / cd, dur / cd
                metr = [a, a + b, b]
        if ctx in ("measured", "incomplete"):
            # the note begins at ONSET: measures of 3/4 from 0 on
            mdf = pdm.frame(I, st, data={"mc": list(range(6)), "timesig": ["3/4"] * 6, "act_dur": [Fraction(3, 4)] * 6, "mc_offset": [Fraction(0)] * 6, "next": [1, 2, 3, 4, 5, pdm.NA]})
            on, off = [((3, Fraction(0)), (4, Fraction(1, 4))), ((2, Fraction(1, 2)), (3, Fraction(1, 2))), ((2, Fraction(1, 4)), (4, Fraction(0)))][i % 3]
            t = lambda p: p[0] * Fraction(3, 4) + p[1]  # noqa: E731
            cd = t(off) - t(on)
            kw = dict(chord_onset=Tup(on), chord_offset=Tup(off), chord_duration=cd, measures_df=mdf)
            a, b = (t(ONSET) - t(on)) / cd, dur / cd
            metr = [a, a + b, b]
            if ctx == "incomplete":
                kw.pop(list(kw)[(i // 3) % 4])
                metr = None
        if ctx == "gaps":
            prev, nxt = [(Fraction(1, 8), Fraction(5, 8)), (Fraction(1, 8), None), (None, Fraction(5, 8)), (Fraction(0), Fraction(7, 2))][i % 4]
            kw = {k: v for k, v in dict(dur_from_prev=prev, dur_to_next=nxt).items() if v is not None}
        mn = mx = None
        if ext in ("min", "minmax", "same"):
            lo = m if (i % 2 or ext == "same") else max(0, m - [13, 1, 2, 30][(i // 2) % 4])
            mn = (lo // 12 if lo != m else octave, lo)
            if mn[0] > octave:
                mn = (octave, lo)
            kw["min_pitch"] = Tup(mn)
        if ext in ("minmax", "same", "max"):
            hi = m if ext == "same" or i % 5 == 0 else m + [8, 1, 40][(i // 2) % 3]
            mx = (hi // 12, hi)
            kw["max_pitch"] = Tup(mx)
        o = build_note(I, W, st, pt, pc, octave, ol, fl, dur)
        before = dict(I.cell(st, o).attrs)
        rets, raises = I.run(NT + "Note.to_vec", [o], kw, st=st)
        s = Summary(I, rets, raises)
        got = s.at({})
        exp = expected(W, pt, pc, octave, ol, fl, metr, prev, nxt, mn, mx)
        if got[0] != "ret" or not isinstance(got[1], list):
            if got[0] == "ret":
                raise Undec("not a vector")
            ck.bad("vector", subj, w, f"pitch {pc} octave {octave}: {show(got)}")
            return
        ck.add("length", pt.name, L == ("ret", len(got[1])), loc(I, NT + "get_note_vector_length"), f"declared {show(L)}, the vector has {len(got[1])} elements")
        if not close(got[1], exp):
            j = next((k for k, (a, b) in enumerate(zip(got[1], exp)) if a != b and not (not isinstance(a, V) and a is not None and abs(a - b) < 1e-9)), "end")
            ck.bad("vector", subj, w, f"pitch {pc} octave {octave}: element {j} is {show(got[1][j]) if j != 'end' else len(got[1])}, should be {exp[j] if j != 'end' else len(exp)}")
            return
        ck.ok("vector", subj, w)
        s2 = rets[0][0]
        ck.add("pure", pt.name, I.cell(s2, o).attrs == before, w, "the note is modified while building its vector")
    st = St()
    o = build_note(I, W, st, pt, 1, 1, 1, 1, 1)
    got = summarise(I, NT + "Note.get_vector_length", [o], {}, st=st).at({})
    ck.add("length", "method " + pt.name, got == L, loc(I, NT + "Note.get_vector_length"), f"{show(got)} differs from {show(L)}")


def rng(ck, I, W, pt):
    w = loc(I, NT + "Note.to_vec")
    for octave in range(0, 11):
        st = St()
        o = build_note(I, W, st, pt, 4, octave, 0, 0, 1)
        got = summarise(I, NT + "Note.to_vec", [o], {}, st=st).at({})
        ck.add("range", f"octave {octave}", got[0] == "ret", w, f"a note in octave {octave} has no vector: {show(got)}")
