"""C22: forced labels written into a score - reading them and finding their notes."""
from fractions import Fraction

from sa import pdm

from .c18 import read, run_one
from .c20 import TONES, kvocabulary, remember, vocabulary
from .common import *

FO = PKG + "utils.forces."
F = Fraction
KINDS = ["chord changes", "chord non-changes", "key changes", "key non-changes", "chords", "keys"]
LETTERS = {"F": 0, "C": 1, "G": 2, "D": 3, "A": 4, "E": 5, "B": 6}
NAMES = {"M": "MAJOR", "m": "MINOR", "o": "DIMINISHED", "+": "AUGMENTED", "MM7": "MAJ_MAJ7", "Mm7": "MAJ_MIN7", "mM7": "MIN_MAJ7", "mm7": "MIN_MIN7", "o7": "DIM7", "%7": "HALF_DIM7", "+7": "AUG_MIN7", "+M7": "AUG_MAJ7"}


def pitch(name):
    return 14 + LETTERS[name[0].upper()] + 7 * (name[1:].count("#") - name[1:].count("b"))


def run(ck, I, tier):
    ck.rule("labels", "of the labels and lyrics of a score, !C, =C, !K and =K mark changes and non-changes, C=<root><type>[_<inversion>] a chord (root position if no inversion is given), K=<tonic> a key (lower case: minor), each at its measure and onset; others nothing")
    ck.rule("indexes", "a position becomes the index of the first note with exactly that onset, keeping the label; a position at which no note begins is rejected")
    I.max_budget = 20000000
    W = World(I)
    remember(I, W)
    fn = FO + "extract_forces_from_musescore"
    w = loc(I, fn)
    roots = ["C", "F#", "Bb", "eb", "b", "bb", "d", "G##", "Abb", "a#", "A", "B"]
    types = list(NAMES)
    chords = []
    for i, t in enumerate(types):
        n = len(TONES[NAMES[t]])
        for k, inv in enumerate([None] + list(range(n))):
            chords.append((roots[(5 * i + k) % len(roots)], t, inv))
    if tier == "quick":
        pass
    else:
        chords = [(r, t, inv) for r in roots for t in types for inv in [None] + list(range(len(TONES[NAMES[t]])))]
    clab = lambda r, t, i: f"C={r}{t}" + ("" if i is None else f"_{i}")  # noqa: E731
    keys = ["C", "c", "F#", "f#", "Bb", "bb", "b", "B", "ab", "D##", "eb", "G", "cb", "A", "d"]

    def case(name, labels, lyrics):
        @section(ck, "labels", name, w)
        def _():
            st = St()
            at = [(1 + i // 3, F(i % 3, 4)) for i in range(len(labels))]
            lat = [(1 + i // 2, F(1 + i % 2, 8)) for i in range(len(lyrics))]
            a = pdm.frame(I, st, data={"mc": [m for m, _ in at], "mn_onset": [o for _, o in at], "label": list(labels), "staff": [1] * len(at)})
            b = pdm.frame(I, st, data={"mc": [m for m, _ in lat], "mn_onset": [o for _, o in lat], "lyrics": [float("nan") if x is None else x for x in lyrics], "voice": [2] * len(lat)})
            s = new_obj(I, "vdata.MScore", {}, st, [a, b])
            I.hooks["ms3.Score"] = lambda I, a, kw, st, n: s
            try:
                st, v = run_one(I, fn, ["score.mscx"], {}, st)
            finally:
                I.hooks.pop("ms3.Score", None)
            got = read(I, st, v)
            if not isinstance(got, list) or len(got) != 6:
                raise Undec(show(got)[:200])
            voc, kvoc = vocabulary(I, W, W.TPC), kvocabulary(I, W, W.TPC)
            want = [[] for _ in KINDS]
            for p, x in [*zip(at, labels), *zip(lat, lyrics)]:
                if x is None:
                    continue
                if x in ("!C", "=C", "!K", "=K"):
                    want[["!C", "=C", "!K", "=K"].index(x)].append(list(p))
                elif x[:2] == "C=":
                    r, t, inv = next(c for c in chords if clab(*c) == x)
                    want[4].append([*p, voc.index((pitch(r), W.CT[NAMES[t]], inv or 0))])
                elif x[:2] == "K=":
                    want[5].append([*p, kvoc.index((pitch(x[2:]), W.KM["MAJOR" if x[2].isupper() else "MINOR"]))])
            for k, g, e in zip(KINDS, got, want):
                if not isinstance(g, list):
                    ck.bad("labels", f"{name}: {k}", w, f"{k}: a {type(g).__name__.strip('_').lower()} instead of a list")
                    continue
                ok = g == e
                d = ""
                if not ok:
                    m = [x for x in e if x not in (g or [])]
                    o = [x for x in (g or []) if x not in e]
                    d = f"{k}: missing {show(m[:3])}, not labelled {show(o[:3])}" if m or o else f"{k}: {show(g)[:200]}, required {show(e)[:200]}"
                ck.add("labels", f"{name}: {k}", ok, w, d, n=max(1, len(e)))

    cl = [clab(*c) for c in chords]
    case("changes", ["!C", "=C", "!K", "=K", "!C", "=K"], ["=K", None, "=C", "!K", None, "!C"])
    case("chords", cl[: len(cl) // 2], [x for y in cl[len(cl) // 2 :] for x in (y, None)])
    case("keys", ["K=" + k for k in keys[:8]], ["K=" + k for k in keys[8:]])
    case("other labels", ["I", "V7/V", "!C", "", "K"], ["la", None, "=C", "C", cl[3]])
    case("chords with everything else", [cl[5], "K=d", "!K", cl[7]], ["=C", cl[11], "!C", "K=bb", None])
    case("no labels", [], [None, "!C"])
    case("no lyrics", ["!C", "=K"], [None])

    fn2 = FO + "convert_score_positions_to_note_indexes"

    def notes(st, onsets):
        ns = [new_obj(I, NT + "Note", note_kw(W, onset=Tup(o), offset=Tup((o[0] + 1, F(0)))), st) for o in onsets]
        e = LIST(I, st, [])
        return new_obj(I, "vdata.Part", {}, st, [LIST(I, st, ns), e, e, e, e, e, e])

    onsets = [(0, F(1, 2)), (0, F(1, 2)), (0, F(3, 4)), (1, F(0)), (1, F(1, 4)), (1, F(1, 4)), (1, F(1, 4)), (3, F(0)), (3, F(7, 8))]
    for first in range(len(onsets)):
        use = onsets[first:]

        @section(ck, "indexes", f"{len(use)} notes", loc(I, fn2))
        def _():
            st = St()
            piece = notes(st, use)
            pos = sorted(set(use), reverse=first % 2 == 0)
            for label in (None, 5):
                fs = [p if label is None else (*p, label + i) for i, p in enumerate(pos)]
                st, v = run_one(I, fn2, [LIST(I, st, [Tup(f) for f in fs]), piece], {}, st)
                got = read(I, st, v)
                want = [use.index(f[:2]) if label is None else [use.index(f[:2]), f[2]] for f in fs]
                ck.add("indexes", f"{len(use)} notes, {'positions' if label is None else 'labels'}", got == want, loc(I, fn2), f"positions {show(fs)} become {show(got)}, required {show(want)}")
            gaps = [(0, F(0)), (0, F(5, 8)), (1, F(1, 8)), (2, F(0)), (3, F(1, 2)), (3, F(15, 16)), (4, F(0))]
            for g in gaps:
                for extra in ((), (3,)):
                    s = summarise(I, fn2, [LIST(I, st, [Tup((*g, *extra))]), piece], {}, st=st)
                    _, (kind, v) = s.step({})
                    ck.add("indexes", f"{len(use)} notes, no note at {g[0]}+{g[1]} {'label' if extra else ''}", kind == "raise" and v.cls == "ValueError", loc(I, fn2), f"position {show(g)} where no note begins: {show(v) if kind != 'raise' else v.cls}, required ValueError")

    @section(ck, "indexes", "none", loc(I, fn2))
    def _():
        st = St()
        st, v = run_one(I, fn2, [LIST(I, st, []), notes(st, onsets)], {}, st)
        ck.add("indexes", "none", read(I, st, v) == [], loc(I, fn2), f"no forces become {show(read(I, st, v))}")
