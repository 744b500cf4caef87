"""C06: pitch content of chords - tones, inversions, bass notes, reductions, type names."""
from .common import *
from .c05 import const_call

T_ = {"P1": 0, "M3": 4, "m3": -3, "P5": 1, "d5": -6, "A5": 8, "M7": 5, "m7": -2, "d7": -9}
TONES = {
    "MAJOR": "P1 M3 P5", "MINOR": "P1 m3 P5", "DIMINISHED": "P1 m3 d5", "AUGMENTED": "P1 M3 A5",
    "MAJ_MAJ7": "P1 M3 P5 M7", "MAJ_MIN7": "P1 M3 P5 m7", "MIN_MAJ7": "P1 m3 P5 M7", "MIN_MIN7": "P1 m3 P5 m7",
    "DIM7": "P1 m3 d5 d7", "HALF_DIM7": "P1 m3 d5 m7", "AUG_MIN7": "P1 M3 A5 m7", "AUG_MAJ7": "P1 M3 A5 M7",
}
NAMES = {"M": "MAJOR", "m": "MINOR", "o": "DIMINISHED", "+": "AUGMENTED", "MM7": "MAJ_MAJ7", "Mm7": "MAJ_MIN7", "mM7": "MIN_MAJ7", "mm7": "MIN_MIN7", "o7": "DIM7", "%7": "HALF_DIM7", "+7": "AUG_MIN7", "+M7": "AUG_MAJ7"}
FIGURES = {"": 0, "7": 0, "6": 1, "65": 1, "64": 2, "43": 2, "2": 3}


def tones(t):
    return [T_[x] for x in TONES[t.name].split()]


def run(ck, I, tier):
    ck.rule("count", "the number of inversions of a chord type is its number of chord tones")
    ck.rule("bass", "the bass of a chord in inversion n is its n-th chord tone above the root, in both pitch types; a TPC bass out of range ends in ValueError")
    ck.rule("vector", "a chord's pitch vector has ones exactly at its chord tones (TPC: those in range, never wrapped around)")
    ck.rule("pure", "transposing a pitch vector leaves the vector it was given unchanged")
    ck.rule("reduction", "each reduction maps every chord type; triad reduction maps it to the triad of its first three tones; a reduced type reduces to itself")
    ck.rule("names", "chord-type names and types are inverse; unknown names end in ValueError; figured bass gives its inversion and unknown figures end in ValueError")
    W = World(I)
    N = W.hc("NUM_PITCHES")
    c = W.hc("C")

    def step(f, pt):
        return f if pt == W.TPC else 7 * f % 12

    for t in W.types:
        if t.name not in TONES:
            continue

        @section(ck, "count", t.name)
        def _():
            got = const_call(I, HU + "get_chord_inversion_count", [t])
            ck.add("count", t.name, got == ("ret", len(tones(t))), loc(I, HU + "get_chord_inversion_count"), f"{show(got)} inversions for {len(tones(t))} tones")

        for pt in W.PT.values():
            subj = f"{t.name} {pt.name}"
            n = N[pt]

            @section(ck, "bass", subj)
            def _():
                for inv, f in enumerate(tones(t)):
                    for mod in (False, True):
                        F = Func(I, HU + "get_bass_note", lambda v: ([t, v["root"], inv, pt], {"modulo": mod}), {"root": (0, n - 1)})

                        def want(p):
                            q = p["root"] + step(f, pt)
                            if pt == W.MIDI:
                                return ("ret", q % 12)
                            return ("ret", q) if 0 <= q < n else ("raise", "ValueError")

                        ck.compare("bass", f"{subj} inversion={inv} modulo={mod}", F, want, loc(I, HU + "get_bass_note"))
                        if mod:
                            F2 = Func(I, HU + "get_bass_note", lambda v: ([t, v["root"], inv + len(tones(t)), pt], {"modulo": True}), {"root": (0, n - 1)})
                            ck.compare("bass", f"{subj} inversion={inv}+{len(tones(t))} modulo", F2, want, loc(I, HU + "get_bass_note"))

            @section(ck, "vector", subj)
            def _():
                w = loc(I, HU + "get_vector_from_chord_type")
                for root in [None] + list(range(n)):
                    args = [t, pt] + ([] if root is None else [root])
                    got = const_call(I, HU + "get_vector_from_chord_type", args)
                    r = c[pt] if root is None else root
                    ones = {(r + step(f, pt)) % n if pt == W.MIDI else r + step(f, pt) for f in tones(t)}
                    exp = [1 if i in ones else 0 for i in range(n)]
                    ck.add("vector", subj, outcome_matches(got, ("ret", exp)), w, f"root {root}: ones at {show([i for i, x in enumerate(got[1]) if x] if got[0] == 'ret' else got)}, should be {sorted(ones)}")

    for pt in W.PT.values():
        @section(ck, "pure", pt.name)
        def _():
            w = loc(I, HU + "transpose_chord_vector")
            n = N[pt]
            for i in range(-n + 1, n):
                st = St()
                from sa.engine import ACell

                vec = I.new(st, ACell([isym(f"x{k}") for k in range(n)]))
                rets, raises = I.run(HU + "transpose_chord_vector", [vec, i, pt], {}, st=st)
                if len(rets) != 1 or raises:
                    raise Undec("outcomes")
                s, v = rets[0]
                env = {f"x{k}": 100 + k for k in range(n)}
                ev = Evalr(I, s, env)
                src = ev(vec)
                out = ev(v)
                exp = [100 + ((k - i) % 12) for k in range(n)] if pt == W.MIDI else [100 + k - i if 0 <= k - i < n else 0 for k in range(n)]
                ck.add("pure", pt.name, src == [100 + k for k in range(n)], w, f"transposing by {i} changes the vector passed in")
                ck.add("vector", f"transpose {pt.name}", out == exp, w, f"by {i}: element k of the result is not element k-{i} of the input")

    @section(ck, "reduction", "tables")
    def _():
        for nm in ("NO_REDUCTION", "TRIAD_REDUCTION", "ALL_ONE_TYPE_REDUCTION"):
            r = W.const("data.data_types." + nm)
            w = f"harmonic_inference/data/data_types.py {nm}"
            ck.add("reduction", nm, set(r) == set(W.types), w, "some chord types are not mapped")
            ck.add("reduction", nm, all(r.get(x) == x for x in set(r.values())), w, "a reduced type does not reduce to itself")
            for t, u in r.items():
                if nm == "NO_REDUCTION":
                    okv = t == u
                elif nm == "TRIAD_REDUCTION":
                    okv = t.name in TONES and u.name in TONES and tones(u) == tones(t)[:3]
                else:
                    okv = u == r[W.types[0]]
                ck.add("reduction", nm, okv, w, f"{t.name} is reduced to {u.name}")

    @section(ck, "names", "types")
    def _():
        w = loc(I, HU + "get_chord_type_from_string")
        for s, tn in NAMES.items():
            got = const_call(I, HU + "get_chord_type_from_string", [s])
            ck.add("names", "types", outcome_matches(got, ("ret", W.CT[tn])), w, f"{s!r} is read as {show(got)}")
            got = const_call(I, HU + "get_chord_string", [W.CT[tn]])
            ck.add("names", "types", got == ("ret", s), loc(I, HU + "get_chord_string"), f"{tn} is written {show(got)}")
        for s, tn in {"It": "DIMINISHED", "Ger": "DIM7", "Fr": "MAJ_MIN7"}.items():
            got = const_call(I, HU + "get_chord_type_from_string", [s])
            ck.add("names", "augmented sixths", outcome_matches(got, ("ret", W.CT[tn])), w, f"{s!r} is read as {show(got)}")
        for s in ("", "X", "maj7", "M7 ", "mmm"):
            got = const_call(I, HU + "get_chord_type_from_string", [s])
            ck.add("names", "unknown types", got == ("raise", "ValueError"), w, f"{s!r} gives {show(got)}")

    @section(ck, "names", "figures")
    def _():
        w = loc(I, HU + "get_chord_inversion")
        for s, n in FIGURES.items():
            got = const_call(I, HU + "get_chord_inversion", [s])
            ck.add("names", "figures", got == ("ret", n), w, f"{s!r} gives {show(got)}, should be {n}")
        ck.add("names", "figures", const_call(I, HU + "get_chord_inversion", [None]) == ("ret", 0), w, "a missing figure is not root position")
        for s in ("8", "5", "66", "9"):
            got = const_call(I, HU + "get_chord_inversion", [s])
            ck.add("names", "unknown figures", got == ("raise", "ValueError"), w, f"{s!r} gives {show(got)}")
