"""C04: pitch arithmetic - transposition, relative pitches and pitch-type conversion."""
from .common import *


def run(ck, I, tier):
    ck.rule("transpose", "transposition adds the interval (MIDI: modulo 12); a TPC result outside the pitch range ends in ValueError")
    ck.rule("relative", "a relative pitch is the distance from the tonic, shifted to start at 0 (MIDI: modulo 12), inside the (padded) interval range; everything else ends in ValueError")
    ck.rule("interval", "a TPC interval's MIDI interval is its number of semitones modulo 12, so that converting pitches and transposing commute")
    ck.rule("convert", "converting a chord, key or note to another pitch type keeps every pitch's sound and every other field, stays in range, and returns a new object without changing the old one")
    ck.rule("midi_number", "a note's MIDI number is 12 * octave + its sounding pitch class, for both pitch types")
    W = World(I)
    N = W.hc("NUM_PITCHES")
    c = W.hc("C")
    for pt in W.PT.values():
        n = N[pt]

        @section(ck, "transpose", pt.name)
        def _():
            F = Func(I, HU + "transpose_pitch", lambda v: ([v["p"], v["i"], pt], {}), {"p": (0, n - 1), "i": (-45, 45)})

            def want(p):
                q = p["p"] + p["i"]
                if pt == W.MIDI:
                    return ("ret", q % 12)
                return ("ret", q) if 0 <= q < n else ("raise", "ValueError")

            ck.compare("transpose", pt.name, F, want, loc(I, HU + "transpose_pitch"))

        for kc in (False, True):
            for pad in (False, True):
                @section(ck, "relative", f"{pt.name} key_change={kc} pad={pad}")
                def _():
                    F = Func(I, HU + "absolute_to_relative", lambda v: ([v["p"], v["t"], pt, kc], {"pad": pad}), {"p": (0, n - 1), "t": (0, n - 1)})
                    lo, hi = (W.hc("MIN_KEY_CHANGE_INTERVAL_TPC"), W.hc("MAX_KEY_CHANGE_INTERVAL_TPC")) if kc else (W.hc("MIN_RELATIVE_TPC"), W.hc("MAX_RELATIVE_TPC"))
                    if pad and not kc:
                        e = W.hc("RELATIVE_TPC_EXTRA")
                        lo, hi = lo - e, hi + e

                    def want(p):
                        d = p["p"] - p["t"]
                        if pt == W.MIDI:
                            return ("ret", d % 12)
                        return ("ret", d - lo) if lo <= d < hi else ("raise", "ValueError")

                    ck.compare("relative", f"{pt.name} key_change={kc} pad={pad}", F, want, loc(I, HU + "absolute_to_relative"))

    @section(ck, "interval", "all")
    def _():
        F = Func(I, HU + "tpc_interval_to_midi_interval", lambda v: ([v["i"]], {}), {"i": (-40, 40)})
        ck.compare("interval", "all", F, lambda p: ("ret", 7 * p["i"] % 12), loc(I, HU + "tpc_interval_to_midi_interval"))

    for cls, dotted, kwf, pitches, tfield, fields in (
        ("Chord", CH + "Chord", chord_kw, ["root", "bass", "key_tonic"], "pitch_type", CHORD_FIELDS),
        ("Key", KY + "Key", key_kw, ["relative_tonic", "local_tonic", "global_tonic"], "tonic_type", KEY_FIELDS),
        ("Note", NT + "Note", note_kw, ["pitch_class"], "pitch_type", NOTE_FIELDS),
    ):
        for src in W.PT.values():
            for dst in W.PT.values():
                @section(ck, "convert", f"{cls} {src.name}->{dst.name}")
                def _():
                    w = loc(I, dotted + ".to_pitch_type")
                    for p in range(N[src]):
                        over = {f: (p + 5 * i) % N[src] for i, f in enumerate(pitches)}
                        over[tfield] = src
                        kw = kwf(W, **over)
                        st = St()
                        o = new_obj(I, dotted, kw, st)
                        rets, raises = I.run(dotted + ".to_pitch_type", [o, dst], {}, st=st)
                        subj = f"{cls} {src.name}->{dst.name}"
                        if not rets and raises:
                            ck.bad("convert", subj, w, f"pitch {p}: raises {raises[0][1].cls}")
                            return
                        if len(rets) != 1:
                            raise Undec("several outcomes")
                        s, v = rets[0]
                        ob = Evalr(I, s, {})(v)
                        if not isinstance(ob, Obj):
                            raise Undec("result is not an object")
                        if v == o:
                            ck.bad("convert", subj, w, "the object itself is returned, not a copy")
                            return
                        old = Evalr(I, s, {})(o)
                        for f in fields:
                            if not val_eq(old.get(f), conc(kw[f])):
                                ck.bad("convert", subj, w, f"converting changes the original object's {f} to {show(old.get(f))}")
                                return
                            g, x = ob.get(f), conc(kw[f])
                            if f == tfield:
                                good = val_eq(g, dst)
                            elif f in pitches and src != dst:
                                if dst == W.MIDI:
                                    good = g == 7 * (x - c[W.TPC]) % 12
                                else:
                                    good = isinstance(g, int) and 0 <= g < N[W.TPC] and 7 * (g - c[W.TPC]) % 12 == x
                            else:
                                good = val_eq(g, x)
                            if not good:
                                ck.bad("convert", subj, w, f"field {f} = {show(x)} becomes {show(g)}")
                                return
                        ck.ok("convert", subj, w, n=len(fields))

    for pt in W.PT.values():
        @section(ck, "midi_number", pt.name)
        def _():
            w = loc(I, NT + "Note.get_midi_note_number")
            for p in range(N[pt]):
                def build(v):
                    st = St()
                    return [new_obj(I, NT + "Note", note_kw(W, pitch_class=p, pitch_type=pt, octave=v["o"]), st)], {}, st

                F = Func(I, NT + "Note.get_midi_note_number", build, {"o": (0, 10)})
                pc = p if pt == W.MIDI else 7 * (p - c[W.TPC]) % 12
                ck.compare("midi_number", pt.name, F, lambda q: ("ret", 12 * q["o"] + pc), w)
