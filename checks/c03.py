"""C03: pitch spelling - names and pitches are inverse, accidentals move by the right amount."""
from .common import *

LETTERS = "FCGDAEB"
SEMI = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}


def fifths(name):
    """position on the line of fifths with C natural = 0"""
    return LETTERS.index(name[0].upper()) - 1 + 7 * (name[1:].count("#") - name[1:].count("b"))


def semis(name):
    return (SEMI[name[0].upper()] + name[1:].count("#") - name[1:].count("b")) % 12


def run(ck, I, tier):
    ck.rule("name", "the name of every pitch spells exactly that pitch (letter on the line of fifths plus accidentals; every alternative of an enharmonic name)")
    ck.rule("parse", "a note name (either case, any accidentals) is read as the pitch it spells; TPC names outside the pitch range end in ValueError")
    ck.rule("roundtrip", "reading a pitch's name in the same pitch type gives the pitch back; reading a TPC name as MIDI gives its sounding pitch class")
    ck.rule("accidentals", "counting accidentals removes exactly the leading or trailing accidentals, flats negative and sharps positive")
    W = World(I)
    N = W.hc("NUM_PITCHES")
    c = W.hc("C")[W.TPC]
    w_s, w_p, w_a = (loc(I, HU + x) for x in ("get_pitch_string", "get_pitch_from_string", "get_accidental_adjustment"))

    @section(ck, "name", "TPC", w_s)
    def _():
        F = Func(I, HU + "get_pitch_string", lambda v: ([v["p"], W.TPC], {}), {"p": (0, N[W.TPC] - 1)})
        for p in range(N[W.TPC]):
            got = F.at({"p": p})
            good = got[0] == "ret" and isinstance(got[1], str) and wellformed(got[1]) and fifths(got[1]) == p - c
            ck.add("name", "TPC", good, w_s, f"pitch {p} is called {show(got)}")
            if good:
                s = got[1]
                for pt in W.PT.values():
                    b = Func(I, HU + "get_pitch_from_string", lambda v: ([s, pt], {}), {"x": [0]}).at({"x": 0})
                    exp = ("ret", p) if pt == W.TPC else ("ret", 7 * (p - c) % 12)
                    ck.add("roundtrip", f"TPC name read as {pt.name}", b == exp, w_p, f"{s!r} (pitch {p}) is read as {show(b)}, should be {show(exp)}")

    @section(ck, "name", "MIDI", w_s)
    def _():
        F = Func(I, HU + "get_pitch_string", lambda v: ([v["p"], W.MIDI], {}), {"p": (-12, 130)})
        for p in range(-12, 131):
            got = F.at({"p": p})
            good = got[0] == "ret" and isinstance(got[1], str) and all(wellformed(x) and semis(x) == p % 12 for x in got[1].split("/"))
            ck.add("name", "MIDI", good, w_s, f"pitch {p} is called {show(got)}")
            if good and 0 <= p < 12:
                s = got[1]
                for pt in W.PT.values():
                    b = Func(I, HU + "get_pitch_from_string", lambda v: ([s, pt], {}), {"x": [0]}).at({"x": 0})
                    if pt == W.MIDI:
                        okv = b == ("ret", p)
                    else:
                        okv = b[0] == "ret" and isinstance(b[1], int) and 0 <= b[1] < N[W.TPC] and 7 * (b[1] - c) % 12 == p
                    ck.add("roundtrip", f"MIDI name read as {pt.name}", okv, w_p, f"{s!r} (pitch {p}) is read as {show(b)}")

    for pt in W.PT.values():
        @section(ck, "parse", pt.name, w_p)
        def _():
            names = [l + a * k for l in "ABCDEFGabcdefg" for a in "#b" for k in range(0, 5)]
            for s in names:
                got = Func(I, HU + "get_pitch_from_string", lambda v: ([s, pt], {}), {"x": [0]}).at({"x": 0})
                if pt == W.MIDI:
                    exp = ("ret", semis(s))
                else:
                    q = c + fifths(s)
                    exp = ("ret", q) if 0 <= q < N[W.TPC] else ("raise", "ValueError")
                ck.add("parse", pt.name, outcome_matches(got, exp), w_p, f"{s!r} is read as {show(got)}, should be {show(exp)}")

    @section(ck, "accidentals", "both sides", w_a)
    def _():
        bodies = ["I", "IV", "vii", "5", "7", "C", "b", "g", "A"]
        for body in bodies:
            for k in range(0, 4):
                for a in "#b":
                    for front in (True, False):
                        if body == "b" and a == "b" and front and k == 0:
                            continue
                        s = a * k + body if front else body + a * k
                        if front and body == "b":
                            # a flat sign in front of the letter b cannot be told apart
                            continue
                        got = Func(I, HU + "get_accidental_adjustment", lambda v: ([s], {"in_front": front}), {"x": [0]}).at({"x": 0})
                        exp = ("ret", ((1 if a == "#" else -1) * k, body))
                        ck.add("accidentals", "front" if front else "back", outcome_matches(got, exp), w_a, f"{s!r}: {show(got)}, should be {show(exp)}")


def wellformed(x):
    return len(x) > 0 and x[0] in "ABCDEFG" and set(x[1:]) <= set("#b") and len(set(x[1:])) <= 1
