"""C05: scale degrees, numerals and applied (relative) keys."""
from .common import *

MAJ = [0, 2, 4, -1, 1, 3, 5]  # fifths of degrees 1..7
MIN = [0, 2, -3, -1, 1, -4, -2]
ROMAN = ["I", "II", "III", "IV", "V", "VI", "VII"]


def fifths(mode, degree, acc):
    return (MAJ if mode.name == "MAJOR" else MIN)[degree - 1] + 7 * acc


def run(ck, I, tier):
    ck.rule("degree", "a scale degree (roman of either case or arabic, with accidentals before or after) is the interval of that degree of the major or natural minor scale, raised or lowered by its accidentals")
    ck.rule("inverse", "naming an interval as a scale degree and reading the name back gives the same interval")
    ck.rule("relative_key", "an applied key written as a chain of numerals is resolved from the last numeral to the first, each in the mode of the one before, ending in the right tonic and mode, or in ValueError outside the pitch range")
    W = World(I)
    accs = [("b", -2), ("b", -1), ("", 0), ("#", 1), ("#", 2)]
    w = loc(I, HU + "get_interval_from_scale_degree")
    for pt in W.PT.values():
        for mode in W.KM.values():
            subj = f"{pt.name} {mode.name}"

            @section(ck, "degree", subj, w)
            def _():
                for d in range(1, 8):
                    for a, k in accs:
                        for body in (ROMAN[d - 1], ROMAN[d - 1].lower(), str(d)):
                            for front in (True, False):
                                s = a * abs(k) + body if front else body + a * abs(k)
                                got = const_call(I, HU + "get_interval_from_scale_degree", [s, front, mode, pt])
                                exp = want_int(W, pt, fifths(mode, d, k))
                                ck.add("degree", subj, got[0] == "ret" and exp(got[1]), w, f"{s!r} gives {show(got)}, should be {exp.__doc__}")
                            if body[0] in "IViv":
                                s = a * abs(k) + body
                                got = const_call(I, HU + "get_interval_from_numeral", [s, mode, pt])
                                ck.add("degree", "numeral " + subj, got[0] == "ret" and exp(got[1]), loc(I, HU + "get_interval_from_numeral"), f"{s!r} gives {show(got)}, should be {exp.__doc__}")

            @section(ck, "inverse", subj)
            def _():
                w2 = loc(I, HU + "get_scale_degree_from_interval")
                for i in range(-29, 30):
                    got = const_call(I, HU + "get_scale_degree_from_interval", [i, mode, pt])
                    okv = False
                    if got[0] == "ret" and isinstance(got[1], str):
                        k, body = strip_acc(got[1])
                        if body.upper() in ROMAN:
                            f = fifths(mode, ROMAN.index(body.upper()) + 1, k)
                            okv = f == i if pt == W.TPC else 7 * f % 12 == i % 12
                        # readable: accidentals of one kind only (the documentation: sharps for MIDI)
                        okv = okv and not ("#" in got[1] and "b" in got[1]) and (pt == W.TPC or "b" not in got[1])
                    ck.add("inverse", subj, okv, w2, f"interval {i} is named {show(got)}")

            @section(ck, "relative_key", subj)
            def _():
                w3 = loc(I, HU + "decode_relative_keys")
                chains = ["I", "V", "vi", "bIII", "#iv", "V/V", "ii/V", "V/ii", "vii/V", "bII/vi", "VII/ii", "V/V/V", "iv/bVI/ii", "III/iv", "i/V/vi", "VI/#vii"]
                for ch in chains:
                    for tonic in ((0, 7, 15, 22, 34) if pt == W.TPC else (0, 5, 11)):
                        got = const_call(I, HU + "decode_relative_keys", [ch, tonic, mode, pt])
                        exp = resolve(W, ch, tonic, mode, pt)
                        ck.add("relative_key", subj, outcome_matches(got, exp), w3, f"{ch!r} from tonic {tonic}: {show(got)}, should be {show(exp)}")


def const_call(I, fn, args, kw=None):
    return summarise(I, fn, args, kw or {}).at({})


def strip_acc(s):
    k = 0
    while s and s[0] in "#b":
        k += 1 if s[0] == "#" else -1
        s = s[1:]
    return k, s


def want_int(W, pt, f):
    if pt == W.TPC:
        def ok(x):
            return x == f
        ok.__doc__ = str(f)
    else:
        def ok(x):
            return isinstance(x, int) and x % 12 == 7 * f % 12
        ok.__doc__ = f"{7 * f % 12} modulo 12"
    return ok


def resolve(W, chain, tonic, mode, pt):
    for part in reversed(chain.split("/")):
        k, body = strip_acc(part)
        f = fifths(mode, ROMAN.index(body.upper()) + 1, k)
        if pt == W.TPC:
            tonic += f
            if not 0 <= tonic < W.hc("NUM_PITCHES")[pt]:
                return ("raise", "ValueError")
        else:
            tonic = (tonic + 7 * f) % 12
        mode = W.KM["MINOR"] if body[-1].islower() else W.KM["MAJOR"]
    return ("ret", (tonic, mode))
