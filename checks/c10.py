"""C10: musical time - range lengths, positions within a range, metrical levels."""
import itertools
from fractions import Fraction

from sa import pdm

from .common import *


def fr(n):
    return T("sym", n, "frac")


PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43]


def generic(names, k):
    """a generic rational point (no coincidental linear relations)"""
    return {n: Fraction(PRIMES[(i * 3 + k) % len(PRIMES)] ** 2 + i, PRIMES[(i * 5 + k + 1) % len(PRIMES)]) for i, n in enumerate(names)}


# mc chains: list of mcs in played order, and the row order in the frame
CHAINS = [
    ("in order", [3, 4, 5, 6], [3, 4, 5, 6]),
    ("skipped measures", [2, 4, 9, 10], [2, 3, 4, 9, 10, 11]),
    ("rows out of order", [3, 4, 5], [5, 3, 4]),
    ("starting at 0", [0, 1, 2], [0, 1, 2]),
]


def measures(I, st, chain, rows, sig="4/4", na=None):
    nxt = dict(zip(chain, chain[1:]))
    rest = [r for r in rows if r not in chain]
    for r in rest:
        nxt[r] = next((c for c in chain if c > r), na)
    return pdm.frame(
        I, st,
        data={
            "mc": rows,
            "mn": [r + 1 for r in rows],
            "timesig": [sig] * len(rows),
            "act_dur": [fr(f"d{r}") for r in rows],
            "mc_offset": [fr(f"o{r}") for r in rows],
            "next": [nxt.get(r, na) for r in rows],
        },
    )


def names(rows):
    return [f"d{r}" for r in rows] + [f"o{r}" for r in rows] + ["x", "y", "dur", "n", "len"]


def span(chain, a, x, b, y, env):
    """signed duration from beat x of measure a to beat y of measure b"""
    if (chain.index(a), x) > (chain.index(b), y):
        return -span(chain, b, y, a, x, env)
    i, j = chain.index(a), chain.index(b)
    if i == j:
        return y - x
    tot = env[f"d{a}"] + env[f"o{a}"] - x
    for m in chain[i + 1 : j]:
        tot += env[f"d{m}"]
    return tot + y - env[f"o{b}"]


def run(ck, I, tier):
    ck.rule("range", "the length of a range is the sum of the measure lengths along the playing order between its ends, negated when the ends are swapped, for every measure length, measure offset and beat")
    ck.rule("proportion", "a note's onset, offset and duration in a range are its distance from the range start, that plus its length, and its length, all divided by the range's length, whichever end is nearer")
    ck.rule("lengths", "a time signature's measure, beat and sub-beat lengths: compound (more than 3 and divisible by 3) beats are three sub-beats, simple beats are two")
    ck.rule("level", "metrical level: 3 on downbeats, 2 on beats, 1 on sub-beats, 0 otherwise, by the measure's own time signature")
    W = World(I)
    for nm, chain, rows in CHAINS:
        section(ck, "range", nm)(lambda: ranges(ck, I, W, nm, chain, rows))
        section(ck, "proportion", nm)(lambda: proportions(ck, I, W, nm, chain, rows))
    section(ck, "lengths", "all time signatures")(lambda: lengths(ck, I, W))
    section(ck, "level", "all time signatures")(lambda: levels(ck, I, W, tier))


def agree(ck, rule, subj, s, w, expect, syms, what, pts=3):
    envs = [generic(syms, k) for k in range(pts)]
    for e in list(envs[:1]):
        envs.append({**e, "x": e["y"], "y": e["x"]})
        envs.append({**e, "x": e["y"]})
        envs.append({**e, "x": e["y"], "n": e["y"]})
        envs.append({a: Fraction(0) if a[0] in "oxn" else b for a, b in e.items()})
        envs.append({a: Fraction(0) if a[0] in "xyn" or a == "dur" else b for a, b in e.items()})
        envs.append({a: Fraction(1) if a[0] == "d" else Fraction(0) if a[0] == "o" else Fraction(1, 4) for a, b in e.items()})
    for env in envs:
        try:
            exp = expect(env)
        except ZeroDivisionError:
            continue
        got = s.at(env)
        if got[0] != "ret" or not near(got[1], exp):
            return ck.bad(rule, subj, w, f"{what}: at {show({a: str(b) for a, b in env.items()})} gives {show(got)}, required {show(exp)}")
    return ck.ok(rule, subj, w, n=len(envs))


def near(a, b):
    if isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, V) or a is None or isinstance(a, (str, list, tuple)):
        return False
    return a == b or abs(a - b) < 1e-9


def ranges(ck, I, W, nm, chain, rows):
    w = loc(I, RU + "get_range_length")
    for a, b in itertools.product(chain, repeat=2):
        st = St()
        m = measures(I, st, chain, rows)
        s = summarise(I, RU + "get_range_length", [Tup((a, fr("x"))), Tup((b, fr("y"))), m], {}, st=st)
        agree(ck, "range", f"{nm}", s, w, lambda env: span(chain, a, env["x"], b, env["y"], env), names(rows), f"from measure {a} to measure {b}")


def proportions(ck, I, W, nm, chain, rows):
    w = loc(I, RU + "get_rhythmic_info_as_proportion_of_range")
    for a, b in itertools.combinations_with_replacement(chain, 2):
        for n in chain:
            for given in (False, True):
                if given and a == b:
                    continue
                st = St()
                m = measures(I, st, chain, rows)
                row = pdm.series(I, st, ["mc", "mn_onset", "duration"], [n, fr("n"), fr("dur")])
                kw = {}
                if given:
                    # the length the caller already knows is the range's length
                    ln = summarise(I, RU + "get_range_length", [Tup((a, fr("x"))), Tup((b, fr("y"))), m], {}, st=st.copy())
                    if len(ln.rets) != 1 or ln.raises or ln.rets[0][0].facts:
                        raise Undec("range length has no single closed form")
                    kw["range_len"] = ln.rets[0][1]
                s = summarise(I, RU + "get_rhythmic_info_as_proportion_of_range", [row, Tup((a, fr("x"))), Tup((b, fr("y"))), m], kw, st=st)

                def exp(env):
                    L = span(chain, a, env["x"], b, env["y"], env)
                    on = span(chain, a, env["x"], n, env["n"], env) / L
                    d = env["dur"] / L
                    return (on, on + d, d)

                agree(ck, "proportion", f"{nm} {'given' if given else 'computed'} length", s, w, exp, names(rows), f"range {a}..{b}, note in {n}", 2)


def meter(n, d):
    if n > 3 and n % 3 == 0:
        return Fraction(n, d), Fraction(3, d), Fraction(1, d)
    return Fraction(n, d), Fraction(1, d), Fraction(1, 2 * d)


def lengths(ck, I, W):
    w = loc(I, RU + "get_metrical_level_lengths")
    for n in range(1, 25):
        for d in (1, 2, 4, 8, 16, 32):
            got = summarise(I, RU + "get_metrical_level_lengths", [f"{n}/{d}"], {}).at({})
            exp = meter(n, d)
            ck.add("lengths", f"/{d}", got[0] == "ret" and near(got[1], exp), w, f"{n}/{d}: {show(got)}, required {exp}")


def levels(ck, I, W, tier):
    w = loc(I, RU + "get_metrical_level")
    sigs = [(2, 4), (3, 4), (4, 4), (6, 8), (9, 8), (12, 8), (3, 8), (2, 2), (5, 4), (6, 4), (1, 4), (7, 8)]
    for n, d in sigs:
        st = St()
        row = pdm.series(I, st, ["mc", "timesig", "act_dur", "mc_offset"], [1, f"{n}/{d}", Fraction(1, 16), Fraction(n, d) - Fraction(1, 16)])
        s = summarise(I, RU + "get_metrical_level", [fr("beat"), row], {}, st=st)
        M, B, S = meter(n, d)
        bad = None
        for k in range(0, 2 * 96 * n // d + 2):
            beat = Fraction(k, 96)
            exp = 3 if beat % M == 0 else 2 if beat % B == 0 else 1 if beat % S == 0 else 0
            got = s.at({"beat": beat})
            if got != ("ret", exp):
                bad = f"beat {beat} of {n}/{d}: {show(got)}, required {exp}"
                break
        ck.add("level", f"{n}/{d}", bad is None, w, bad or "", n=k + 1)
