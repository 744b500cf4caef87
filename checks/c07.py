"""C07: chord feature vectors - layout, length, values, decoding."""
import itertools

from .common import *
from .c05 import const_call


def expected(W, kw, tonic, mode, pad, red):
    """the documented layout; None when root or bass lies outside the interval range"""
    pt = kw["pitch_type"]
    if pt == W.MIDI:
        lo, n = 0, W.hc("NUM_PITCHES")[pt]
    else:
        lo, hi, e = W.hc("MIN_RELATIVE_TPC"), W.hc("MAX_RELATIVE_TPC"), W.hc("RELATIVE_TPC_EXTRA") if pad else 0
        lo, n = lo - e, hi - lo + 2 * e

    def rel(p):
        d = p - tonic
        return d % 12 if pt == W.MIDI else d - lo

    def hot(i, k):
        return [1 if j == i else 0 for j in range(k)]

    r, b = rel(kw["root"]), rel(kw["bass"])
    if not (0 <= r < n and 0 <= b < n):
        return None
    t = red[kw["chord_type"]] if red else kw["chord_type"]
    return (
        hot(r, n) + hot(t.value, len(W.types)) + hot(b, n) + hot(kw["inversion"], 4) + hot(kw["onset_level"], 4)
        + hot(kw["offset_level"], 4) + [float(kw["duration"])] + [1 if mode == W.KM["MAJOR"] else 0]
    )


def run(ck, I, tier):
    ck.rule("vector", "a chord's vector is: relative root one-hot, chord type one-hot (reduced), relative bass one-hot, inversion, onset and offset level one-hots, duration, major flag - relative to its own or the given key; root or bass out of range ends in ValueError")
    ck.rule("length", "the declared vector length equals the length of the vector, for every pitch type and padding")
    ck.rule("offsets", "the published start positions of the chord-type and inversion parts, and the pitch type inferred from a length, match the layout")
    ck.rule("decode", "decoding a chord's vector gives back its relative root and bass, type, inversion, levels and mode")
    ck.rule("pure", "building a vector changes neither the chord nor the key")
    W = World(I)
    reds = reductions(W)
    for pt, pad in itertools.product(W.PT.values(), (False, True)):
        for rname in ("default", "TRIAD_REDUCTION", "mixed"):
            for key in (False, True):
                subj = f"{pt.name} pad={pad} reduction={rname} key={'given' if key else 'own'}"
                section(ck, "vector", subj)(lambda: vec(ck, I, W, pt, pad, reds.get(rname), key, subj, tier))
        section(ck, "decode", f"{pt.name} pad={pad}")(lambda: dec(ck, I, W, pt, pad))
        section(ck, "offsets", f"{pt.name} pad={pad}")(lambda: offs(ck, I, W, pt, pad))


def points(n, tier):
    st = 5 if tier == "quick" else 2
    pts = [(r, b, k) for r in range(0, n, st) for b in range(0, n, st + 2) for k in range(0, n, st + 1)]
    edges = sorted({0, n - 1, 14, 15, 16, 18, 19, 20, 21} & set(range(n)))
    pts += [(r, b, k) for r in edges for b in edges for k in (0, n - 1, n // 2)]
    return pts


def vec(ck, I, W, pt, pad, red, key, subj, tier):
    w = loc(I, CH + "Chord.to_vec")
    n = W.hc("NUM_PITCHES")[pt]
    others = list(itertools.product(W.types, range(4), range(4), range(4), W.KM.values()))
    combos = others[:: len(others) // (24 if tier == "quick" else 120) | 1]  # an odd stride, so that every factor varies
    durs = [F_(7, 8), F_(6), F_(1, 16), F_(33, 2), F_(0), F_(3, 8)]
    pts = points(n, tier)
    L = summarise(I, CH + "get_chord_vector_length", [pt], dict(one_hot=False, pad=pad, relative=True)).at({})
    for ci, (t, inv, ol, fl, km) in enumerate(combos):
        other = [x for x in W.KM.values() if x != km][0]

        def build(v):
            st = St()
            kw = chord_kw(W, root=v["r"], bass=v["b"], key_tonic=v["k"] if not key else 3, key_mode=km if not key else other, chord_type=t, inversion=inv, onset_level=ol, offset_level=fl, duration=durs[ci % len(durs)], pitch_type=pt)
            o = new_obj(I, CH + "Chord", kw, st)
            k = dict(pad=pad)
            if key:
                k["relative_to"] = new_obj(I, KY + "Key", key_kw(W, relative_tonic=v["k"], local_tonic=1, global_tonic=2, relative_mode=km, local_mode=other, global_mode=other, tonic_type=pt), st)
            if red:
                k["reduction"] = DICT(I, st, red)
            return [o], k, st

        F = Func(I, CH + "Chord.to_vec", build, {"r": (0, n - 1), "b": (0, n - 1), "k": (0, n - 1)})

        def want(p):
            kw = chord_kw(W, root=p["r"], bass=p["b"], chord_type=t, inversion=inv, onset_level=ol, offset_level=fl, duration=durs[ci % len(durs)], pitch_type=pt)
            e = expected(W, kw, p["k"], km, pad, red)
            return ("raise", "ValueError") if e is None else ("ret", e)

        mine = [dict(r=a, b=b, k=c) for i, (a, b, c) in enumerate(pts) if i % len(combos) == ci]
        if not ck.compare("vector", subj, F, want, w, mine):
            return
        if F.summ and ci == 0:
            for s, v in F.summ.rets:
                cell = I.cell(s, v)
                if cell is not None and cell.kind == "arr":
                    ck.add("length", subj, L == ("ret", len(cell.cells)), loc(I, CH + "get_chord_vector_length"), f"declared {show(L)}, the vector has {len(cell.cells)} elements")
    st = St()
    o = new_obj(I, CH + "Chord", chord_kw(W, root=1, bass=2, key_tonic=3, pitch_type=pt), st)
    got = summarise(I, CH + "Chord.get_chord_vector_length", [o], dict(one_hot=False, pad=pad, relative=True), st=st).at({})
    ck.add("length", "method " + subj, got == L, loc(I, CH + "Chord.get_chord_vector_length"), f"{show(got)} differs from {show(L)}")
    # purity
    a, k, st = build(dict(r=4, b=5, k=3))
    before = {r: st.heap[r] for r in st.heap}
    rets, raises = I.run(CH + "Chord.to_vec", a, k, st=st)
    for s, v in rets:
        for r, c in before.items():
            if c.kind == "obj" and s.heap.get(r) is not c and s.heap[r].attrs != c.attrs:
                ck.bad("pure", subj, w, f"{c.cls.name} object is modified while building a vector")
                return
    ck.ok("pure", subj, w)


def offs(ck, I, W, pt, pad):
    L = summarise(I, CH + "get_chord_vector_length", [pt], dict(one_hot=False, pad=pad)).at({})
    if L[0] != "ret":
        raise Undec("length")
    n = len(W.types)
    np_ = (L[1] - n - 14) // 2
    for explicit in (True, False):
        k = dict(pitch_type=pt) if explicit else {}
        if not explicit and sum(summarise(I, CH + "get_chord_vector_length", [x], dict(one_hot=False, pad=pad)).at({}) == L for x in W.PT.values()) > 1:
            continue
        got = summarise(I, VD + "get_chord_vector_chord_type_index", [L[1], pad], k).at({})
        ck.add("offsets", f"type {pt.name} pad={pad}", got == ("ret", np_), loc(I, VD + "get_chord_vector_chord_type_index"), f"{show(got)}, the layout has it at {np_}")
        got = summarise(I, VD + "get_chord_vector_inversion_index", [L[1], pad], k).at({})
        ck.add("offsets", f"inversion {pt.name} pad={pad}", got == ("ret", 2 * np_ + n), loc(I, VD + "get_chord_vector_inversion_index"), f"{show(got)}, the layout has it at {2 * np_ + n}")
    got = summarise(I, VD + "infer_chord_vector_pitch_type", [L[1], pad], {}).at({})
    ck.add("offsets", f"infer {pt.name} pad={pad}", outcome_matches(got, ("ret", pt)), loc(I, VD + "infer_chord_vector_pitch_type"), f"{show(got)} inferred from the length of a {pt.name} vector")
    bad = max(L[1] + 1, 300)
    got = summarise(I, VD + "infer_chord_vector_pitch_type", [bad, pad], {}).at({})
    ck.add("offsets", f"infer unknown pad={pad}", got == ("raise", "ValueError"), loc(I, VD + "infer_chord_vector_pitch_type"), f"{show(got)} inferred from an impossible length")


def dec(ck, I, W, pt, pad):
    w = loc(I, VD + "decode_chord_vector")
    n = W.hc("NUM_PITCHES")[pt]
    cases = []
    for i, (t, inv) in enumerate(itertools.product(W.types, range(4))):
        cases.append(dict(root=(3 * i + 11) % n, bass=(5 * i + 13) % n, chord_type=t, inversion=inv, onset_level=i % 4, offset_level=(i // 2) % 4, key_mode=list(W.KM.values())[(i // 3) % 2], key_tonic=(i + 9) % n))
    done = 0
    for cs in cases:
        for explicit in (True, False):
            st = St()
            kw = chord_kw(W, pitch_type=pt, duration=F_(3, 8), **cs)
            e = expected(W, kw, cs["key_tonic"], cs["key_mode"], pad, None)
            if e is None:
                continue
            from sa.engine import ACell

            vecr = I.new(st, ACell(e))
            k = dict(pad=pad)
            if explicit:
                k["pitch_type"] = pt
            got = summarise(I, VD + "decode_chord_vector", [vecr], k, st=st).at({})
            if got[0] != "ret":
                ck.bad("decode", f"{pt.name} pad={pad}", w, f"decoding ends in {show(got)}")
                return
            o = got[1]
            if not isinstance(o, Obj):
                raise Undec("not an object")
            d = lambda p: (p - cs["key_tonic"]) % 12 if pt == W.MIDI else p - cs["key_tonic"]
            exp = dict(root=d(cs["root"]), bass=d(cs["bass"]), chord_type=cs["chord_type"], inversion=cs["inversion"], onset_level=cs["onset_level"], offset_level=cs["offset_level"], key_mode=cs["key_mode"], pitch_type=pt)
            for f, x in exp.items():
                g = o.get(f)
                if not val_eq(g, x):
                    ck.bad("decode", f"{pt.name} pad={pad}", w, f"{f} {show(x)} is decoded as {show(g)}")
                    return
                done += 1
    ck.ok("decode", f"{pt.name} pad={pad}", w, n=done)
