"""C09: operations on feature vectors and index arrays - key-change vectors, transposition,
reduction of types and inversions, reduction of index arrays, decoding."""
import itertools

from sa.engine import ACell
from .common import *
from .c07 import expected as chord_vec
from .c08 import expected as note_vec


def hot(i, k):
    return [1 if j == i else 0 for j in range(k)]


def key_vec(W, pt, d, mode):
    """documented layout of a key-change vector: interval one-hot, mode one-hot"""
    if pt == W.MIDI:
        return hot(d % 12, 12) + hot(mode.value, 2)
    lo = W.hc("MIN_KEY_CHANGE_INTERVAL_TPC")
    n = W.hc("MAX_KEY_CHANGE_INTERVAL_TPC") - lo
    return hot(d - lo, n) + hot(mode.value, 2)


def arr(I, st, vals):
    return I.new(st, ACell(list(vals)))


def mat(I, st, rows):
    nd = I.ext.nd
    return nd.mk(I, st, (len(rows), len(rows[0])), [x for r in rows for x in r])


def run(ck, I, tier):
    ck.rule("key_vector", "a key-change vector has a one at the interval between the tonics (none if it is out of range), a one at the new mode, and the declared length")
    ck.rule("key_decode", "decoding a key-change vector gives back the interval and the single new mode")
    ck.rule("note_decode", "decoding a note vector gives back pitch, octave, levels, position and pitch type")
    ck.rule("both_decode", "a row holding a chord vector, a key-change vector and a flag decodes into exactly that chord and key change; a key-change part without flag is rejected")
    ck.rule("transpose", "transposing a note vector moves only its pitch-class one-hot by the interval, leaves the input unchanged, and rejects pitches out of range")
    ck.rule("types", "reducing chord types in place replaces each row's type one-hot by its reduced type and changes nothing else")
    ck.rule("inversions", "removing inversions in place sets each row's inversion to root position (padding rows stay zero) and changes nothing else")
    ck.rule("one_hots", "reducing an array of chord indexes maps every index to the index of the same chord after reduction and without inversions if so asked, keeping order and the input")
    W = World(I)
    for pt in W.PT.values():
        section(ck, "key_vector", pt.name, loc(I, KY + "Key.get_key_change_vector"))(lambda: keyvec(ck, I, W, pt))
        section(ck, "key_decode", pt.name, loc(I, VD + "decode_key_change_vector"))(lambda: keydec(ck, I, W, pt))
        section(ck, "note_decode", pt.name, loc(I, VD + "decode_note_vector"))(lambda: notedec(ck, I, W, pt))
        section(ck, "transpose", pt.name, loc(I, VD + "transpose_note_vector"))(lambda: transp(ck, I, W, pt))
        for pad in (False, True):
            s = f"{pt.name} pad={pad}"
            section(ck, "both_decode", s, loc(I, VD + "decode_chord_and_key_change_vector"))(lambda: both(ck, I, W, pt, pad))
            for extra in (False, True):
                sub = s + (" with key change part" if extra else "")
                section(ck, "types", sub, loc(I, VD + "reduce_chord_types"))(lambda: types(ck, I, W, pt, pad, extra, sub))
                section(ck, "inversions", sub, loc(I, VD + "remove_chord_inversions"))(lambda: invs(ck, I, W, pt, pad, extra, sub))
            for rel in (True, False):
                sub = f"{s} relative={rel}"
                section(ck, "one_hots", sub, loc(I, VD + "reduce_chord_one_hots"))(lambda: onehots(ck, I, W, pt, pad, rel, sub, tier))


def keyvec(ck, I, W, pt):
    w = loc(I, KY + "Key.get_key_change_vector")
    n = W.hc("NUM_PITCHES")[pt]
    L = summarise(I, KY + "get_key_change_vector_length", [pt], dict(one_hot=False)).at({})
    ms = list(W.KM.values())
    pts = [(a, b) for a in range(0, n, 1 if n < 20 else 3) for b in range(0, n, 1 if n < 20 else 2)]
    lo, hi = W.hc("MIN_KEY_CHANGE_INTERVAL_TPC"), W.hc("MAX_KEY_CHANGE_INTERVAL_TPC")
    edges = sorted({0, n - 1} | {x for c in (n // 2,) for e in (lo, hi) for x in (c + e - 1, c + e, c + e + 1) if 0 <= x < n})
    pts += [(a, b) for a in edges + [n // 2] for b in edges]
    for i, (a, b) in enumerate(pts):
        m, m2 = ms[i % 2], ms[(i // 2) % 2]
        st = St()
        k1 = new_obj(I, KY + "Key", key_kw(W, relative_tonic=a, local_tonic=2, global_tonic=3, relative_mode=m2, local_mode=ms[1 - m.value], global_mode=ms[1 - m.value], tonic_type=pt), st)
        k2 = new_obj(I, KY + "Key", key_kw(W, relative_tonic=b, local_tonic=4, global_tonic=5, relative_mode=m, local_mode=ms[1 - m.value], global_mode=ms[1 - m.value], tonic_type=pt), st)
        got = summarise(I, KY + "Key.get_key_change_vector", [k1, k2], {}, st=st).at({})
        exp = key_vec(W, pt, b - a, m)
        if not outcome_matches(got, ("ret", exp)):
            ck.bad("key_vector", pt.name, w, f"from tonic {a} to {b} {m.name}: code gives {show(got)}, required {show(exp)}")
            return
        if L != ("ret", len(exp)):
            ck.bad("key_vector", pt.name + " length", loc(I, KY + "get_key_change_vector_length"), f"declared {show(L)}, the vector has {len(exp)} elements")
            return
    ck.ok("key_vector", pt.name, w, n=len(pts))


def krange(W, pt):
    return range(12) if pt == W.MIDI else range(W.hc("MIN_KEY_CHANGE_INTERVAL_TPC"), W.hc("MAX_KEY_CHANGE_INTERVAL_TPC"))


def keydec(ck, I, W, pt):
    w = loc(I, VD + "decode_key_change_vector")
    for d in krange(W, pt):
        for m in W.KM.values():
            st = St()
            got = summarise(I, VD + "decode_key_change_vector", [arr(I, st, key_vec(W, pt, d, m))], {}, st=st).at({})
            if not same_key(got, d, m, pt):
                ck.bad("key_decode", pt.name, w, f"interval {d}, mode {m.name}: {showkey(got)}")
                return
    ck.ok("key_decode", pt.name, w, n=2 * len(krange(W, pt)))
    st = St()
    got = summarise(I, VD + "decode_key_change_vector", [arr(I, st, [0] * 7)], {}, st=st).at({})
    ck.add("key_decode", "unknown length", got == ("raise", "ValueError"), w, f"a vector of impossible length gives {show(got)}")


def same_key(got, d, m, pt):
    if got[0] != "ret" or not isinstance(got[1], Obj):
        if got[0] == "ret":
            raise Undec("not an object")
        return False
    o = got[1]
    return val_eq(o.get("relative_tonic"), d) and val_eq(o.get("relative_mode"), m) and val_eq(o.get("tonic_type"), pt)


def showkey(got):
    if got[0] == "ret" and isinstance(got[1], Obj):
        o = got[1]
        return f"decoded as tonic {o.get('relative_tonic')}, mode {o.get('relative_mode')}, {o.get('tonic_type')}"
    return show(got)


def notedec(ck, I, W, pt):
    w = loc(I, VD + "decode_note_vector")
    n = W.hc("NUM_PITCHES")[pt]
    for i in range(0, n * 5, 3):
        pc, octave, ol, fl = i % n, (i // 2) % 10, i % 4, (i // 3) % 4
        metr = [F_(i % 3, 4), F_(3 + i % 3, 4), F_(3, 4)] if i % 4 == 1 else [F_(i % 3, 4), F_(5 + i % 3, 4), F_(5, 4)] if i % 4 == 3 else None
        e = note_vec(W, pt, pc, octave, ol, fl, metr, F_(1, 8), F_(1, 4), None, None)
        st = St()
        got = summarise(I, VD + "decode_note_vector", [arr(I, st, e)], {}, st=st).at({})
        if got[0] != "ret" or not isinstance(got[1], Obj):
            if got[0] == "ret":
                raise Undec("not an object")
            ck.bad("note_decode", pt.name, w, f"pitch {pc} octave {octave}: {show(got)}")
            return
        exp = dict(pitch_class=pc, octave=octave, onset_level=ol, offset_level=fl, pitch_type=pt, duration=metr[2] if metr else 0)
        for f, x in exp.items():
            if not val_eq(got[1].get(f), x):
                ck.bad("note_decode", pt.name, w, f"{f} {show(x)} is decoded as {show(got[1].get(f))}")
                return
    ck.ok("note_decode", pt.name, w, n=n * 5 // 3)


def transp(ck, I, W, pt):
    w = loc(I, VD + "transpose_note_vector")
    n = W.hc("NUM_PITCHES")[pt]
    cnt = 0
    for i, pc in enumerate(range(0, n, 1 if n < 20 else 2)):
        for d in (-n, -pc - 1, -pc, -7, -1, 0, 1, 2, 5, n - 1 - pc, n - pc, n + 3):
            for explicit in (False, True):
                if explicit and (i + d) % 3:
                    continue
                octave = (i + 2) % 10
                e = note_vec(W, pt, pc, octave, 3, 2, [F_(1, 4), F_(1, 2), F_(1, 4)], F_(1, 8), 1, (1, 14), (9, 120))
                st = St()
                v = arr(I, st, e)
                k = dict(pitch_type=pt) if explicit else {}
                rets, raises = I.run(VD + "transpose_note_vector", [v, d], k, st=st)
                got = Summary(I, rets, raises).at({})
                x = list(e)
                x[pc] = 0
                if 0 <= pc + d < n:
                    x[pc + d] = 1
                    want = ("ret", x)
                else:
                    want = ("raise", "ValueError")
                if not outcome_matches(got, want):
                    ck.bad("transpose", pt.name, w, f"pitch {pc} by {d}: code gives {show(got)}, required {show(want)}")
                    return
                cnt += 1
                for s, _ in rets:
                    if Evalr(I, s, {})(v) != e:
                        ck.bad("transpose", pt.name + " input", w, f"pitch {pc} by {d}: the vector passed in is changed")
                        return
    ck.ok("transpose", pt.name, w, n=cnt)


def rows(W, pt, pad, extra):
    """one row per (type, inversion), then an all-zero padding row"""
    out, meta = [], []
    n = W.hc("NUM_PITCHES")[pt]
    for i, (t, inv) in enumerate(itertools.product(W.types, range(4))):
        if (i * 7) % 3 and inv:
            continue
        tonic = 15 if pt != W.MIDI else 4
        kw = dict(root=(tonic + i % 9 - 4) % n, bass=(tonic + i % 7 - 3) % n, chord_type=t, inversion=inv, onset_level=i % 4, offset_level=(i // 2) % 4, duration=F_(1 + i % 5, 4), pitch_type=pt)
        v = chord_vec(W, kw, tonic, list(W.KM.values())[i % 2], pad, None)
        if v is None:
            raise Undec("row out of range")
        if extra:
            v = v + (key_vec(W, pt, list(krange(W, pt))[i % len(krange(W, pt))], list(W.KM.values())[(i // 2) % 2]) + [1] if i % 2 else [0] * (len(key_vec(W, pt, 0, W.KM["MAJOR"])) + 1))
        out.append(v)
        meta.append((t, inv))
    out.append([0] * len(out[0]))
    meta.append((None, None))
    return out, meta


def part(W, pt, pad):
    if pt == W.MIDI:
        return 12
    return W.hc("MAX_RELATIVE_TPC") - W.hc("MIN_RELATIVE_TPC") + (2 * W.hc("RELATIVE_TPC_EXTRA") if pad else 0)


def inplace(ck, I, rule, subj, fn, w, rs, exp, args, kw):
    st = St()
    m = mat(I, st, rs)
    a = [m] + [DICT(I, st, x) if isinstance(x, dict) else x for x in args]
    rets, raises = I.run(fn, a, kw, st=st)
    got = Summary(I, rets, raises).at({})
    if got[0] != "ret":
        ck.bad(rule, subj, w, f"ends in {show(got)}")
        return False
    res = Evalr(I, rets[0][0], {})(m)
    for i, (g, e) in enumerate(zip(res, exp)):
        if not val_eq(g, e):
            j = next(j for j in range(len(e)) if not val_eq(g[j], e[j]))
            ck.bad(rule, subj, w, f"row {i}: element {j} is {show(g[j])}, should be {show(e[j])}")
            return False
    return True


def types(ck, I, W, pt, pad, extra, subj):
    w = loc(I, VD + "reduce_chord_types")
    rs, meta = rows(W, pt, pad, extra)
    p, n = part(W, pt, pad), len(W.types)
    reds = dict(reductions(W))
    ts = list(W.types)
    reds["chain"] = {t: ts[(k + 1) % len(ts)] for k, t in enumerate(ts)}  # every type goes to another one, which itself goes on
    for rname, red in reds.items():
        for explicit in (False, True):
            exp = []
            for v, (t, _) in zip(rs, meta):
                x = list(v)
                if t is not None and red is not None:
                    x[p : p + n] = hot(red[t].value, n)
                exp.append(x)
            if not inplace(ck, I, "types", subj + " " + rname, VD + "reduce_chord_types", w, rs, exp, [red], dict(pad=pad, **({"pitch_type": pt} if explicit else {}))):
                return
            ck.ok("types", subj + " " + rname, w, n=len(rs))


def invs(ck, I, W, pt, pad, extra, subj):
    w = loc(I, VD + "remove_chord_inversions")
    rs, meta = rows(W, pt, pad, extra)
    p = 2 * part(W, pt, pad) + len(W.types)
    exp = []
    for v, (t, _) in zip(rs, meta):
        x = list(v)
        if t is not None:
            x[p : p + 4] = [1, 0, 0, 0]
        exp.append(x)
    for explicit in (False, True):
        if not inplace(ck, I, "inversions", subj, VD + "remove_chord_inversions", w, rs, exp, [], dict(pad=pad, **({"pitch_type": pt} if explicit else {}))):
            return
        ck.ok("inversions", subj, w, n=len(rs))


def both(ck, I, W, pt, pad):
    w = loc(I, VD + "decode_chord_and_key_change_vector")
    subj = f"{pt.name} pad={pad}"
    rs, meta = rows(W, pt, pad, False)
    kr = list(krange(W, pt))
    fn = VD + "decode_chord_and_key_change_vector"
    for i, (v, (t, inv)) in enumerate(list(zip(rs, meta))[:-1]):
        for how in (dict(root_type=pt), dict(tonic_type=pt), dict(root_type=pt, tonic_type=pt)):
            d, m = kr[(5 * i) % len(kr)], list(W.KM.values())[i % 2]
            kv = key_vec(W, pt, d, m)
            for flag in (1, 0):
                row = v + (kv if flag else [0] * len(kv)) + [flag]
                st = St()
                got = summarise(I, fn, [arr(I, st, row)], dict(pad=pad, **how), st=st).at({})
                ok = got[0] == "ret" and isinstance(got[1], tuple) and len(got[1]) == 2
                if ok:
                    c, k = got[1]
                    if not isinstance(c, Obj):
                        raise Undec("chord")
                    ok = val_eq(c.get("chord_type"), t) and val_eq(c.get("inversion"), inv)
                    ok = ok and (same_key(("ret", k), d, m, pt) if flag else k is None)
                if not ok:
                    ck.bad("both_decode", subj, w, f"type {t.name} inversion {inv}, key change {(d, m.name) if flag else None}: {show(got)}")
                    return
        st = St()
        got = summarise(I, fn, [arr(I, st, v + kv + [0])], dict(pad=pad, root_type=pt), st=st).at({})
        if got != ("raise", "ValueError"):
            ck.bad("both_decode", subj, w, f"a key-change part without flag gives {show(got)}")
            return
        ck.ok("both_decode", subj, w, n=7)
    st = St()
    got = summarise(I, fn, [arr(I, st, row)], dict(pad=pad), st=st).at({})
    ck.add("both_decode", "no pitch type", got == ("raise", "ValueError"), w, f"without any pitch type: {show(got)}")


# ---------------------------------------------------------------- index arrays


def vocab(W, pt, pad, rel, inv, red):
    """the documented vocabulary: types in enum order that some type reduces to, roots, inversions"""
    types = [t for t in W.types if red is None or t in red.values()]
    if pt == W.MIDI:
        lo, n = 0, 12
    elif rel:
        e = W.hc("RELATIVE_TPC_EXTRA") if pad else 0
        lo = W.hc("MIN_RELATIVE_TPC") - e
        n = W.hc("MAX_RELATIVE_TPC") + e - lo
    else:
        lo, n = 0, W.hc("NUM_PITCHES")[pt]
    return types, lo, n


def decode_fn(I, W, pt, pad, rel, inv, red):
    st = St()
    k = dict(use_inversions=inv, relative=rel, pad=pad)
    if red is not None:
        k["reduction"] = DICT(I, st, red)
    got = summarise(I, HU + "get_chord_from_one_hot_index", [SliceV(None, None, None), pt], k, st=st).at({})
    if got[0] != "ret":
        raise Undec("vocabulary")
    return [tuple(x) for x in got[1]]


def onehots(ck, I, W, pt, pad, rel, subj, tier):
    w = loc(I, VD + "reduce_chord_one_hots")
    fn = VD + "reduce_chord_one_hots"
    reds = reductions(W)
    cfgs = [(None, True, r, u) for r in ("default", "TRIAD_REDUCTION", "mixed") for u in (True, False)]
    cfgs += [("TRIAD_REDUCTION", True, "TRIAD_REDUCTION", False), ("TRIAD_REDUCTION", False, "TRIAD_REDUCTION", False), (None, False, "TRIAD_REDUCTION", False)]
    for present, ipres, rname, use in cfgs:
        if rname not in reds:
            continue
        pres, red = reds[present] if present else None, reds[rname]
        old = decode_fn(I, W, pt, pad, rel, ipres, pres)
        new = decode_fn(I, W, pt, pad, rel, use, red)
        idx = {c: i for i, c in enumerate(new)}

        def target(c):
            r, t, inv = c
            return idx.get((r, red[t] if red else t, inv if use else 0))

        step = 7 if tier == "quick" else 3
        sel = list(range(0, len(old), step)) + [len(old) - 1]
        sel = [i for i in sel if target(old[i]) is not None]
        want = [target(old[i]) for i in sel]
        # unsorted, with repetitions
        order = [(j * 5 + 3) % len(sel) for j in range(len(sel))] + [0, 1, 0]
        inp = [sel[j] for j in order]
        exp = [want[j] for j in order]
        for kind in ("array", "list"):
            st = St()
            a = arr(I, st, inp) if kind == "array" else LIST(I, st, inp)
            k = dict(inversions_present=ipres, relative=rel, use_inversions=use)
            if pres is not None:
                k["reduction_present"] = DICT(I, st, pres)
            if red is not None:
                k["reduction"] = DICT(I, st, red)
            rets, raises = I.run(fn, [a, pad, pt], k, st=st)
            got = Summary(I, rets, raises).at({})
            cfg = f"present={present},{ipres} reduction={rname} inversions={use}"
            if not outcome_matches(got, ("ret", exp)):
                j = None
                if got[0] == "ret" and isinstance(got[1], list) and len(got[1]) == len(exp):
                    j = next(j for j in range(len(exp)) if not val_eq(got[1][j], exp[j]))
                    ck.bad("one_hots", subj, w, f"{cfg}: index {inp[j]} ({show(old[inp[j]])}) becomes {show(got[1][j])}, should be {exp[j]}")
                else:
                    ck.bad("one_hots", subj, w, f"{cfg}: {show(got)}, required {show(exp)}")
                return
            if Evalr(I, rets[0][0], {})(a) != inp:
                ck.bad("one_hots", subj + " input", w, "the given indexes are changed")
                return
            ck.ok("one_hots", subj, w, cfg, n=len(exp))
