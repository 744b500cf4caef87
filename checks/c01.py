"""C01: chord vocabulary - index, decoded chord and label agree and form a bijection."""
import itertools

from .common import *


def run(ck, I, tier):
    ck.rule("size", "decoded list, label list and declared vocabulary size have the same length")
    ck.rule("distinct", "no two positions of the vocabulary decode to the same chord or carry the same label")
    ck.rule("roundtrip", "decoding the index of (type, root, inversion) gives that chord back, for the closed form of the index over all roots and inversions")
    ck.rule("reject", "roots or inversions outside the vocabulary end in ValueError, never in another chord's index")
    ck.rule("label", "the label at a chord's index names that chord's root, type and inversion")
    ck.rule("order", "the vocabulary does not depend on the iteration order of a set")
    ck.rule("chord", "a chord object's own index is the vocabulary index of its (relative) root, reduced type and inversion")
    W = World(I)
    I2 = Interp(I.root)
    I2.set_rev = True
    W2 = World(I2)
    reds = reductions(W)
    for pt, rel, pad, inv in itertools.product(W.PT.values(), (False, True), (False, True), (False, True)):
        for rname, red in reds.items():
            cfg = f"{pt.name} relative={rel} pad={pad} inversions={inv} reduction={rname}"
            if tier == "quick" and pad and not rel and rname != "mixed":
                continue
            if tier == "quick" and rname == "NO_REDUCTION" and not (rel and pad):
                continue
            section(ck, "roundtrip", cfg)(lambda: one(ck, I, I2, W, pt, rel, pad, inv, red, cfg))
    for pt in W.PT.values():
        section(ck, "chord", pt.name)(lambda: chord_obj(ck, I, W, pt, reds, tier))


def lo_of(W, pt, rel, pad):
    """smallest root of the vocabulary as documented: relative fifths start at the minimum"""
    if rel and pt.name == "TPC":
        return W.hc("MIN_RELATIVE_TPC") - (W.hc("RELATIVE_TPC_EXTRA") if pad else 0)
    return 0


def nroots(W, pt, rel, pad):
    if rel and pt.name == "TPC":
        return W.hc("MAX_RELATIVE_TPC") - W.hc("MIN_RELATIVE_TPC") + (2 * W.hc("RELATIVE_TPC_EXTRA") if pad else 0)
    return W.hc("NUM_PITCHES")[pt]


def one(ck, I, I2, W, pt, rel, pad, inv, red, cfg):
    w_idx, w_dec, w_lab, w_len = (loc(I, x) for x in (HU + "get_chord_one_hot_index", HU + "get_chord_from_one_hot_index", HU + "get_chord_label_list", CH + "get_chord_vector_length"))
    full = SliceV(None, None, None)

    def kw(st, J, **k):
        if red is not None:
            k["reduction"] = DICT(J, st, red)
        return k

    def decode(J):
        st = St()
        k = kw(st, J, use_inversions=inv, relative=rel, pad=pad)
        return summarise(J, HU + "get_chord_from_one_hot_index", [full, pt], k, st=st).at({})

    def labels(J, to=None):
        st = St()
        k = kw(st, J, use_inversions=inv, relative=rel, pad=pad)
        if to is not None:
            k["relative_to"] = to
        return summarise(J, HU + "get_chord_label_list", [pt], k, st=st).at({})

    D, D2 = decode(I), decode(I2)
    L, L2 = labels(I), labels(I2)
    ck.add("order", "decode " + cfg, D == D2, w_dec, "the decoded list changes with set order")
    ck.add("order", "labels " + cfg, L == L2, w_lab, "the label list changes with set order")
    if D[0] != "ret" or L[0] != "ret":
        ck.bad("size", cfg, w_dec, f"vocabulary cannot be listed: {show(D)} {show(L)}")
        return
    D, L = D[1], L[1]
    st = St()
    k = kw(st, I, one_hot=True, relative=rel, use_inversions=inv, pad=pad)
    n = summarise(I, CH + "get_chord_vector_length", [pt], k, st=st).at({})
    ck.add("size", cfg, n == ("ret", len(D)) and len(L) == len(D), w_len, f"declared size {show(n)}, {len(D)} decoded chords, {len(L)} labels")
    ck.add("distinct", "decode " + cfg, len(set(D)) == len(D), w_dec, "two indexes decode to the same chord")
    ck.add("distinct", "labels " + cfg, len(set(L)) == len(L), w_lab, "two indexes carry the same label")
    R = nroots(W, pt, rel, pad)
    lo = lo_of(W, pt, rel, pad)
    redm = red or {t: t for t in W.types}
    cnt = W.hc("CHORD_INVERSION_COUNT")
    strings = W.hc("CHORD_TYPE_TO_STRING")
    pitchname = Func(I, HU + "get_pitch_string", lambda v: ([v["p"], pt], {}), {"p": list(range(-20, 60))})
    used = set()
    for t in W.types:
        rt = redm[t]
        ni = cnt[rt] if inv else 1

        def build(v, J=I):
            st = St()
            return [t, v["root"], pt], kw(st, J, inversion=v["inv"], use_inversion=inv, relative=rel, pad=pad), st

        F = Func(I, HU + "get_chord_one_hot_index", build, {"root": (-3, R + 3), "inv": (-1, 5)})
        Fr = Func(I2, HU + "get_chord_one_hot_index", lambda v: build(v, I2), {"root": (0, R - 1), "inv": (0, ni - 1)})
        subj = f"{t.name} {cfg}"
        bad = False
        cnt_pts = 0
        for p in F.points():
            inside = 0 <= p["root"] < R and (not inv or 0 <= p["inv"] < ni)
            if not inside:
                if not (p["root"] in (-3, -1, R, R + 3) or p["root"] in (0, R // 2, R - 1)):
                    continue
                # the root is always checked; the inversion only matters when it is used
                got = F.at(p)
                cnt_pts += 1
                if got[0] != "raise" or got[1] != "ValueError":
                    ck.bad("reject", subj, w_idx, f"root={p['root']} inversion={p['inv']} is outside the vocabulary but gives {show(got)}")
                    bad = True
                    break
                continue
            if not inv and p["inv"] != 0:
                continue
            got = F.at(p)
            cnt_pts += 1
            want = (p["root"] + lo, rt, p["inv"] if inv else 0)
            if got[0] != "ret" or not isinstance(got[1], int) or not 0 <= got[1] < len(D) or D[got[1]] != want:
                g = D[got[1]] if got[0] == "ret" and isinstance(got[1], int) and 0 <= got[1] < len(D) else None
                ck.bad("roundtrip", subj, w_idx, f"root={p['root']} inversion={p['inv']}: index {show(got)} decodes to {show(g)}, should be {show(want)}")
                bad = True
                break
            used.add(got[1])
            lab = L[got[1]]
            if rel:
                rn = str(p["root"] + lo)
            else:
                x = pitchname.at({"p": p["root"]})
                rn = x[1]
            exp = f"{rn}:{strings[rt]}" + (f", inv:{p['inv']}" if inv else "")
            if lab != exp:
                ck.bad("label", subj, w_lab, f"label {got[1]} is {lab!r} for a chord that should read {exp!r}")
                bad = True
                break
            if Fr.at(p) != got:
                ck.bad("order", "index " + cfg, w_idx, "the index changes with set order")
                bad = True
                break
        if not bad:
            ck.ok("roundtrip", subj, w_idx, "closed form agrees with the decoded list", cnt_pts)
            ck.ok("reject", subj, w_idx)
            ck.ok("label", subj, w_lab)
    ck.add("roundtrip", "onto " + cfg, used == set(range(len(D))), w_idx, f"{len(D) - len(used)} vocabulary positions are not the index of any chord")
    if rel:
        for to in (0, 3, 15, 34) if pt.name == "TPC" else (0, 5, 11):
            LT = labels(I, to)
            for i, lab in enumerate(LT[1]):
                r, t, iv = D[i]
                q = r + to
                if pt.name == "MIDI":
                    q %= 12
                rn = pitchname.at({"p": q})[1] if 0 <= q < W.hc("NUM_PITCHES")[pt] else str(r)
                exp = f"{rn}:{strings[t]}" + (f", inv:{iv}" if inv else "")
                if lab != exp:
                    ck.bad("label", f"relative_to {cfg}", w_lab, f"relative to {to}, label {i} is {lab!r}, should be {exp!r}")
                    return
        ck.ok("label", f"relative_to {cfg}", w_lab)


def chord_obj(ck, I, W, pt, reds, tier):
    w = loc(I, CH + "Chord.get_one_hot_index")
    f = I.get(CH + "Chord.get_one_hot_index")
    NP = W.hc("NUM_PITCHES")[pt]
    for rel, pad, inv in itertools.product((False, True), (False, True), (False, True)):
        for rname, red in reds.items():
            for t in (W.types if rname in ("mixed",) else W.types[::5]):
                def build(v):
                    st = St()
                    o = new_obj(I, CH + "Chord", dict(root=v["root"], bass=v["root"], key_tonic=v["tonic"], key_mode=W.KM["MAJOR"], chord_type=t, inversion=v["inv"], onset=0, onset_level=0, offset=1, offset_level=0, duration=1, pitch_type=pt), st)
                    k = dict(relative=rel, use_inversion=inv, pad=pad)
                    if red is not None:
                        k["reduction"] = DICT(I, st, red)
                    return [o], k, st

                def direct(v):
                    st = St()
                    k = dict(inversion=v["inv"], use_inversion=inv, relative=rel, pad=pad)
                    if red is not None:
                        k["reduction"] = DICT(I, st, red)
                    return [t, v["root"], pt], k, st

                R = nroots(W, pt, rel, pad)
                F = Func(I, f, build, {"root": (0, NP - 1), "tonic": (0, NP - 1), "inv": (0, 2)})
                G = Func(I, HU + "get_chord_one_hot_index", direct, {"root": (-60, 60), "inv": (0, 2)})
                lo = lo_of(W, pt, rel, pad)

                def oracle(p):
                    if not rel:
                        r = p["root"]
                    elif pt.name == "MIDI":
                        r = (p["root"] - p["tonic"]) % 12
                    else:
                        r = p["root"] - p["tonic"] - lo
                    if not 0 <= r < R:
                        return ("raise", "ValueError")
                    return G.at({"root": r, "inv": p["inv"]})

                step = 3 if tier == "quick" else 1
                pts = [dict(root=a, tonic=b, inv=i) for a in range(0, NP, step + 1) for b in range(0, NP, 2 * step + 1) for i in (0, 2)]
                pts += [dict(root=a, tonic=b, inv=1) for a, b in ((0, 0), (NP - 1, 0), (0, NP - 1), (NP - 1, NP - 1), (14, 0), (15, 0), (0, 14), (0, 15), (19, 0), (20, 0), (0, 19), (0, 20)) if a < NP and b < NP]
                ck.compare("chord", f"{t.name} {pt.name} relative={rel} pad={pad} inversions={inv} reduction={rname}", F, oracle, w, pts)
