"""C02: key and key-change vocabularies - index, decoded key and label agree, bijection."""
from .common import *


def run(ck, I, tier):
    ck.rule("size", "decoded list, label list and (for key changes) the declared vector length agree")
    ck.rule("distinct", "no two positions decode to the same key or carry the same label")
    ck.rule("absolute", "a key's index decodes to its tonic and mode; tonics out of range end in ValueError")
    ck.rule("change", "the index of a key change decodes to the interval between the tonics and the new mode; intervals out of range end in ValueError")
    ck.rule("label", "the label at a key's index names its tonic (lower case for minor) and mode")
    ck.rule("order", "the vocabulary does not depend on set iteration order")
    W = World(I)
    I2 = Interp(I.root)
    I2.set_rev = True
    for pt in W.PT.values():
        for rel in (False, True):
            section(ck, "label", f"{pt.name} relative={rel}")(lambda: vocab(ck, I, I2, W, pt, rel))
        section(ck, "absolute", pt.name)(lambda: absolute(ck, I, W, pt))
        section(ck, "change", pt.name)(lambda: change(ck, I, W, pt))


def bounds(W, pt, rel):
    if rel and pt.name == "TPC":
        return W.hc("MIN_KEY_CHANGE_INTERVAL_TPC"), W.hc("MAX_KEY_CHANGE_INTERVAL_TPC")
    return 0, W.hc("NUM_PITCHES")[pt]


def decode(I, W, pt, rel):
    return summarise(I, HU + "get_key_from_one_hot_index", [SliceV(None, None, None), pt], dict(relative=rel)).at({})


def vocab(ck, I, I2, W, pt, rel):
    cfg = f"{pt.name} relative={rel}"
    w_dec, w_lab, w_len = (loc(I, x) for x in (HU + "get_key_from_one_hot_index", HU + "get_key_label_list", KY + "get_key_change_vector_length"))
    D = decode(I, W, pt, rel)
    ck.add("order", "decode " + cfg, D == decode(I2, W, pt, rel), w_dec, "depends on set order")
    names = Func(I, HU + "get_pitch_string", lambda v: ([v["p"], pt], {}), {"p": list(range(-40, 80))})
    lo, hi = bounds(W, pt, rel)
    want = [(k, m) for m in W.KM.values() for k in range(lo, hi)]
    if D[0] != "ret":
        ck.bad("size", cfg, w_dec, f"vocabulary cannot be listed: {show(D)}")
        return
    D = D[1]
    ck.add("distinct", "decode " + cfg, len(set(D)) == len(D), w_dec, "two indexes decode to the same key")
    ck.add("size", "span " + cfg, sorted(map(repr, D)) == sorted(map(repr, want)), w_dec, f"decoded keys are {show(D)}")
    for to in [None] + ([0, 7, 15, 34] if pt.name == "TPC" else [0, 5, 11]) if rel else [None]:
        k = dict(relative=rel)
        if to is not None:
            k["relative_to"] = to
        L = summarise(I, HU + "get_key_label_list", [pt], k).at({})
        L2 = summarise(I2, HU + "get_key_label_list", [pt], k).at({})
        ck.add("order", f"labels {cfg} to={to}", L == L2, w_lab, "depends on set order")
        if L[0] != "ret":
            ck.bad("size", f"labels {cfg} to={to}", w_lab, f"labels cannot be listed: {show(L)}")
            continue
        L = L[1]
        ck.add("size", f"labels {cfg} to={to}", len(L) == len(D), w_lab, f"{len(L)} labels for {len(D)} keys")
        if to is None:
            ck.add("distinct", f"labels {cfg}", len(set(L)) == len(L), w_lab, "two indexes carry the same label")
        for i, ((tonic, mode), lab) in enumerate(zip(D, L)):
            if not rel:
                n = names.at({"p": tonic})[1]
            elif to is None:
                n = str(tonic)
            else:
                q = tonic + to
                if pt.name == "MIDI":
                    q %= 12
                n = names.at({"p": q})[1] if 0 <= q < W.hc("NUM_PITCHES")[pt] else str(tonic)
            exp = (n.lower() if mode.name == "MINOR" else n) + f":KeyMode.{mode.name}"
            if lab != exp:
                ck.bad("label", f"{cfg} to={to}", w_lab, f"label {i} is {lab!r}, should be {exp!r}")
                break
        else:
            ck.ok("label", f"{cfg} to={to}", w_lab, n=len(L))
    if rel:
        n = summarise(I, KY + "get_key_change_vector_length", [pt], dict(one_hot=True)).at({})
        ck.add("size", "declared " + cfg, n == ("ret", len(D)), w_len, f"declared {show(n)}, vocabulary {len(D)}")


def absolute(ck, I, W, pt):
    D = decode(I, W, pt, False)[1]
    NP = W.hc("NUM_PITCHES")[pt]
    for m in W.KM.values():
        F = Func(I, HU + "get_key_one_hot_index", lambda v: ([m, v["t"], pt], {}), {"t": (-5, NP + 5)})

        def want(p):
            if 0 <= p["t"] < NP:
                return ("ret", D.index((p["t"], m)) if (p["t"], m) in D else -1)
            return ("raise", "ValueError")

        ck.compare("absolute", f"{m.name} {pt.name}", F, want, loc(I, HU + "get_key_one_hot_index"))

        def build(v):
            st = St()
            other = [x for x in W.KM.values() if x != m][0]
            o = new_obj(I, KY + "Key", dict(relative_tonic=v["t"], local_tonic=1, global_tonic=2, relative_mode=m, local_mode=other, global_mode=other, tonic_type=pt), st)
            return [o], {}, st

        G = Func(I, KY + "Key.get_one_hot_index", build, {"t": (-5, NP + 5)})
        ck.compare("absolute", f"key object {m.name} {pt.name}", G, want, loc(I, KY + "Key.get_one_hot_index"))


def change(ck, I, W, pt):
    D = decode(I, W, pt, True)[1]
    NP = W.hc("NUM_PITCHES")[pt]
    lo, hi = bounds(W, pt, True)
    for m1 in W.KM.values():
        for m2 in W.KM.values():
            o1, o2 = [[x for x in W.KM.values() if x != m][0] for m in (m1, m2)]

            def build(v):
                st = St()
                a = new_obj(I, KY + "Key", dict(relative_tonic=v["a"], local_tonic=3, global_tonic=4, relative_mode=m1, local_mode=o1, global_mode=o1, tonic_type=pt), st)
                b = new_obj(I, KY + "Key", dict(relative_tonic=v["b"], local_tonic=5, global_tonic=6, relative_mode=m2, local_mode=o2, global_mode=o2, tonic_type=pt), st)
                return [a, b], {}, st

            def want(p):
                d = p["b"] - p["a"]
                if pt.name == "MIDI":
                    d %= 12
                if not lo <= d < hi:
                    return ("raise", "ValueError")
                return ("ret", D.index((d, m2)))

            F = Func(I, KY + "Key.get_key_change_one_hot_index", build, {"a": (0, NP - 1), "b": (0, NP - 1)})
            ck.compare("change", f"{m1.name}->{m2.name} {pt.name}", F, want, loc(I, KY + "Key.get_key_change_one_hot_index"))
