"""C21: the prior over initial chords - training, storing, reading, collapsing, evaluating."""
import math

from .c18 import read, run_one
from .c20 import TONES, kvocabulary, vocabulary
from .common import *

IC = PKG + "models.initial_chord_models."
DU = PKG + "utils.data_utils."


def rel_vocab(W, pt, red, inv):
    """the relative chords in order: by type, then root, then inversion"""
    lo, hi = (W.hc("MIN_RELATIVE_TPC"), W.hc("MAX_RELATIVE_TPC")) if pt == W.TPC else (0, 12)
    names = {v: k for k, v in W.CT.items()}
    order = sorted(set(red.values()), key=lambda t: list(W.CT.values()).index(t))
    return [(r, names[t], i) for t in order for r in range(lo, hi) for i in range(len(TONES[names[t]]) if inv else 1)]


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if a == b:
        return True
    return all(isinstance(x, (int, float)) and not isinstance(x, bool) or type(x).__name__ == "Fraction" for x in (a, b)) and abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(b)))


def differ(a, b):
    if not isinstance(a, list) or len(a) != len(b):
        return f"{len(a) if isinstance(a, list) else show(a)} entries, required {len(b)}"
    i = next(i for i, (x, y) in enumerate(zip(a, b)) if not close(x, y))
    return f"entry {i} is {show(a[i])}, required {show(b[i])}"


def numbers(I, st, v):
    got = read(I, st, v)
    if not isinstance(got, list) or any(not isinstance(x, (int, float)) and type(x).__name__ != "Fraction" for x in got):
        raise Undec(f"prior {show(got)[:200]}")
    return got


def run(ck, I, tier):
    ck.rule("train", "the trained prior is a distribution over the relative chords per mode: the number of training chords plus the smoothing share, divided by the total")
    ck.rule("stored", "training stores both priors with their pitch type, inversions and no reduction; reading the file gives them back with their types")
    ck.rule("prior", "the prior of a mode is the stored one, its log on request")
    ck.rule("settings", "a model's inversion and reduction settings are the file's own (else those asked for); its reduction maps every chord type through the stored reduction, or is the stored one where that is impossible")
    ck.rule("collapse", "with a reduction or without inversions a chord's prior is the sum of the priors of the chords it stands for")
    ck.rule("evaluate", "accuracy is the percentage of pieces whose first chord has the highest prior of the mode of their first key, loss the mean of minus its log prior")
    I.max_budget = 20000000
    W = World(I)
    red0 = W.const("data.data_types.NO_REDUCTION")
    T = W.CT
    big = tier != "quick"

    for pt, pn in ((W.TPC, "TPC"), (W.MIDI, "MIDI")):
        conv = (lambda p: p) if pt == W.TPC else tpc_to_midi

        def chord(st, rel, t, inv, tonic, mode):
            root = tonic + rel
            return new_obj(I, CH + "Chord", chord_kw(W, root=conv(root), bass=conv(root + TONES[t][inv]), key_tonic=conv(tonic), key_mode=W.KM[mode], chord_type=T[t], inversion=inv, pitch_type=pt), st)

        lists = {
            "both modes": ([(0, "MAJOR", 0, 15, "MAJOR"), (0, "MAJOR", 0, 17, "MAJOR"), (1, "MAJ_MIN7", 3, 12, "MAJOR"), (0, "MINOR", 1, 15, "MINOR"), (5, "DIM7", 2, 16, "MINOR"), (-2, "AUG_MAJ7", 3, 18, "MINOR"), (0, "MINOR", 1, 20, "MINOR")], 1.0),
            "one mode": ([(-1, "HALF_DIM7", 3, 15, "MINOR"), (0, "MINOR", 0, 14, "MINOR")], 29.0),
        }
        voc = rel_vocab(W, pt, red0, True)
        size = len(voc)
        stored = {}

        def opened(I, a, kw, st, n):
            return new_obj(I, "vdata.Text", {}, st, [LIST(I, st, [])])

        for name, (cs, smooth) in lists.items():

            @section(ck, "train", f"{pn} {name}", loc(I, IC + "train_icm"))
            def _():
                w = loc(I, IC + "train_icm")
                st = St()
                rec = []

                def dump(I, a, kw, st, n):
                    rec.append((a[0] if a else kw["obj"], st))
                    return None

                I.hooks["builtins.open"] = opened
                I.hooks["json.dump"] = dump
                try:
                    ca = LIST(I, st, [chord(st, *c) for c in cs])
                    kw = dict(add_n_smoothing=smooth) if smooth != 1.0 else {}
                    run_one(I, IC + "train_icm", [ca, "icm.json"], kw, st)
                finally:
                    I.hooks.pop("builtins.open", None), I.hooks.pop("json.dump", None)
                if len(rec) != 1:
                    raise Undec(f"{len(rec)} json.dump calls")
                d, st = rec[0]
                d = read(I, st, d)
                if not isinstance(d, dict):
                    raise Undec(f"json.dump of {show(d)[:100]}")
                for mode in ("MAJOR", "MINOR"):
                    want = [smooth / size] * size
                    for rel, t, inv, tonic, m in cs:
                        if m == mode:
                            r = rel if pt == W.TPC else conv(tonic + rel) - conv(tonic)
                            want[voc.index((r if pt == W.TPC else r % 12, t, inv))] += 1
                    s = sum(want)
                    want = [x / s for x in want]
                    got = d.get(mode.lower())
                    ok = close(got, want)
                    ck.add("train", f"{pn} {name} {mode}", ok, w, "" if ok else f"prior of {mode}: {differ(got, want)}")
                rest = {k: v for k, v in d.items() if k not in ("major", "minor")}
                exp = dict(inversions_present=True, reduction_present=None, pitch_type="PitchType." + pn)
                ok = all(rest.get(k, 0) == v for k, v in exp.items()) and not {"use_inversions", "reduction"} & set(rest)
                ck.add("stored", f"{pn} {name}", ok, w, f"stored settings {show(rest)}, required {show(exp)}")
                stored[name] = d

        @section(ck, "stored", f"{pn} reading", loc(I, DU + "load_kwargs_from_json"))
        def _():
            w = loc(I, DU + "load_kwargs_from_json")
            st = St()
            names = list(T)
            tri = W.const("data.data_types.TRIAD_REDUCTION")
            back = {v: k for k, v in T.items()}
            raw = dict(pitch_type="PitchType." + pn, major=[0.25, 0.75], minor=[0.5, 0.5], inversions_present=True, reduction_present=None, name="some text", size=12,
                       reduction={"ChordType." + back[a]: "ChordType." + back[b] for a, b in tri.items()})
            given = DICT(I, st, {k: LIST(I, st, v) if isinstance(v, list) else DICT(I, st, v) if isinstance(v, dict) else v for k, v in raw.items()})
            I.hooks["builtins.open"] = opened
            I.hooks["json.load"] = lambda I, a, kw, st, n: given
            try:
                st, v = run_one(I, DU + "load_kwargs_from_json", ["icm.json"], {}, st)
            finally:
                I.hooks.pop("builtins.open", None), I.hooks.pop("json.load", None)
            got = read(I, st, v)
            want = dict(raw, pitch_type=pt, reduction=dict(tri))
            if not isinstance(got, dict):
                raise Undec(show(got)[:100])
            for k in want:
                ck.add("stored", f"{pn} {k}", k in got and got[k] == want[k], w, f"{k} read as {show(got.get(k))}, required {show(want[k])}")
            st, v = run_one(I, DU + "load_kwargs_from_json", [None], {}, St())
            got = read(I, st, v)
            ck.add("stored", f"{pn} no file", got == {}, w, f"no file gives {show(got)}")

        # priors with different values everywhere
        majors = [float(2 * i + 1) for i in range(size)]
        minors = [float(3 * i + 2) for i in range(size)]

        def model(st, present=None, inv_present=True, major=None, minor=None, settings=None, **kw):
            v = rel_vocab(W, pt, present or red0, inv_present)
            major = major or majors[: len(v)]
            minor = minor or minors[: len(v)]
            d = dict(pitch_type=pt, major=LIST(I, st, major), minor=LIST(I, st, minor), inversions_present=inv_present, reduction_present=DICT(I, st, present) if present else None, **(settings or {}))
            args = {k: DICT(I, st, x) if isinstance(x, dict) else x for k, x in kw.items()}
            I.hooks.pop("builtins.open", None)
            return new_obj(I, IC + "SimpleInitialChordModel", args, st, [DICT(I, st, d)], must=True), v, major, minor

        tri = W.const("data.data_types.TRIAD_REDUCTION")
        one = W.const("data.data_types.ALL_ONE_TYPE_REDUCTION")
        mixed = reductions(W).get("mixed")
        names = {v: k for k, v in T.items()}
        cases = [("as stored", None, True, {}), ("no inversions", None, True, dict(use_inversions=False)), ("triads", None, True, dict(reduction=tri)), ("triads without inversions", None, True, dict(reduction=tri, use_inversions=False)), ("one type", None, True, dict(reduction=one)),
                 ("already triads, inversions dropped", tri, True, dict(use_inversions=False, reduction=tri)), ("no inversions stored", None, False, dict()), ("no inversions stored, triads", None, False, dict(reduction=tri))]
        if mixed:
            cases.append(("own reduction without inversions", None, True, dict(reduction=mixed, use_inversions=False)))
        for name, present, ip, kw in cases:

            @section(ck, "collapse", f"{pn} {name}", loc(I, IC + "SimpleInitialChordModel.__init__"))
            def _():
                w = loc(I, IC + "SimpleInitialChordModel.__init__")
                st = St()
                m, v, major, minor = model(st, present, ip, **kw)
                red = kw.get("reduction") or present or red0
                inv = kw.get("use_inversions", True) and ip
                tv = rel_vocab(W, pt, red, inv)
                pos = {x: i for i, x in enumerate(tv)}
                for mode, pri in ((False, major), (True, minor)):
                    want = [0.0] * len(tv)
                    for (r, t, i), p in zip(v, pri):
                        t2 = names[red[T[t]]]
                        i2 = i if inv and i < len(TONES[t2]) else 0
                        want[pos[r, t2, i2]] += p
                    for log in (False, True, None):
                        st, x = run_one(I, IC + "SimpleInitialChordModel.get_prior", [m, mode], {} if log is None else dict(log=log), st)
                        got = numbers(I, st, x)
                        exp = want if log is False else [math.log(x) if x else -math.inf for x in want]
                        ok = close(got, exp)
                        ck.add("prior" if name == "as stored" else "collapse", f"{pn} {name} minor={mode} log={log}", ok, w, "" if ok else f"{name}: prior of {'minor' if mode else 'major'} (log={log}): {differ(got, exp)}")
                got = read(I, st, I.cell(st, m).attrs.get("use_inversions"))
                ck.add("collapse", f"{pn} {name} inversions", got == inv, w, f"{name}: use_inversions {show(got)}, required {inv}")

        owns = [("own settings", None, dict(use_inversions=False, reduction=tri), {}), ("own inversions", None, dict(use_inversions=False), {}), ("own reduction", tri, dict(reduction=one), {}), ("neither", None, {}, {}), ("stored triads", tri, {}, {}), ("nested", tri, {}, dict(reduction=one))]
        if mixed:
            owns.append(("nested, own reduction", mixed, dict(reduction=tri), {}))
        for name, present, own, kw in owns:

            @section(ck, "prior", f"{pn} {name}", loc(I, IC + "SimpleInitialChordModel.__init__"))
            def _():
                w = loc(I, IC + "SimpleInitialChordModel.__init__")
                st = St()
                m, v, major, minor = model(st, present, settings={k: DICT(I, st, x) if isinstance(x, dict) else x for k, x in own.items()}, **kw)
                if not kw:
                    for mode, pri in ((True, minor), (False, major)):
                        st, x = run_one(I, IC + "SimpleInitialChordModel.get_prior", [m, mode], dict(log=False), st)
                        got = numbers(I, st, x)
                        ck.add("prior", f"{pn} {name} minor={mode}", close(got, pri), w, "" if close(got, pri) else f"{name}: prior of {'minor' if mode else 'major'}: {differ(got, pri)}")
                at = I.cell(st, m).attrs
                got = read(I, st, at.get("use_inversions"))
                ck.add("settings", f"{pn} {name} inversions", got == own.get("use_inversions", True), w, f"{name}: use_inversions is {show(got)}, required {own.get('use_inversions', True)}")
                got = read(I, st, at.get("reduction"))
                r, q = own.get("reduction") or kw.get("reduction") or red0, present or red0
                want = {t: r[q[t]] for t in T.values()}
                if not isinstance(got, dict):
                    raise Undec(f"reduction {show(got)[:100]}")
                bad = [t for t in want if got.get(t) != want[t]]
                ck.add("settings", f"{pn} {name} reduction", not bad, w, "" if not bad else f"{name}: {show(bad[0])} is reduced to {show(got.get(bad[0]))}, required {show(want[bad[0]])}")
                got = read(I, st, at.get("PITCH_TYPE"))
                ck.add("settings", f"{pn} {name} pitch type", got == pt, w, f"{name}: pitch type {show(got)}")

        @section(ck, "settings", f"{pn} impossible reduction", loc(I, IC + "SimpleInitialChordModel.__init__"))
        def _():
            w = loc(I, IC + "SimpleInitialChordModel.__init__")
            st = St()
            part = {T[a]: T[a] for a in ("MAJOR", "MINOR")}
            m, v, major, minor = model(st, tri, settings=dict(reduction=DICT(I, st, part)))
            got = read(I, st, I.cell(st, m).attrs.get("reduction"))
            ck.add("settings", f"{pn} impossible reduction", got == dict(tri), w, f"a reduction lacking stored types: {show(got)[:200]}, required the stored one")

        for name, kw in (("as stored", {}),):

            @section(ck, "evaluate", f"{pn} {name}", loc(I, IC + "SimpleInitialChordModel.evaluate"))
            def _():
                w = loc(I, IC + "SimpleInitialChordModel.evaluate")
                st = St()
                m, v, major, minor = model(st, **kw)
                red = kw.get("reduction") or red0
                inv = kw.get("use_inversions", True)
                tv = rel_vocab(W, pt, red, inv)
                pri = {}
                for mode, p0 in (("MAJOR", major), ("MINOR", minor)):
                    p = dict.fromkeys(tv, 0.0)
                    for (r, t, i), x in zip(v, p0):
                        t2 = names[red[T[t]]]
                        p[r, t2, i if inv and i < len(TONES[t2]) else 0] += x
                    pri[mode] = p
                top = {mode: max(p, key=p.get) for mode, p in pri.items()}
                back = {x[:2] + (0,): x for x in tv}

                def piece(c, key):
                    rel, t, i, tonic, mode = c
                    empty = LIST(I, st, [])
                    k = new_obj(I, KY + "Key", key_kw(W, relative_tonic=conv(tonic), relative_mode=W.KM[mode], local_mode=W.KM["MAJOR" if mode == "MINOR" else "MINOR"], tonic_type=pt), st)
                    return new_obj(I, "vdata.Part", {}, st, [empty, empty, LIST(I, st, [chord(st, *c), chord(st, 0, "MAJOR", 0, 15, "MAJOR")]), empty, LIST(I, st, [k]), empty, empty])

                def at(x, mode, tonic):
                    r, t, i = x
                    if pt == W.MIDI:  # a tonal interval with this sound
                        r = next(q for q in range(-6, 6) if 7 * q % 12 == r)
                    return (r, t, i, tonic, mode)

                firsts = [at(top["MAJOR"], "MAJOR", 12 if pt == W.TPC else 15), at(top["MINOR"], "MINOR", 10 if pt == W.TPC else 15), (1, "MINOR", 2, 15, "MAJOR"), (0, "AUGMENTED", 0, 14, "MINOR"), (-1, "MAJOR", 1, 14, "MINOR")]
                firsts = [c for c in firsts if 0 <= c[3] + c[0] < 35 and 0 <= c[3] + c[0] + TONES[c[1]][c[2]] < 35]
                loss, right = 0.0, 0
                for rel, t, i, tonic, mode in firsts:
                    r = rel if pt == W.TPC else (conv(tonic + rel) - conv(tonic)) % 12
                    x = (r, names[red[T[t]]], i if inv else 0)
                    right += x == top[mode]
                    loss -= math.log(pri[mode][x])
                ps = LIST(I, st, [piece(c, None) for c in firsts])
                st, x = run_one(I, IC + "SimpleInitialChordModel.evaluate", [m, ps], {}, st)
                got = read(I, st, x)
                if not isinstance(got, dict):
                    raise Undec(show(got)[:100])
                want = dict(acc=100 * right / len(firsts), loss=loss / len(firsts))
                for k in want:
                    ck.add("evaluate", f"{pn} {name} {k}", close(got.get(k), want[k]), w, f"{name}: {k} {show(got.get(k))}, required {want[k]}")
