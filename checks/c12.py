"""C12: chords, keys and notes read from annotation rows."""
import itertools
from fractions import Fraction

from sa import pdm

from .c05 import ROMAN, fifths, resolve, strip_acc
from .c06 import FIGURES, NAMES, tones
from .c10 import meter
from .common import *

NA = ExtV("pandas.NA")
NAN = float("nan")
LETTERS = {"F": -1, "C": 0, "G": 1, "D": 2, "A": 3, "E": 4, "B": 5}
SIGS = {0: "4/4", 1: "6/8", 2: "3/4", 3: "4/4"}


def run(ck, I, tier):
    ck.rule("key", "the key of an annotated row: global tonic and mode as written, local key resolved within the global key, relative key resolved within the local key (or equal to it); unreadable rows give None")
    ck.rule("chord", "the chord of an annotated row: root the row's interval above the local tonic, reduced type, inversion from the figures within the type's tones (0 when inversions are off), bass that tone, key relative or local as asked, positions, levels, duration and suspension of the row; unlabelled or unreadable rows give None")
    ck.rule("level", "metrical levels come from the time signature of the measure each position lies in, also through a shared cache")
    ck.rule("note", "the note of a row: pitch in the asked pitch type, octave and pitch from its MIDI number, positions, levels, length; pitches out of the tonal range give None")
    ck.rule("labels-key", "the key of a labels csv row: tonic and mode as written (- flat, + sharp, lower case minor), applied degrees resolved within it with the scale's own mode, the plain 7th degree of a minor key being the leading tone")
    ck.rule("labels-chord", "the chord of a labels csv row: root the degree of the relative key, reduced type, inversion within its tones, augmented sixths as root position major, measure and beat of onset and offset, duration")
    W = World(I)
    for pt in W.PT.values():
        keys(ck, I, W, pt)
        chords(ck, I, W, pt)
        notes(ck, I, W, pt)
        labels(ck, I, W, pt)
    section(ck, "level", "shared cache")(lambda: caches(ck, I, W))


def level(sig, beat):
    n, d = map(int, sig.split("/"))
    M, B, S = meter(n, d)
    return 3 if beat % M == 0 else 2 if beat % B == 0 else 1 if beat % S == 0 else 0


def mframe(I, st, order=(0, 1, 2, 3), extra=None):
    sigs = {0: "4/4", 1: "6/8", 2: "3/4", 3: "4/4", **(extra or {})}
    return pdm.frame(I, st, data={
        "mc": list(order), "timesig": [sigs[m] for m in order], "act_dur": [Fraction(1)] * len(order), "mc_offset": [Fraction(0)] * len(order),
    })


def row_of(I, st, d):
    return pdm.series(I, st, list(d), list(d.values()))


def spelled(W, name, pt):
    k = name.count("#") - name[1:].count("b")
    t = LETTERS[name[0].upper()] + 7 * k
    if pt == W.TPC:
        return 15 + t
    return 7 * t % 12


def fields(o, names):
    return {n: o.get(n) for n in names}


def diff(got, exp):
    return ", ".join(f"{k} {show(got.get(k))} instead of {show(v)}" for k, v in exp.items() if not same_val(got.get(k), v))


def same_val(a, b):
    return val_eq(a, b) if not (isinstance(a, float) and a != a) else b != b


def outcome(ck, rule, subj, w, s, exp, cls, what):
    got = s.at({})
    if exp is None:
        return ck.add(rule, subj, got == ("ret", None), w, f"{what}: {show(got)}, should be None")
    if exp == "error":
        return ck.add(rule, subj, got[0] == "raise", w, f"{what}: {show(got)}, should be refused")
    if got[0] != "ret" or not isinstance(got[1], Obj):
        return ck.bad(rule, subj, w, f"{what}: {show(got)}, should be a {cls}")
    g = fields(got[1], exp)
    d = diff(g, exp)
    return ck.add(rule, subj, not d and got[1].cls == cls, w, f"{what}: {d or got[1].cls}")


KEYROW = dict(globalkey="C", globalkey_is_minor=False, localkey="I", relativeroot=NA)


def key_exp(W, r, pt):
    g = spelled(W, r["globalkey"], pt)
    gm = W.KM["MINOR" if r["globalkey_is_minor"] else "MAJOR"]
    out = resolve(W, r["localkey"], g, gm, pt)
    if out[0] != "ret":
        return None
    l, lm = out[1]
    rt, rm = l, lm
    if isinstance(r["relativeroot"], str):
        out = resolve(W, r["relativeroot"], l, lm, pt)
        if out[0] != "ret":
            return None
        rt, rm = out[1]
    return dict(relative_tonic=rt, local_tonic=l, global_tonic=g, relative_mode=rm, local_mode=lm, global_mode=gm, tonic_type=pt)


def keys(ck, I, W, pt):
    w = loc(I, KY + "Key.from_series")
    glob = [("C", False), ("c", True), ("F#", False), ("bb", True), ("Ab", False), ("b", True), ("Fb", False), ("B#", False)]
    loc_ = ["I", "i", "V", "vi", "bIII", "#iv", "V/V", "ii/bVI", "VII"]
    rel = [NA, NAN, None, "V", "ii", "bII", "V/vi", "#vii"]
    for rr in rel:
        @section(ck, "key", f"{pt.name} relativeroot={rr if isinstance(rr, str) else 'missing'}", w)
        def _():
            for (g, mn), lk in itertools.product(glob, loc_):
                r = dict(globalkey=g, globalkey_is_minor=mn, localkey=lk, relativeroot=rr)
                st = St()
                s = summarise(I, KY + "Key.from_series", [row_of(I, st, r), pt], {}, st=st)
                outcome(ck, "key", f"{pt.name} relativeroot={rr if isinstance(rr, str) else 'missing'}", w, s, key_exp(W, r, pt), "Key", f"row {show(r)}")

    @section(ck, "key", f"{pt.name} unreadable", w)
    def _():
        for over in (dict(globalkey="H"), dict(localkey="VIII"), dict(localkey="X"), dict(relativeroot="V/"), dict(localkey="bbbbbbI"), dict(relativeroot="Q")):
            if pt == W.MIDI and over == dict(localkey="bbbbbbI"):
                continue
            r = {**KEYROW, **over}
            st = St()
            s = summarise(I, KY + "Key.from_series", [row_of(I, st, r), pt], {}, st=st)
            outcome(ck, "key", f"{pt.name} unreadable", w, s, None, "Key", f"row {show(r)}")


CROW = dict(numeral="V", root=1, chord_type="Mm7", figbass="65", mc=1, mc_next=2, mn_onset=Fraction(3, 8), mn_onset_next=Fraction(3, 8), duration=Fraction(9, 8), changes=NA, **KEYROW)


def chord_exp(W, I, r, pt, red=None, use_inversion=True, use_relative=True, key=None, order_sigs=None):
    if not isinstance(r["numeral"], str) or r["numeral"] == "@none":
        return None
    k = key or key_exp(W, r, pt)
    if k is None:
        return None
    n = W.hc("NUM_PITCHES")[pt]
    step = (lambda f: f) if pt == W.TPC else (lambda f: 7 * f)
    wrap = (lambda p: p) if pt == W.TPC else (lambda p: p % 12)
    root = wrap(k["local_tonic"] + step(r["root"]))
    if not 0 <= root < n:
        return None
    ctn = {**NAMES, "It": "DIMINISHED", "Ger": "DIM7", "Fr": "MAJ_MIN7"}.get(r["chord_type"])
    if ctn is None:
        return None
    ct = W.CT[ctn]
    if red:
        ct = red[ct]
    fb = r["figbass"] if isinstance(r["figbass"], str) else ""
    if use_inversion:
        if fb not in FIGURES:
            return None
        inv = FIGURES[fb] % len(tones(ct))
    else:
        inv = 0
    bass = wrap(root + step(tones(ct)[inv]))
    if not 0 <= bass < n:
        return None
    sg = {**SIGS, **(order_sigs or {})}
    return dict(
        root=root, bass=bass, key_tonic=k["relative_tonic" if use_relative else "local_tonic"], key_mode=k["relative_mode" if use_relative else "local_mode"],
        chord_type=ct, inversion=inv, onset=(r["mc"], r["mn_onset"]), onset_level=level(sg[r["mc"]], r["mn_onset"]),
        offset=(r["mc_next"], r["mn_onset_next"]), offset_level=level(sg[r["mc_next"]], r["mn_onset_next"]), duration=r["duration"], pitch_type=pt,
        suspension=r["changes"] if isinstance(r["changes"], str) else None,
    )


def chord_case(ck, I, W, pt, rule, subj, r, red=None, key=None, **opt):
    st = St()
    kw = dict(opt)
    if red:
        kw["reduction"] = DICT(I, st, red)
    ke = None
    if key:
        ke = {k: v for k, v in key.items()}
        kw["key"] = new_obj(I, KY + "Key", key, st)
    s = summarise(I, CH + "Chord.from_series", [row_of(I, st, r), mframe(I, st, (2, 0, 1, 3)), pt], kw, st=st)
    exp = chord_exp(W, I, r, pt, red, opt.get("use_inversion", True), opt.get("use_relative", True), ke)
    outcome(ck, rule, subj, loc(I, CH + "Chord.from_series"), s, exp, "Chord", f"row {show({k: v for k, v in r.items() if CROW.get(k) is not v})} {show(opt) if opt else ''}")


def chords(ck, I, W, pt):
    reds = reductions(W)
    for rn, red in reds.items():
        @section(ck, "chord", f"{pt.name} types reduction={rn}")
        def _():
            for nm, fb, ui in itertools.product(list(NAMES) + ["It", "Ger", "Fr"], list(FIGURES) + [NA], (True, False)):
                chord_case(ck, I, W, pt, "chord", f"{pt.name} types reduction={rn}", {**CROW, "chord_type": nm, "figbass": fb}, red, use_inversion=ui)

    @section(ck, "chord", f"{pt.name} roots and keys")
    def _():
        for root, (g, mn), lk, rr, ur in itertools.product((0, 1, -1, -2, 5, -3, 8), (("C", False), ("eb", True), ("G#", False)), ("I", "v", "bVI"), (NA, "V", "ii/V"), (True, False)):
            r = {**CROW, "root": root, "globalkey": g, "globalkey_is_minor": mn, "localkey": lk, "relativeroot": rr}
            chord_case(ck, I, W, pt, "chord", f"{pt.name} roots and keys", r, use_relative=ur)

    @section(ck, "chord", f"{pt.name} given key")
    def _():
        for ur in (True, False):
            chord_case(ck, I, W, pt, "chord", f"{pt.name} given key", dict(CROW), use_relative=ur, key=key_kw(W, relative_tonic=6, local_tonic=9, global_tonic=3, tonic_type=pt))
            chord_case(ck, I, W, pt, "chord", f"{pt.name} given key", dict(CROW), use_relative=ur, key=key_kw(W, relative_tonic=9, local_tonic=2, global_tonic=3, relative_mode=W.KM["MAJOR"], local_mode=W.KM["MINOR"], tonic_type=pt))

    @section(ck, "chord", f"{pt.name} positions and suspensions")
    def _():
        beats = [Fraction(0), Fraction(1, 8), Fraction(1, 4), Fraction(3, 8), Fraction(1, 2), Fraction(5, 16)]
        for a, b in itertools.product(range(4), repeat=2):
            for x, y in ((0, 3), (3, 1), (2, 4), (4, 2), (5, 0), (1, 5)):
                r = {**CROW, "mc": a, "mc_next": b, "mn_onset": beats[x], "mn_onset_next": beats[y], "duration": Fraction(7, 5)}
                chord_case(ck, I, W, pt, "chord", f"{pt.name} positions and suspensions", r)
        for ch in (NA, NAN, None, "4", "b6#4", "+2"):
            chord_case(ck, I, W, pt, "chord", f"{pt.name} positions and suspensions", {**CROW, "changes": ch})

    @section(ck, "chord", f"{pt.name} unlabelled or unreadable")
    def _():
        for over in (dict(numeral="@none"), dict(numeral=NA), dict(numeral=NAN), dict(chord_type="?"), dict(figbass="99"), dict(localkey="Z"), dict(root=60) if pt == W.TPC else dict(chord_type=""), dict(root=19, chord_type="o7", figbass="2") if pt == W.TPC else dict(figbass="x"), dict(globalkey="F", root=-16, figbass="6", chord_type="m") if pt == W.TPC else dict(globalkey="J")):
            st = St()
            r = {**CROW, **over}
            s = summarise(I, CH + "Chord.from_series", [row_of(I, st, r), mframe(I, st), pt], {}, st=st)
            exp = chord_exp(W, I, r, pt) if not isinstance(r["root"], ExtV) and over.get("globalkey") != "J" and over.get("localkey") != "Z" else None
            outcome(ck, "chord", f"{pt.name} unlabelled or unreadable", loc(I, CH + "Chord.from_series"), s, exp, "Chord", f"row {show(over)}")


def caches(ck, I, W):
    """one cache used for a sequence of rows in different meters gives the same levels as none"""
    w = loc(I, CH + "Chord.from_series")
    beats = [Fraction(0), Fraction(1, 8), Fraction(1, 4), Fraction(3, 8), Fraction(1, 2), Fraction(3, 4)]
    for order in ((0, 1, 2, 3), (3, 1, 0, 2), (1, 2, 0, 1)):
        st = St()
        mdf = mframe(I, st)
        cache = defaultdict_of(I, st)
        for i, mc in enumerate(order):
            for bt in beats:
                nxt = order[(i + 1) % 4]
                r = {**CROW, "mc": mc, "mc_next": nxt, "mn_onset": bt, "mn_onset_next": bt}
                st = step_(ck, I, W, st, CH + "Chord.from_series", [row_of(I, st, r), mdf, W.TPC], {"levels_cache": cache}, dict(onset_level=level(SIGS[mc], bt), offset_level=level(SIGS[nxt], bt)), f"chord at {mc}, {bt} then {nxt}, {bt}")
                nr = {**NROW, "mc": mc, "offset_mc": nxt, "mn_onset": bt, "offset_beat": bt}
                st = step_(ck, I, W, st, NT + "Note.from_series", [row_of(I, st, nr), mdf, W.TPC], {"levels_cache": cache}, dict(onset_level=level(SIGS[mc], bt), offset_level=level(SIGS[nxt], bt)), f"note at {mc}, {bt} to {nxt}, {bt}")
    # labels csv rows
    for order in ((0, 1, 2, 3), (2, 1, 3, 0)):
        st = St()
        mdf = lframe(I, st)
        cache = defaultdict_of(I, st)
        for mc in order:
            for bt in beats:
                on = STARTS[mc] + bt
                off = on + Fraction(1, 8)
                om, fm = measure_at(on), measure_at(off)
                r = {**LROW, "on": on, "off": off}
                ob, fb = on - STARTS[om], off - STARTS[fm]
                st = step_(ck, I, W, st, CH + "Chord.from_labels_csv_row", [row_of(I, st, r), mdf, W.TPC], {"levels_cache": cache}, dict(onset_level=level(SIGS[om], ob), offset_level=level(SIGS[fm], fb)), f"labels chord at {on}..{off}")


def step_(ck, I, W, st, fn, args, kw, exp, what):
    s = summarise(I, fn, args, kw, st=st)
    if len(s.rets) != 1 or s.raises:
        raise Undec("several outcomes")
    got = s.at({})
    if got[0] != "ret" or not isinstance(got[1], Obj):
        ck.bad("level", "shared cache", loc(I, fn), f"{what}: {show(got)}")
        raise Undec("no object")
    d = diff(fields(got[1], exp), exp)
    ck.add("level", "shared cache", not d, loc(I, fn), f"{what} with a cache shared between rows: {d}")
    return s.rets[0][0]


def defaultdict_of(I, st):
    import ast

    from sa.engine import Frame

    I.stack.append(Frame(I.get(CH + "Chord").mod, None))
    I.raises.append([])
    try:
        return I.call(ExtV("collections.defaultdict"), [ExtV("builtins.dict")], {}, st, ast.parse("0").body[0])
    finally:
        I.raises.pop()
        I.stack.pop()


NROW = dict(midi=61, tpc=7, mc=1, offset_mc=2, mn_onset=Fraction(3, 8), offset_beat=Fraction(1, 4), duration=Fraction(5, 8), mc_onset=Fraction(1, 16))


def notes(ck, I, W, pt):
    w = loc(I, NT + "Note.from_series")

    def case(subj, **over):
        r = {**NROW, **over}
        st = St()
        s = summarise(I, NT + "Note.from_series", [row_of(I, st, r), mframe(I, st, (3, 1, 2, 0)), pt], {}, st=st)
        n = W.hc("NUM_PITCHES")[pt]
        p = r["tpc"] + 15 if pt == W.TPC else r["midi"] % 12
        exp = None
        if 0 <= p < n:
            exp = dict(pitch_class=p, octave=r["midi"] // 12, onset=(r["mc"], r["mn_onset"]), onset_level=level(SIGS[r["mc"]], r["mn_onset"]), duration=r["duration"], offset=(r["offset_mc"], r["offset_beat"]), offset_level=level(SIGS[r["offset_mc"]], r["offset_beat"]), pitch_type=pt, mc_onset=r["mc_onset"])
        outcome(ck, "note", subj, w, s, exp, "Note", f"row {show(over)}")

    @section(ck, "note", f"{pt.name} pitches", w)
    def _():
        for m in (0, 11, 12, 59, 60, 71, 72, 119, 127):
            case(f"{pt.name} pitches", midi=m)
        for t in (-16, -15, -8, 0, 6, 12, 19, 20, 25):
            case(f"{pt.name} pitches", tpc=t)

    @section(ck, "note", f"{pt.name} positions", w)
    def _():
        for a, b in itertools.product(range(4), repeat=2):
            for x, y in ((Fraction(0), Fraction(3, 8)), (Fraction(3, 8), Fraction(1, 4)), (Fraction(1, 2), Fraction(0))):
                case(f"{pt.name} positions", mc=a, offset_mc=b, mn_onset=x, offset_beat=y, duration=Fraction(3, 7), mc_onset=Fraction(2, 9))


# ---------------------------------------------------------------- labels csv

STARTS = {0: Fraction(0), 1: Fraction(1), 2: Fraction(7, 4), 3: Fraction(5, 2)}
LROW = dict(on=Fraction(1, 4), off=Fraction(5, 4), key="C", degree="5", type="D7", inv=1)
LTYPES = {"D7": "MAJ_MIN7", "M": "MAJOR", "M7": "MAJ_MAJ7", "d": "DIMINISHED", "a": "AUGMENTED", "d7": "DIM7", "m": "MINOR", "m7": "MIN_MIN7", "h7": "HALF_DIM7", "Gr+6": "MAJOR", "Fr+6": "MAJOR", "It+6": "MAJOR"}
MODE_MAJ = {"1": "MAJOR", "#1": "MINOR", "b2": "MAJOR", "2": "MINOR", "b3": "MAJOR", "3": "MINOR", "b4": "MINOR", "4": "MAJOR", "#4": "MAJOR", "5": "MAJOR", "#5": "MAJOR", "6": "MINOR", "b7": "MAJOR", "7": "MINOR"}
MODE_MIN = {"b1": "MAJOR", "1": "MINOR", "b2": "MAJOR", "2": "MINOR", "3": "MAJOR", "b4": "MINOR", "4": "MINOR", "b5": "MINOR", "5": "MINOR", "6": "MAJOR", "b7": "MINOR", "7": "MAJOR", "#7": "MAJOR"}


def measure_at(t):
    return max(m for m, s in STARTS.items() if s <= t)


def lframe(I, st, offs=None):
    ms = sorted(STARTS)
    return pdm.frame(I, st, data={"mc": ms, "timesig": [SIGS[m] for m in ms], "start": [STARTS[m] for m in ms], "mc_offset": [(offs or {}).get(m, Fraction(0)) for m in ms], "act_dur": [Fraction(1)] * 4})


def lab_degree(s, minor, sixth):
    """degree in the usual spelling: in minor keys the plain 7th is the leading tone"""
    s = s.replace("-", "b").replace("+", "#")
    if minor and "7" in s:
        s = s[1:] if s[0] == "b" else "#" + s
    if minor:
        s = s.replace("##6", "#6") if sixth == "root" else s.replace("#6", "6")
    return s


def lab_key(W, r, pt, glob=None):
    k = r["key"].replace("-", "b").replace("+", "#")
    l = spelled(W, k, pt)
    lm = W.KM["MAJOR" if k[0].isupper() else "MINOR"]
    rt, rm = l, lm
    if "/" in r["degree"]:
        a = lab_degree(r["degree"].split("/")[1], lm.name == "MINOR", "applied")
        t = (MODE_MAJ if lm.name == "MAJOR" else MODE_MIN).get(a)
        if t is None:
            return "error"
        acc, body = strip_acc(a)
        f = fifths(lm, int(body), acc)
        rt = l + f if pt == W.TPC else (l + 7 * f) % 12
        rm = W.KM[t]
        if not 0 <= rt < W.hc("NUM_PITCHES")[pt]:
            return "error"
    return dict(relative_tonic=rt, local_tonic=l, global_tonic=glob[0] if glob else l, relative_mode=rm, local_mode=lm, global_mode=glob[1] if glob else lm, tonic_type=pt)


def lab_chord(W, r, pt, red=None, use_inversion=True, use_relative=True, offs=None):
    k = lab_key(W, r, pt)
    if not isinstance(k, dict):
        return k
    d = lab_degree(r["degree"].split("/")[0], k["relative_mode"].name == "MINOR", "root")
    acc, body = strip_acc(d)
    f = fifths(k["relative_mode"], int(body), acc)
    root = k["relative_tonic"] + f if pt == W.TPC else (k["relative_tonic"] + 7 * f) % 12
    n = W.hc("NUM_PITCHES")[pt]
    if not 0 <= root < n:
        return "error"
    ct = W.CT[LTYPES[r["type"]]]
    if red:
        ct = red[ct]
    inv = r["inv"] % len(tones(ct)) if use_inversion and "+6" not in r["type"] else 0
    f = tones(ct)[inv]
    bass = root + f if pt == W.TPC else (root + 7 * f) % 12
    if not 0 <= bass < n:
        return "error"
    om, fm = measure_at(r["on"]), measure_at(r["off"])
    o = lambda m: (offs or {}).get(m, 0)
    ob, fb = r["on"] - STARTS[om] + o(om), r["off"] - STARTS[fm] + o(fm)
    return dict(
        root=root, bass=bass, key_tonic=k["relative_tonic" if use_relative else "local_tonic"], key_mode=k["relative_mode" if use_relative else "local_mode"], chord_type=ct, inversion=inv,
        onset=(om, ob), onset_level=level(SIGS[om], ob), offset=(fm, fb), offset_level=level(SIGS[fm], fb), duration=r["off"] - r["on"], pitch_type=pt, suspension=None,
    )


def labels(ck, I, W, pt):
    wk = loc(I, KY + "Key.from_labels_csv_row")
    wc = loc(I, CH + "Chord.from_labels_csv_row")

    def kcase(subj, glob=None, **over):
        r = {**LROW, **over}
        exp = lab_key(W, r, pt, glob)
        if exp == "skip":
            return
        st = St()
        kw = {}
        if glob:
            kw["global_key"] = new_obj(I, KY + "Key", key_kw(W, relative_tonic=1, local_tonic=2, global_tonic=glob[0], global_mode=glob[1], tonic_type=pt), st)
        s = summarise(I, KY + "Key.from_labels_csv_row", [row_of(I, st, r), pt], kw, st=st)
        outcome(ck, "labels-key", subj, wk, s, exp, "Key", f"row {show(over)}")

    def ccase(subj, red=None, offs=None, **over):
        opt = {k: over.pop(k) for k in ("use_inversion", "use_relative") if k in over}
        r = {**LROW, **over}
        exp = lab_chord(W, r, pt, red, opt.get("use_inversion", True), opt.get("use_relative", True), offs)
        if exp == "skip":
            return
        st = St()
        kw = dict(opt)
        if red:
            kw["reduction"] = DICT(I, st, red)
        s = summarise(I, CH + "Chord.from_labels_csv_row", [row_of(I, st, r), lframe(I, st, offs), pt], kw, st=st)
        outcome(ck, "labels-chord", subj, wc, s, exp, "Chord", f"row {show(over)} {show(opt)}")

    ks = ["C", "a", "B-", "f+", "e-", "C+", "F", "b"]
    degs = ["1", "2", "3", "4", "5", "6", "7", "-2", "-7", "+4", "+1", "-6", "-3"]

    @section(ck, "labels-key", pt.name, wk)
    def _():
        for k in ks:
            kcase(pt.name, key=k)
            kcase(pt.name, glob=(4, W.KM["MINOR"]), key=k)
            for d in degs + ["+6", "+7", "-1", "-4", "-5", "+5", "--7"]:
                kcase(pt.name, key=k, degree=f"5/{d}")
                kcase(pt.name, key=k, degree=f"-7/{d}")

    for rn, red in reductions(W).items():
        @section(ck, "labels-chord", f"{pt.name} types reduction={rn}", wc)
        def _():
            for t, inv, ui in itertools.product(LTYPES, range(4), (True, False)):
                ccase(f"{pt.name} types reduction={rn}", red=red, type=t, inv=inv, use_inversion=ui)

    @section(ck, "labels-chord", f"{pt.name} degrees", wc)
    def _():
        for k, d in itertools.product(ks, degs + ["+6", "++6", "+7"]):
            ccase(f"{pt.name} degrees", key=k, degree=d)
            for ur in (True, False):
                ccase(f"{pt.name} degrees", key=k, degree=f"{d}/5", use_relative=ur)
                ccase(f"{pt.name} degrees", key=k, degree=f"{d}/2", use_relative=ur)

    @section(ck, "labels-chord", f"{pt.name} positions", wc)
    def _():
        ts = [Fraction(0), Fraction(1, 8), Fraction(1), Fraction(11, 8), Fraction(7, 4), Fraction(2), Fraction(5, 2), Fraction(3)]
        for on, off in itertools.combinations(ts, 2):
            ccase(f"{pt.name} positions", on=on, off=off)
            ccase(f"{pt.name} positions", on=on, off=off, offs={0: Fraction(1, 4), 1: Fraction(1, 8), 2: Fraction(1, 2)})
