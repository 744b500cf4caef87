"""C20: evaluation - accuracies, label and annotation tables, chord alterations."""
import itertools
from fractions import Fraction

from sa import pdm

from .c18 import get, plain, read, run_one
from .common import *

EU = PKG + "utils.eval_utils."
BS = PKG + "utils.beam_search_utils."
PI = PKG + "data.piece."
F = Fraction
# durations of the notes: sums of different sets of notes differ
DUR = [F(k, 16) for k in (1, 0, 2, 4, 0, 8, 16, 32)]
POS = [sum(DUR[:i], F(0)) for i in range(len(DUR) + 1)]


def place(t):
    return Tup((int(t), t - int(t)))


# ground truth and estimate: (chord, number of its first note), (key, number of its first chord); estimates end before the note given
CASES = {
    "all right": dict(
        gt=[((15, "MAJOR", 0), 0), ((16, "MAJ_MIN7", 2), 3), ((12, "MINOR", 1), 6)], gk=[((15, "MAJOR"), 0), ((18, "MINOR"), 2)],
        est=[((15, "MAJOR", 0), 3), ((16, "MAJ_MIN7", 2), 6), ((12, "MINOR", 1), 8)], ek=[((15, "MAJOR"), 3), ((15, "MAJOR"), 6), ((18, "MINOR"), 8)]),
    "parts": dict(
        gt=[((15, "MAJOR", 0), 0), ((16, "MAJ_MIN7", 2), 2), ((12, "MINOR", 1), 3), ((18, "DIM7", 3), 5), ((13, "HALF_DIM7", 0), 7)], gk=[((15, "MAJOR"), 0), ((15, "MINOR"), 2), ((18, "MINOR"), 3)],
        est=[((15, "MAJOR", 1), 2), ((16, "MAJOR", 2), 3), ((12, "MIN_MIN7", 1), 5), ((18, "DIM7", 3), 6), ((19, "DIM7", 3), 7), ((13, "DIMINISHED", 2), 8)],
        ek=[((15, "MAJOR"), 2), ((15, "MINOR"), 3), ((15, "MINOR"), 5), ((12, "MAJOR"), 6), ((18, "MINOR"), 7), ((18, "MAJOR"), 8)]),
    "one chord": dict(
        gt=[((14, "AUGMENTED", 2), 0)], gk=[((17, "MAJOR"), 0)],
        est=[((14, "AUGMENTED", 2), 3), ((14, "AUG_MAJ7", 2), 6), ((14, "AUGMENTED", 2), 8)], ek=[((17, "MAJOR"), 3), ((17, "MINOR"), 6), ((16, "MAJOR"), 8)]),
    "all wrong": dict(
        gt=[((15, "MAJOR", 0), 0), ((16, "MAJOR", 0), 4)], gk=[((15, "MAJOR"), 0)],
        est=[((16, "MAJOR", 0), 4), ((15, "MAJOR", 0), 8)], ek=[((16, "MAJOR"), 4), ((18, "MINOR"), 8)]),
    "held": dict(
        gt=[((15, "MAJOR", 0), 0), ((15, "MINOR", 0), 5), ((20, "MIN_MAJ7", 3), 6), ((9, "MAJ_MAJ7", 1), 7)], gk=[((12, "MINOR"), 0), ((13, "MAJOR"), 1), ((14, "MINOR"), 2), ((11, "MAJOR"), 3)],
        est=[((9, "MAJ_MAJ7", 1), 8)], ek=[((11, "MAJOR"), 8)]),
    "key alone": dict(
        gt=[((15, "MAJOR", 0), 0), ((16, "MINOR", 1), 5)], gk=[((15, "MAJOR"), 0), ((14, "MAJOR"), 1)],
        est=[((15, "MAJOR", 0), 3), ((15, "MAJOR", 0), 6), ((16, "MINOR", 1), 8)], ek=[((15, "MAJOR"), 3), ((16, "MINOR"), 6), ((14, "MAJOR"), 8)]),
}


class Case:
    def __init__(self, I, W, c, pt, kt, unannotated=False, susp=None):
        self.I, self.W, self.pt, self.kt, self.c = I, W, pt, kt, c
        self.st = st = St()
        T = W.CT
        n = len(DUR)
        notes = [new_obj(I, NT + "Note", note_kw(W, pitch_class=15 + i % 4, octave=5, onset=place(POS[i]), onset_level=0, duration=DUR[i], offset=place(POS[i + 1]), offset_level=0, mc_onset=F(i, 32)), st) for i in range(n)]
        chords = keys = changes = ranges = kchanges = None
        if not unannotated:
            changes = [a for _, a in c["gt"]]
            ends = changes[1:] + [n]
            ki = [k for _, k in c["gk"]]
            chords, keys = [], []
            for i, ((root, t, inv), a) in enumerate(c["gt"]):
                tonic, mode = [k for k, j in c["gk"] if j <= i][-1]
                chords.append(new_obj(I, CH + "Chord", chord_kw(W, root=root, bass=root + TONES[t][inv], key_tonic=tonic, key_mode=W.KM[mode], chord_type=T[t], inversion=inv, onset=place(POS[a]), offset=place(POS[ends[i]]), duration=POS[ends[i]] - POS[a], suspension=(susp or {}).get(i)), st))
            for tonic, mode in [k for k, _ in c["gk"]]:
                keys.append(new_obj(I, KY + "Key", key_kw(W, relative_tonic=tonic, relative_mode=W.KM[mode], local_tonic=tonic + 1, local_mode=W.KM["MAJOR"]), st))
            ranges = [Tup(x) for x in zip(changes, ends)]
            kchanges = ki
            chords, keys, changes, ranges, kchanges = (LIST(I, st, x) for x in (chords, keys, changes, ranges, kchanges))
        ms = pdm.frame(I, st, data={"mc": list(range(6)), "timesig": ["4/4"] * 6, "act_dur": [F(1)] * 6, "mc_offset": [F(0)] * 6, "next": list(range(1, 6)) + [pdm.NA]})
        self.piece = new_obj(I, PI + "ScorePiece", {}, st, [ms, LIST(I, st, notes), chords, keys, changes, ranges, kchanges])
        self.vocab = vocabulary(I, W, pt)
        self.kvocab = kvocabulary(I, W, kt)
        s = new_obj(I, BS + "State", dict(key=self.key_id(c["ek"][0][0])), st)
        ends = {e: k for k, e in c["ek"]}
        for ch, e in c["est"]:
            k = next(k for k, b in c["ek"] if b >= e)
            s = new_obj(I, BS + "State", dict(chord=self.chord_id(ch), key=self.key_id(k), change_index=e, prev_state=s), st)
        self.state = s

    def conv(self, p, t):
        return tpc_to_midi(p) if t == self.W.MIDI else p

    def chord_id(self, ch, pt=None):
        pt = pt or self.pt
        root, t, inv = ch
        return vocabulary(self.I, self.W, pt).index((self.conv(root, pt), self.W.CT[t], inv))

    def key_id(self, k, kt=None):
        kt = kt or self.kt
        return kvocabulary(self.I, self.W, kt).index((self.conv(k[0], kt), self.W.KM[k[1]]))

    def gt(self):
        """per note: ((root, type, inversion), (tonic, mode)) and the estimate"""
        c, out = self.c, []
        for i in range(len(DUR)):
            j = max(x for x, (_, a) in enumerate(c["gt"]) if a <= i)
            k = [k for k, b in c["gk"] if b <= j][-1]
            e = next(x for x, b in c["est"] if i < b)
            ek = next(x for x, b in c["ek"] if i < b)
            out.append((c["gt"][j][0], k, e, ek))
        return out

    def call(self, fn, *a, **kw):
        self.st, v = run_one(self.I, EU + fn, list(a), kw, self.st)
        return v


TONES = {"MAJOR": (0, 4, 1), "MINOR": (0, -3, 1), "DIMINISHED": (0, -3, -6), "AUGMENTED": (0, 4, 8), "MAJ_MAJ7": (0, 4, 1, 5), "MAJ_MIN7": (0, 4, 1, -2), "MIN_MAJ7": (0, -3, 1, 5), "MIN_MIN7": (0, -3, 1, -2), "DIM7": (0, -3, -6, -9), "HALF_DIM7": (0, -3, -6, -2), "AUG_MIN7": (0, 4, 8, -2), "AUG_MAJ7": (0, 4, 8, 5)}
MEMO = {}


def remember(I, W):
    """the vocabulary functions are functions of their arguments (C01, C02): analyse each once per pitch type"""
    full = {}
    for pt in (W.TPC, W.MIDI):
        full["get_chord_label_list", pt] = memo(I, "get_chord_label_list", (pt,), (("use_inversions", True),))
        full["get_key_label_list", pt] = memo(I, "get_key_label_list", (pt,))
        full["get_chord_from_one_hot_index", pt] = [Tup(x) for x in vocabulary(I, W, pt)]
        full["get_key_from_one_hot_index", pt] = [Tup(x) for x in kvocabulary(I, W, pt)]

    def hook(name):
        def hk(I, a, kw, st, node):
            if any(k not in ("use_inversions", "pitch_type") or k == "use_inversions" and v is not True for k, v in kw.items()):
                return NotImplemented
            a = list(a) + ([kw["pitch_type"]] if "pitch_type" in kw else [])
            if not a or (name, a[-1]) not in full:
                return NotImplemented
            vals = full[name, a[-1]]
            if name.endswith("list"):
                return LIST(I, st, list(vals)) if len(a) == 1 else NotImplemented
            if len(a) != 2 or isinstance(a[0], bool):
                return NotImplemented
            k = a[0]
            if isinstance(k, int):
                return vals[k] if -len(vals) <= k < len(vals) else I.raise_now(st, "IndexError", node)
            if isinstance(k, SliceV) and all(x is None or type(x) is int for x in (k.lo, k.hi, k.step)):
                return LIST(I, st, vals[k.lo:k.hi:k.step])
            return NotImplemented

        return hk

    for name in {n for n, _ in full}:
        I.hooks[HU + name] = hook(name)


def memo(I, name, args, kw=()):
    k = (id(I), name, args, kw)
    if k not in MEMO:
        st, v = run_one(I, HU + name, [x() if callable(x) else x for x in args], dict(kw), St())
        MEMO[k] = [tuple(x) if isinstance(x, list) else x for x in read(I, st, v)]
    return MEMO[k]


def vocabulary(I, W, pt):
    labels = memo(I, "get_chord_label_list", (pt,), (("use_inversions", True),))
    return memo(I, "get_chord_from_one_hot_index", (Slice(len(labels)), pt))


def kvocabulary(I, W, kt):
    return memo(I, "get_key_from_one_hot_index", (Slice(len(memo(I, "get_key_label_list", (kt,)))), kt))


def Slice(n):
    from sa.values import SliceV

    return SliceV(None, n, None)


def run(ck, I, tier):
    ck.rule("distance", "a chord's distance is 0 iff root, reduced type and (if asked) inversion agree, else 1; a key's iff tonic and (unless only tonics count) mode agree")
    ck.rule("chords", "chord accuracy: the share of the piece's duration in which estimate and annotation agree, under the reduction and inversion setting")
    ck.rule("keys", "key accuracy: the share of the piece's duration in which the keys agree")
    ck.rule("joint", "joint accuracy: the share in which both agree")
    ck.rule("results", "the results table has one row per note of positive duration with annotated and estimated chord and key, written in the asked pitch types")
    ck.rule("labels", "the labels table has one row per note of positive duration with annotated root, type, inversion, alterations, tonic, mode and position")
    ck.rule("annotation", "the annotation table has one row per change of the estimated key or chord, at the note where it changes")
    ck.rule("colours", "the label table marks each change of annotation or estimate green (same), yellow (same up to inversion and triad, or tonic), or red")
    ck.rule("alterations", "an altered chord tone is mapped to the pitch that replaces it; an addition replaces none; compound intervals are marked as an octave up")
    ck.rule("average", "averaging a log gives, per kind of accuracy, the mean of the values logged")
    ck.rule("pure", "evaluating changes neither the piece nor the hypothesis")
    W = World(I)
    I.max_rec = 12  # a hypothesis is a linked list
    remember(I, W)
    section(ck, "distance", "chords")(lambda: distances(ck, I, W))
    for name, c in CASES.items():
        for pt, kt in itertools.product((W.TPC, W.MIDI), repeat=2):
            subj = f"{name} {pt.name}/{kt.name}"
            section(ck, "chords", subj)(lambda: accuracy(ck, I, W, c, subj, pt, kt))
            section(ck, "results", subj)(lambda: results(ck, I, W, c, subj, pt, kt))
            section(ck, "annotation", subj)(lambda: annotation(ck, I, W, c, subj, pt, kt))
            section(ck, "colours", subj)(lambda: colours(ck, I, W, c, subj, pt, kt))
        section(ck, "annotation", f"{name} without annotation")(lambda: annotation(ck, I, W, c, f"{name} without annotation", W.TPC, W.TPC, True))
        section(ck, "results", f"{name} without annotation")(lambda: results(ck, I, W, c, f"{name} without annotation", W.TPC, W.TPC, True))
        section(ck, "labels", name)(lambda: labels(ck, I, W, c, name))
    section(ck, "alterations", "altered chords")(lambda: alterations(ck, I, W))
    section(ck, "average", "logs")(lambda: averages(ck, I, W))


def distances(ck, I, W):
    red = {k: v for k, v in reductions(W).items() if v}
    ts = [W.CT[t] for t in ("MAJOR", "MINOR", "MAJ_MIN7", "MAJ_MAJ7", "DIM7", "HALF_DIM7")]
    w = loc(I, EU + "get_chord_distance")
    for rn, r in red.items():
        for a, b in itertools.product(ts, ts):
            for ra, rb, ia, ib, inv in itertools.product((15, 3), (15,), (0, 2), (0, 1, 2), (True, False)):
                st = St()
                st, v = run_one(I, EU + "get_chord_distance", [ra, a, ia, rb, b, ib], dict(use_inversion=inv, reduction=DICT(I, st, r)), st)
                exp = 0 if ra == rb and r[a] == r[b] and (ia == ib or not inv) else 1
                if not ck.add("distance", f"chords {rn}", read(I, st, v) == exp, w, f"distance of {ra} {a.name} inv {ia} from {rb} {b.name} inv {ib} (inversions {inv}, {rn}): {show(v)}, required {exp}"):
                    return
    w = loc(I, EU + "get_key_distance")
    for a, b, x, y, only in itertools.product((15, 4), (15, 27), W.KM.values(), W.KM.values(), (True, False)):
        st, v = run_one(I, EU + "get_key_distance", [a, x, b, y], dict(tonic_only=only), St())
        exp = 0 if a == b and (only or x == y) else 1
        if not ck.add("distance", "keys", read(I, st, v) == exp, w, f"distance of {a} {x.name} from {b} {y.name} (tonic only {only}): {show(v)}, required {exp}"):
            return


def agree(C, c, e, inv, red):
    ty = (lambda t: red[C.W.CT[t]]) if red else (lambda t: t)
    root = lambda p: C.conv(p, C.pt)
    return root(c[0]) == root(e[0]) and ty(c[1]) == ty(e[1]) and (not inv or c[2] == e[2])


def kagree(C, k, e, only):
    return C.conv(k[0], C.kt) == C.conv(e[0], C.kt) and (only or k[1] == e[1])


def share(ok):
    return sum((d for d, o in zip(DUR, ok) if o), F(0)) / sum(DUR)


def num(ck, rule, subj, w, got, exp, what):
    good = isinstance(got, (int, float, F)) and not isinstance(got, bool) and abs(float(got) - float(exp)) < 1e-9
    return ck.add(rule, subj, good, w, f"{subj}: {what} {show(got)}, required {exp}")


def accuracy(ck, I, W, c, subj, pt, kt):
    C = Case(I, W, c, pt, kt)
    per = C.gt()
    reds = {"default": None, **{k: v for k, v in reductions(W).items() if v}}
    for (rn, r), inv in itertools.product(reds.items(), (True, False)):
        kw = dict(use_inversion=inv)
        if r:
            kw["reduction"] = DICT(I, C.st, r)
        v = C.call("evaluate_chords", C.piece, C.state, pt, **kw)
        num(ck, "chords", subj, loc(I, EU + "evaluate_chords"), read(I, C.st, v), share([agree(C, a, e, inv, r) for a, _, e, _ in per]), f"chord accuracy ({rn}, inversions {inv})")
    for only in (True, False):
        v = C.call("evaluate_keys", C.piece, C.state, kt, tonic_only=only)
        num(ck, "keys", subj, loc(I, EU + "evaluate_keys"), read(I, C.st, v), share([kagree(C, k, e, only) for _, k, _, e in per]), f"key accuracy (tonic only {only})")
    for (rn, r), inv, only in itertools.product(list(reds.items())[::2], (True, False), (True, False)):
        kw = dict(use_inversion=inv, tonic_only=only)
        if r:
            kw["chord_reduction"] = DICT(I, C.st, r)
        v = C.call("evaluate_chords_and_keys_jointly", C.piece, C.state, pt, kt, **kw)
        num(ck, "joint", subj, loc(I, EU + "evaluate_chords_and_keys_jointly"), read(I, C.st, v), share([agree(C, a, e, inv, r) and kagree(C, k, ek, only) for a, k, e, ek in per]), f"joint accuracy ({rn}, inversions {inv}, tonic only {only})")
    unchanged(ck, I, C, subj)


def unchanged(ck, I, C, subj):
    w = loc(I, EU + "evaluate_chords")
    C.st, v = get(I, C.st, C.piece, "get_chords")
    got = [(x.get("root"), x.get("chord_type"), x.get("inversion")) for x in read(I, C.st, v)]
    ck.add("pure", subj, got == [(r, C.W.CT[t], i) for (r, t, i), _ in C.c["gt"]], w, f"{subj}: the piece's chords are {show(got)} afterwards")
    C.st, v = get(I, C.st, C.state, "get_chords")
    got = read(I, C.st, v)
    ck.add("pure", subj, got == [[C.chord_id(x) for x, _ in C.c["est"]], [0] + [e for _, e in C.c["est"]]], w, f"{subj}: the hypothesis's chords are {show(got)} afterwards")


def table(I, st, v):
    """rows of a data frame as dictionaries"""
    c = I.cell(st, v)
    if not pdm.is_pd(c) or c.kind != "df":
        raise Undec("no table")
    ev = Evalr(I, st, {})
    val = lambda x: None if pdm.is_null(x) is True else ev(x)
    return [{ev(k): val(col[i]) for k, col in zip(c.cols, c.data)} for i in range(len(c.index))]


def tab(C, v):
    return table(C.I, C.st, v)


def rows(ck, rule, subj, w, got, exp):
    if not ck.add(rule, subj, len(got) == len(exp), w, f"{subj}: {len(got)} rows, required {len(exp)}"):
        return
    for i, (g, e) in enumerate(zip(got, exp)):
        for k in e:
            x = g.get(k, "missing")
            x = tuple(x) if isinstance(x, list) else x
            if not ck.add(rule, subj, x == e[k] or str(x) == str(e[k]), w, f"{subj}: row {i}, {k}: {show(x)}, required {show(e[k])}"):
                return


def results(ck, I, W, c, subj, pt, kt, unannotated=False):
    w = loc(I, EU + "get_results_df")
    C = Case(I, W, c, pt, kt, unannotated)
    for cp, kp in itertools.product((W.TPC, W.MIDI), repeat=2):
        if any(a == W.MIDI and b == W.TPC for a, b in ((pt, cp), (kt, kp))):
            continue  # a sounding pitch has several spellings
        got = tab(C, C.call("get_results_df", C.piece, C.state, pt, kt, cp, kp))
        cl, kl = memo(I, "get_chord_label_list", (cp,), (("use_inversions", True),)), memo(I, "get_key_label_list", (kp,))
        exp = []
        for d, (a, k, e, ek) in zip(DUR, C.gt()):
            if d and unannotated:
                exp.append(dict(est_key=kl[C.key_id(ek, kp)], est_chord=cl[C.chord_id(e, cp)], duration=d))
            elif d:
                exp.append(dict(gt_key=kl[C.key_id(k, kp)], gt_chord=cl[C.chord_id(a, cp)], est_key=kl[C.key_id(ek, kp)], est_chord=cl[C.chord_id(e, cp)], duration=d))
        rows(ck, "results", f"{subj} written in {cp.name}/{kp.name}", w, got, exp)


def annotation(ck, I, W, c, subj, pt, kt, unannotated=False):
    w = loc(I, EU + "get_annotation_df")
    C = Case(I, W, c, pt, kt, unannotated)
    got = tab(C, C.call("get_annotation_df", C.state, C.piece, pt, kt))
    cl, kl = memo(I, "get_chord_label_list", (pt,), (("use_inversions", True),)), memo(I, "get_key_label_list", (kt,))
    exp, pc, pk = [], None, None
    for i, (_, _, e, ek) in enumerate(C.gt()):
        if DUR[i]:
            at = dict(mc=int(POS[i]), mc_onset=F(i, 32), mn_onset=POS[i] - int(POS[i]))
            e, ek = C.chord_id(e), C.key_id(ek)
            if ek != pk:
                exp.append(dict(label=kl[ek], **at))
            if e != pc:
                exp.append(dict(label=cl[e], **at))
            pc, pk = e, ek
    rows(ck, "annotation", subj, w, got, exp)
    if unannotated:
        w = loc(I, EU + "get_label_df")
        got = tab(C, C.call("get_label_df", C.state, C.piece, pt, kt))
        rows(ck, "annotation", subj + " (labels)", w, got, exp)


def colours(ck, I, W, c, subj, pt, kt):
    w = loc(I, EU + "get_label_df")
    C = Case(I, W, c, pt, kt)
    got = tab(C, C.call("get_label_df", C.state, C.piece, pt, kt))
    cl, kl = memo(I, "get_chord_label_list", (pt,), (("use_inversions", True),)), memo(I, "get_key_label_list", (kt,))
    tri = W.const("data.data_types.TRIAD_REDUCTION")
    exp, prev = [], (None,) * 4
    for i, (a, k, e, ek) in enumerate(C.gt()):
        if not DUR[i]:
            continue
        at = dict(mc=int(POS[i]), mc_onset=F(i, 32), mn_onset=POS[i] - int(POS[i]))
        now = C.chord_id(a), C.key_id(k), C.chord_id(e), C.key_id(ek)
        if now[1] != prev[1] or now[3] != prev[3]:
            col = "green" if kagree(C, k, ek, False) else "yellow" if kagree(C, k, ek, True) else "red"
            exp.append(dict(label=kl[now[3]] if now[3] != prev[3] else "--", color_name=col, **at))
        if now[0] != prev[0] or now[2] != prev[2]:
            col = "green" if agree(C, a, e, True, None) else "yellow" if agree(C, a, e, False, tri) else "red"
            exp.append(dict(label=cl[now[2]] if now[2] != prev[2] else "--", color_name=col, **at))
        prev = now
    rows(ck, "colours", subj, w, got, exp)


SCALE = {"MAJOR": (0, 2, 4, -1, 1, 3, 5), "MINOR": (0, 2, -3, -1, 1, -4, -2)}
LETTERS = "FCGDAEB"


def altered(chord, key, changes):
    """[(replaced pitch or None, new pitch, an octave up)] of a list of (prefix, accidentals, number)"""
    root, t, _ = chord
    tonic, mode = key
    letter = lambda p: LETTERS[(p - 14) % 7]
    d = next(i for i in range(7) if letter(tonic + SCALE[mode][i]) == letter(root))
    tones = [root + x for x in TONES[t]]
    out = []
    for pre, acc, n in changes:
        new = tonic + SCALE[mode][(d + n - 1) % 7] + 7 * (acc.count("#") - acc.count("b"))
        old = None
        if pre == "^" or (not pre and acc.startswith("#") and n in (2, 4, 6)):
            if not (acc == "#" and n == 6 and not pre and len(tones) == 3):
                old = tones[n // 2]
        elif pre == "v" or (not pre and n in (2, 4, 6)):
            old = tones[n // 2 - 1]
        out.append((old, new, n >= 8))
    return out


ALTERED = [
    [("", "", 4)], [("", "", 6), ("", "", 4)], [("", "", 2)], [("", "b", 6)], [("", "#", 4)], [("", "#", 2)], [("", "#", 6)], [("^", "", 2)], [("v", "", 4)], [("^", "", 4)], [("v", "b", 6)], [("+", "", 2)], [("+", "b", 6)], [("+", "#", 4)],
    [("", "", 9)], [("", "b", 9), ("", "", 4)], [("", "", 13), ("", "", 2)], [("", "", 6), ("+", "", 2)], [("+", "", 2), ("", "", 4)], [("+", "", 4), ("", "", 6)], [("^", "", 2), ("+", "", 11), ("", "b", 6)], [("+", "", 2), ("+", "", 4)], [("", "", 9), ("+", "", 4), ("v", "", 6)],
    [("", "", 8)], [("", "", 9), ("", "", 8)], [("", "#", 11)], [("+", "", 7)], [("+", "", 8)], [("", "b", 13)], [("", "", 11), ("", "", 13)], [("", "", 10), ("", "", 4)], [("", "##", 4)], [("", "bb", 6)],
]


def spell(changes):
    return "".join(p + a + str(n) for p, a, n in changes)


def text(pairs, pitch):
    return [(None if o is None else pitch(o), ("+" if up else "") + str(pitch(p))) for o, p, up in pairs]


def alterations(ck, I, W):
    w = loc(I, HU + "get_added_and_removed_pitches")
    fn = HU + "get_added_and_removed_pitches"
    for ch in ((15, "MAJOR", 0), (16, "MAJ_MIN7", 0), (17, "MINOR", 0), (12, "MIN_MIN7", 0), (20, "DIM7", 0), (13, "MAJOR", 0), (18, "HALF_DIM7", 0)):
        for key in ((15, "MAJOR"), (18, "MINOR"), (14, "MAJOR"), (16, "MINOR")):
            for chg in ALTERED:
                try:
                    exp = sorted(((str(o) if o is not None else "", p) for o, p in text(altered(ch, key, chg), lambda p: p)))
                except IndexError:
                    continue
                st, v = run_one(I, fn, [ch[0], W.CT[ch[1]], spell(chg), key[0], W.KM[key[1]]], {}, St())
                got = sorted(pairs(I, st, v))
                if not ck.add("alterations", spell(chg), got == exp, w, f"{ch[0]} {ch[1]} ({spell(chg)}) in {key[0]} {key[1]}: {show(got)}, required {show(exp)}"):
                    break
    w = loc(I, HU + "split_changes_into_list")
    for chg in ALTERED:
        st, v = run_one(I, HU + "split_changes_into_list", [spell(chg)], {}, St())
        ck.add("alterations", "split", read(I, st, v) == [spell([x]) for x in chg], w, f"{spell(chg)} is split into {show(read(I, st, v))}")


def pairs(I, st, v):
    """a mapping, or a sequence of pairs"""
    c = I.cell(st, v)
    if c is not None and c.kind == "dict":
        return [(Evalr(I, st, {})(a), Evalr(I, st, {})(b)) for a, b in c.items]
    r = read(I, st, v)
    if not isinstance(r, list):
        raise Undec("no mapping")
    return [tuple(x) for x in r]


def labels(ck, I, W, c, subj):
    w = loc(I, EU + "get_labels_df")
    for susp, tpc_c in (({}, None), ({0: [("", "", 6), ("", "", 4)], 2: [("+", "", 2)]}, None), ({len(c["gt"]) - 1: [("", "", 9)], 1: [("", "", 4)]}, 0)):
        susp = {i: s for i, s in susp.items() if i < len(c["gt"])}
        C = Case(I, W, c, W.TPC, W.TPC, susp={i: spell(s) for i, s in susp.items()})
        kw = {} if tpc_c is None else {"tpc_c": tpc_c}
        got = tab(C, C.call("get_labels_df", C.piece, **kw))
        sh = 0 if tpc_c is None else tpc_c - 15
        exp = []
        for i, (a, k, _, _) in enumerate(C.gt()):
            if not DUR[i]:
                continue
            j = max(x for x, (_, b) in enumerate(c["gt"]) if b <= i)
            al = altered(a, k, susp[j]) if j in susp else []
            join = lambda f: ";".join(sorted(f"{'' if o is None else o}:{p}" for o, p in text(al, f)))
            exp.append(dict(chord_root_tpc=a[0] + sh, chord_root_midi=tpc_to_midi(a[0]), chord_type=W.CT[a[1]], chord_inversion=a[2], chord_suspension_tpc=join(lambda p: p + sh), chord_suspension_midi=join(tpc_to_midi), key_tonic_tpc=k[0] + sh, key_tonic_midi=tpc_to_midi(k[0]), key_mode=W.KM[k[1]], duration=DUR[i], mc=int(POS[i]), mn_onset=POS[i] - int(POS[i])))
        for g in got:
            for col in ("chord_suspension_tpc", "chord_suspension_midi"):
                if isinstance(g.get(col), str):
                    g[col] = ";".join(sorted(g[col].split(";")))
        rows(ck, "labels", f"{subj} alterations {[spell(s) for s in susp.values()]} C={tpc_c}", w, got, exp)


LOG = [
    "INFO:root:Running piece 1: a/b.tsv\n", "INFO:root:Chord accuracy = 0.5\n", "INFO:root:Key accuracy, tonic only = 1.0\n", "INFO:root:beam = 5\n", "INFO:root:a = b = 3\n", "\n",
    "INFO:root:Chord accuracy = 0.25\n", "INFO:root:Key accuracy, tonic only = 0.0\n", "INFO:root:Full accuracy = 0.125\n", "INFO:root:Chord accuracy=0.25\n",
]


def averages(ck, I, W):
    w = loc(I, EU + "average_results")
    for n in (0, 2, len(LOG)):
        lines = LOG[:n]
        want = {}
        for l in lines:
            p = l.split(" = ")
            if len(p) == 2 and "accuracy" in p[0]:
                want.setdefault(p[0].strip(), []).append(float(p[1]))
        want = {k: sum(v) / len(v) for k, v in want.items()}
        st = St()
        f = new_obj(I, "vdata.Text", {}, st, [LIST(I, st, lines)])
        I.hooks["builtins.open"] = lambda I, a, kw, st, n: f
        try:
            st, v = run_one(I, EU + "average_results", ["log.txt"], {}, st)
        finally:
            I.hooks.pop("builtins.open", None)
        got = dict(pairs(I, st, v))
        ck.add("average", f"{n} lines", got == want, w, f"averages of {n} lines: {show(got)}, required {show(want)}")
