"""C15: the joint model - vocabularies, forced labels, chord ranges, search, model inputs."""
import itertools
import math
from fractions import Fraction

from sa import nd
from sa.engine import OCell
from .common import *
from .c13 import do

JM = PKG + "models.joint_model."
HM = JM + "HarmonicInferenceModel"
PITCH_ATTRS = ("INPUT_PITCH", "PITCH_TYPE", "OUTPUT_PITCH", "INPUT_CHORD_PITCH_TYPE", "OUTPUT_PITCH_TYPE", "INPUT_KEY_PITCH_TYPE")
MODELS = ("ccm", "ctm", "csm", "ktm", "ksm", "icm")


class Joint:
    """the joint model as its constructor builds it from models of the registered classes"""

    def __init__(self, I, W, pt, models=None, attrs=None, over=None, **kw):
        self.I, self.W, self.pt = I, W, pt
        self.st = St()
        st = self.st
        classes = W.const("models.joint_model.MODEL_CLASSES")
        score = I.get(PKG + "data.data_types.PieceType").members[0]
        self.models = {}
        for k in MODELS:
            if k not in classes:
                raise AnalysisBroken(f"anchor vanished: model kind {k}")
            cls = classes[k][0]
            a = {"INPUT_TYPE": score, "reduction": None, "use_inversions": True, "input_reduction": None, "output_reduction": None, "use_inversions_input": True, "use_output_inversions": True, "use_inversions_output": True}
            a.update({n: pt for n in PITCH_ATTRS})
            a.update((over or {}).get(k, {}))
            self.models[k] = I.new(st, OCell(cls, {n: DICT(I, st, v) if isinstance(v, dict) else v for n, v in a.items()}))
        d = DICT(I, st, {k: self.models[k] for k in MODELS if (models is None or k in models)})
        f, _ = I.get(HM).lookup("__init__")
        o = I.new(st, OCell(I.get(HM), {}))
        self.st, self.built = do(I, st, o, "__init__", d, **kw)
        self.o = o
        if attrs:
            self.set(**attrs)

    def set(self, **kw):
        c = self.I.cell(self.st, self.o)
        self.I.put(self.st, self.o, OCell(c.cls, {**c.attrs, **kw}, c.origin))

    def get(self, name):
        v = self.I.cell(self.st, self.o).attrs[name]
        return Evalr(self.I, self.st, {})(v)

    def do(self, name, *a, **kw):
        self.st, r = do(self.I, self.st, self.o, name, *a, **kw)
        return r

    def SET(self, xs):
        from sa.engine import SCell

        return self.I.new(self.st, SCell(list(xs)))

    def ARR(self, xs):
        return nd.mk(self.I, self.st, (len(xs),), list(xs))

    def piece(self, dur, fcc=(), fcn=(), fkc=(), fkn=(), fc=None, fk=None, cid=None, kid=None):
        n = len(dur)
        self.set(
            duration_cache=self.ARR([Fraction(d) for d in dur]),
            onset_cache=LIST(self.I, self.st, [Tup((0, Fraction(i, 4))) for i in range(n + 1)]),
            onset_level_cache=LIST(self.I, self.st, [i % 4 for i in range(n + 1)]),
            forced_chord_changes=self.SET(fcc), forced_chord_non_changes=self.SET(fcn),
            forced_key_changes=self.SET(fkc), forced_key_non_changes=self.SET(fkn),
            forced_chords=DICT(self.I, self.st, {Tup(k): v for k, v in (fc or {}).items()}),
            forced_keys=DICT(self.I, self.st, {Tup(k): v for k, v in (fk or {}).items()}),
            forced_chord_ids=self.ARR(cid or [-1] * n), forced_key_ids=self.ARR(kid or [-1] * n),
        )


def run(ck, I, tier):
    ck.rule("build", "the joint model is built exactly from a complete set of models with matching pitch types and consistent probability thresholds; its chord, key and relative-key labels list, by id, what the classifier's and the key model's outputs mean")
    ck.rule("forced", "forced labels are accepted exactly if they are in range and do not contradict each other, and then loaded into the per-input ids; otherwise ArgumentError")
    ck.rule("probs", "forced chord and key changes get change probability 1, forced non-changes 0, others keep theirs")
    ck.rule("ranges", "the chord ranges are those between positions where a change may happen, which do not pass a certain change, a length above the limit, or two different forced labels; each reachable from the start; with the log-probability of changing exactly at the end")
    ck.rule("models", "each model is run on its hypothesis's input, reduced as its own settings say, with the hypothesis's hidden states, and its output and hidden states go to that hypothesis")
    ck.rule("keys", "a hypothesis which changes key branches into the likeliest keys: up to the branching limit or the target probability, never its own key, only representable ones, only the forced key if there is one, each weighted by prior, exponent and length")
    ck.rule("search", "the search returns a path from the start to the end of the piece over given ranges, with chords among the classifier's best, key changes only where possible, every forced label respected, scored by the sum of its parts; the best path, when it leads at every position")
    ck.rule("harmony", "estimating a piece runs the chord change model on the piece's notes and the classifier on the notes of each possible range, untransposed, and searches with what they answer and the forced labels given")
    W = World(I)
    I.max_rec = 12
    section(ck, "build", "labels")(lambda: labels(ck, I, W, tier))
    section(ck, "build", "refusals")(lambda: refusals(ck, I, W))
    section(ck, "forced", "validation")(lambda: forced(ck, I, W, tier))
    section(ck, "probs", "probabilities")(lambda: probs(ck, I, W))
    section(ck, "ranges", "ranges")(lambda: ranges(ck, I, W, tier))
    for pt in W.PT.values():
        for red in (None, "mixed"):
            section(ck, "models", f"key change probabilities {pt.name} {red}")(lambda: ktm_step(ck, I, W, pt, red))
            section(ck, "models", f"chord priors {pt.name} {red}")(lambda: csm_step(ck, I, W, pt, red))
            section(ck, "models", f"key changes {pt.name} {red}")(lambda: ksm_step(ck, I, W, pt, red))
        section(ck, "search", pt.name)(lambda: search(ck, I, W, pt, tier))
        for i in range(len(HARMONY) if tier == "thorough" or pt == W.MIDI else len(HARMONY) - 1):
            section(ck, "harmony", f"{HARMONY[i][0]} {pt.name}")(lambda: harmony(ck, I, W, pt, i))


def labels(ck, I, W, tier):
    w = loc(I, HM + ".__init__")
    reds = reductions(W)
    for pt in W.PT.values():
        for rn, red in reds.items():
            for inv in (True, False):
                if tier == "quick" and rn not in ("default", "mixed") and inv:
                    continue
                J = Joint(I, W, pt, over={"ccm": {"reduction": red, "use_inversions": inv}})
                if J.built[0] != "ret":
                    ck.bad("build", "labels", w, f"building raises {J.built[1]}")
                    continue
                L = J.get("LABELS")
                f = lambda n, *a, **k: const(I, HU + n, a, k)
                exp = f("get_chord_from_one_hot_index", SL(), pt, use_inversions=inv, reduction=red)
                ck.add("build", f"chord labels {pt.name} {rn} inversions={inv}", val_eq(L["chord"], exp), w, f"chord labels are not the classifier's vocabulary ({pt.name}, reduction {rn}, use_inversions={inv}): {len(L['chord'])} labels for {len(exp)} outputs")
        J = Joint(I, W, pt)
        L = J.get("LABELS")
        exp = const(I, HU + "get_key_from_one_hot_index", (SL(), pt), {})
        ck.add("build", f"key labels {pt.name}", val_eq(L["key"], exp), w, "key labels are not the key vocabulary")
        for i, (mode, interval) in enumerate(L["relative_key"]):
            k = const(I, HU + "get_key_change_one_hot_index", (mode, interval, pt), {}) if False else None
        n = W.hc("NUM_PITCHES")[pt]
        lo, hi = (W.hc("MIN_KEY_CHANGE_INTERVAL_TPC"), W.hc("MAX_KEY_CHANGE_INTERVAL_TPC")) if pt == W.TPC else (0, 12)
        exp = [(m, i) for m in W.KeyMode.members for i in range(lo, hi)]
        ck.add("build", f"relative key labels {pt.name}", val_eq(L["relative_key"], exp), w, f"relative key labels are not the key model's outputs in order ({pt.name})")


def SL():
    from sa.values import SliceV

    return SliceV(None, None, None)


def const(I, fn, args, kw):
    st = St()
    kw = {k: DICT(I, st, v) if isinstance(v, dict) else v for k, v in kw.items()}
    rets, raises = I.run(I.get(fn), list(args), kw, st=st)
    if len(rets) != 1 or raises:
        raise Undec(fn)
    return Evalr(I, rets[0][0], {})(rets[0][1])


def refusals(ck, I, W):
    w = loc(I, HM + ".__init__")
    other = {W.TPC: W.MIDI, W.MIDI: W.TPC}

    def built(what, ok, **kw):
        J = Joint(I, W, kw.pop("pt", W.TPC), **kw)
        good = (J.built[0] == "ret") == ok
        ck.add("build", what, good, w, f"{what}: {'refused with ' + str(J.built[1].cls) if J.built[0] != 'ret' else 'accepted'}, required {'acceptance' if ok else 'refusal'}")
        return J

    h = Fraction(1, 2)
    built("equal thresholds", True, min_chord_change_prob=h, max_no_chord_change_prob=h, min_key_change_prob=h, max_no_key_change_prob=h)
    built("contradictory chord thresholds", False, min_chord_change_prob=Fraction(6, 10), max_no_chord_change_prob=h)
    built("contradictory key thresholds", False, min_key_change_prob=Fraction(6, 10), max_no_key_change_prob=h)
    for k in MODELS:
        built(f"missing {k}", False, models=[m for m in MODELS if m != k])
    # one pitch type differing from the model it is connected to
    for k, a in (("ctm", "PITCH_TYPE"), ("csm", "INPUT_CHORD_PITCH_TYPE"), ("ksm", "INPUT_CHORD_PITCH_TYPE"), ("ksm", "INPUT_KEY_PITCH_TYPE"), ("csm", "INPUT_KEY_PITCH_TYPE"), ("ktm", "INPUT_KEY_PITCH_TYPE"), ("icm", "PITCH_TYPE")):
        for pt in W.PT.values():
            built(f"{k}.{a} of another pitch type than {pt.name}", False, pt=pt, over={k: {a: other[pt]}})
    J = built("parameters", True, min_chord_change_prob=Fraction(1, 10), max_no_chord_change_prob=Fraction(2, 10), max_chord_length=Fraction(3), min_key_change_prob=Fraction(4, 10), max_no_key_change_prob=Fraction(5, 10), beam_size=6, max_chord_branching_factor=7, target_chord_branch_prob=Fraction(8, 10), max_key_branching_factor=9, target_key_branch_prob=Fraction(7, 10), hash_length=11, ksm_exponent=Fraction(12))
    exp = dict(min_chord_change_prob=Fraction(1, 10), max_no_chord_change_prob=Fraction(2, 10), max_chord_length=3, min_key_change_prob=Fraction(4, 10), max_no_key_change_prob=Fraction(5, 10), beam_size=6, max_chord_branching_factor=7, target_chord_branch_prob=Fraction(8, 10), max_key_branching_factor=9, target_key_branch_prob=Fraction(7, 10), hash_length=11, ksm_exponent=12)
    for k, v in exp.items():
        ck.add("build", f"parameter {k}", val_eq(J.get(k), v), w, f"{k}={v} given, {J.get(k)} kept")


def forced_oracle(n, dur, chg, non, lab, nl):
    """chg/non/lab/nl: {'chord': .., 'key': ..}; None for refusal or the per-input ids"""
    ids = {}
    for t in ("chord", "key"):
        c = set(chg[t]) - {0}
        nc = set(non[t])
        if any(i >= n for i in c) or any(i >= n for i in nc):
            return None
        if c & nc:
            return None
        if any(dur[i - 1] == 0 for i in c):
            return None
        a = [-1] * n
        for (s, e), x in lab[t].items():
            if not 0 <= x < nl[t]:
                return None
            for i in range(s, min(e, n)):
                if a[i] not in (-1, x):
                    return None
                a[i] = x
        if any(a[i - 1] == a[i] != -1 for i in c):
            return None
        if any(a[i - 1] != a[i] and -1 not in (a[i - 1], a[i]) for i in nc if i > 0):
            return None
        ids[t] = a
    for i in set(chg["key"]) - {0}:
        if i in non["chord"] or ids["chord"][i - 1] == ids["chord"][i] != -1:
            return None
    for i in non["chord"]:
        a = ids["key"]
        if i > 0 and a[i - 1] != a[i] and -1 not in (a[i - 1], a[i]):
            return None
    return ids


def forced(ck, I, W, tier):
    w = loc(I, HM + "._validate_and_load_forced_labels")
    for pt in W.PT.values():
        J0 = Joint(I, W, pt, over={"ccm": {"use_inversions": False, "reduction": W.const("data.data_types.TRIAD_REDUCTION")}})
        if J0.built[0] != "ret":
            raise Undec("constructor")
        L = J0.get("LABELS")
        nl = {"chord": len(L["chord"]), "key": len(L["key"])}
        base = J0.st
        for dur, chg, non, lab in force_cases(nl, tier):
            J0.st = base.copy()
            J0.piece(dur, chg["chord"], non["chord"], chg["key"], non["key"], lab["chord"], lab["key"])
            exp = forced_oracle(len(dur), dur, chg, non, lab, nl)
            r = J0.do("_validate_and_load_forced_labels")
            what = f"durations {[str(d) for d in dur]}, changes {chg}, non-changes {non}, labels {lab} ({pt.name}; {nl['chord']} chords, {nl['key']} keys)"
            if exp is None:
                ck.add("forced", "refused", r[0] == "raise" and r[1].cls == "ArgumentError", w, f"{what}: {'accepted' if r[0] == 'ret' else 'ends in ' + str(r[1].cls)}, required ArgumentError")
            else:
                ck.add("forced", "accepted", r[0] == "ret", w, f"{what}: refused with {r[1].cls if r[0] != 'ret' else ''}")
                if r[0] == "ret":
                    for t in ("chord", "key"):
                        got = J0.get(f"forced_{t}_ids")
                        ck.add("forced", f"{t} ids", val_eq(list(got), exp[t]), w, f"{what}: {t} ids {list(got)}, required {exp[t]}")
                        c = J0.get(f"forced_{t}_changes")
                        ck.add("forced", f"{t} changes", set(c) == set(chg[t]) - {0}, w, f"{what}: forced {t} changes {sorted(c)} remain")


def force_cases(nl, tier):
    D = [1, 1, 0, 1, 2]

    def case(dur=D, cc=(), cn=(), kc=(), kn=(), c=None, k=None):
        return dur, {"chord": list(cc), "key": list(kc)}, {"chord": list(cn), "key": list(kn)}, {"chord": dict(c or {}), "key": dict(k or {})}

    yield case()
    for t in "ck":
        g = lambda **kw: case(**{(t if a == "l" else t + a): v for a, v in kw.items()})
        m = nl["chord" if t == "c" else "key"]
        for i in range(6):
            yield g(c=[i])
            yield g(n=[i])
        yield g(c=[0, 1, 4])
        yield g(c=[1, 4], n=[2])
        yield g(c=[1, 4], n=[2, 4])
        yield g(c=[1, 5])
        yield g(n=[1, 5])
        for x in (-1, 0, m - 1, m, m + 1):
            yield g(l={(1, 3): x})
        for a, b in (((0, 2), (2, 4)), ((0, 3), (2, 4)), ((2, 4), (0, 3)), ((1, 4), (2, 3)), ((0, 5), (4, 5)), ((0, 1), (4, 5))):
            for y in (3, 4):
                yield g(l={a: 3, b: y})
                for i in (1, 2, 4):
                    yield g(l={a: 3, b: y}, c=[i])
                    yield g(l={a: 3, b: y}, n=[i])
        yield g(l={(0, 3): 0, (3, 5): 0}, c=[4])
        yield g(l={(0, 3): 0}, n=[3])
        yield g(l={(3, 5): 0}, n=[3])
        yield g(l={(0, 5): 7})
        yield g(l={(4, 5): 7})
    # between chords and keys
    for i in (1, 2, 4):
        for j in (1, 4):
            yield case(kc=[j], cn=[i])
            yield case(kc=[j], c={(0, 2): 5, (3, 5): 5})
            yield case(kc=[j], c={(0, 5): 5})
            yield case(kc=[j], c={(0, i): 5, (i, 5): 6})
            yield case(cn=[j], k={(0, i): 5, (i, 5): 6})
            yield case(cn=[j], k={(0, i): 5, (i, 5): 5})
            yield case(cn=[j], k={(0, i): 5})
            yield case(cc=[j], k={(0, 5): 5})
            yield case(kn=[j], cc=[i])
            yield case(kn=[j], c={(0, i): 5, (i, 5): 6})
    yield case(dur=[0, 0, 1], cc=[1])
    yield case(dur=[0, 0, 1], cc=[2])
    yield case(dur=[0, 1, 1], kc=[2])
    yield case(dur=[2], cc=[0], kc=[0], c={(0, 1): 2}, k={(0, 1): 3})


def probs(ck, I, W):
    w = loc(I, HM + "._apply_forced_chord_changes")
    n = 5
    for cc, kc, cn in itertools.product(([], [1], [2, 4], [4]), ([], [1], [2], [3, 4]), ([], [3], [1, 2], [4])):
        if set(cn) & (set(cc) | set(kc)):
            continue
        J = Joint(I, W, W.TPC)
        J.piece([1] * n, cc, cn, kc)
        a = J.ARR([T("sym", f"p{i}", "num") for i in range(n)])
        r = J.do("_apply_forced_chord_changes", a)
        if r[0] != "ret":
            ck.bad("probs", "applied", w, f"chord changes {cc}, key changes {kc}, non-changes {cn}: raises {r[1].cls}")
            continue
        env = {f"p{i}": Fraction(i + 3, 13) for i in range(n)}
        got = list(Evalr(I, J.st, env)(a))
        exp = [1 if i in cc or i in kc else 0 if i in cn else env[f"p{i}"] for i in range(n)]
        ck.add("probs", "applied", val_eq(got, exp), w, f"chord changes {cc}, key changes {kc}, chord non-changes {cn}: change probabilities {got} from {list(env.values())}, required {exp}")


LO, MIN, MID, MAX, HI = Fraction(1, 10), Fraction(2, 10), Fraction(5, 10), Fraction(7, 10), Fraction(9, 10)


def ln(x):
    return math.log(x) if x > 0 else -math.inf


def ranges_oracle(p, dur, cid, kid, limit):
    n = len(p)
    out = {}
    todo, seen = [0], {0}
    while todo:
        s = todo.pop()
        for e in range(s + 1, n + 1):
            inner = [i for i in range(s + 1, e) if dur[i - 1] != 0]
            if any(p[i] > MAX for i in inner):
                break
            if len(set(cid[s:e]) - {-1}) > 1 or len(set(kid[s:e]) - {-1}) > 1:
                break
            # the last input's own length does not limit the piece's last chord
            if sum(dur[s:min(e, n - 1)]) > limit:
                break
            if e < n and (dur[e - 1] == 0 or p[e] < MIN):
                continue
            out[s, e] = sum(ln(1 - p[i]) for i in inner) + (ln(p[e]) if e < n else 0)
            if e < n and e not in seen:
                seen.add(e)
                todo.append(e)
    return out


def close(a, b):
    try:
        return a == b or abs(a - b) < 1e-9
    except TypeError:
        return False


def range_cases(tier):
    K = (LO, MIN, MID, MAX, HI)
    none = [-1] * 4
    for ps in itertools.product(K, repeat=3):
        for dur, lim in (((1, 1, 1, 1), 8), ((1, 0, 1, 1), 8), ((0, 1, 0, 1), 8), ((1, 2, 1, 1), 2), ((2, 1, 1, 3), 3)):
            yield (MID,) + ps, dur, none, none, lim
    for ids in itertools.product((-1, 3, 4), repeat=4):
        for dur in ((1, 1, 1, 1), (1, 0, 1, 1), (0, 0, 1, 1)):
            yield (MID,) * 4, dur, list(ids), none, 8
            yield (MID,) * 4, dur, none, list(ids), 8
            if tier == "thorough":
                for jds in itertools.product((-1, 5, 6), repeat=4):
                    yield (MID,) * 4, dur, list(ids), list(jds), 8
        yield (LO, HI, LO, MID), (1, 1, 1, 1), list(ids), list(reversed(ids)), 8
    for p in ((MID, Fraction(1), Fraction(0), MID, MID, Fraction(1)), (LO, Fraction(0), Fraction(1), Fraction(0), HI, MID), (MID,) * 6):
        for dur in ((1, 1, 1, 1, 1, 1), (0, 1, 0, 1, 1, 0), (1, 2, 3, 4, 5, 6)):
            for lim in (1, 3, 5, 6, 20):
                yield p, dur, [-1] * 6, [-1] * 6, lim
    yield (MID,), (4,), [3], [-1], 2
    yield (HI, HI), (4, 1), [3, 3], [-1, 2], 4


def ranges(ck, I, W, tier):
    w = loc(I, HM + ".get_chord_ranges")
    J = Joint(I, W, W.TPC, min_chord_change_prob=MIN, max_no_chord_change_prob=MAX)
    base = J.st
    for p, dur, cid, kid, lim in range_cases(tier):
        J.st = base.copy()
        J.piece(dur, cid=cid, kid=kid)
        J.set(max_chord_length=Fraction(lim))
        a = J.ARR(list(p))
        r = J.do("get_chord_ranges", a)
        what = f"change probabilities {[float(x) for x in p]} (change possible from {float(MIN)}, certain above {float(MAX)}), durations {list(dur)} (limit {lim}), forced chords {cid}, forced keys {kid}"
        if r[0] != "ret":
            ck.bad("ranges", "set", w, f"{what}: raises {r[1].cls}")
            continue
        rg, lp, rj = Evalr(I, J.st, {})(r[1])
        exp = ranges_oracle(p, dur, cid, kid, lim)
        rg = [tuple(x) for x in rg]
        ck.add("ranges", "set", sorted(rg) == sorted(exp), w, f"{what}: ranges {sorted(rg)}, required {sorted(exp)}")
        ck.add("ranges", "parallel", len(rg) == len(lp) == len(rj), w, f"{what}: {len(rg)} ranges, {len(lp)} probabilities, {len(rj)} rejoin probabilities")
        for (s, e), x, y in zip(rg, lp, rj):
            if (s, e) in exp:
                ck.add("ranges", "log-probability", close(x, exp[s, e]), w, f"{what}: log-probability of range {(s, e)} is {x}, required {exp[s, e]}")
                if s > 0 and 0 < p[s] < 1:
                    ck.add("ranges", "rejoin", close(y, ln(1 - p[s]) - ln(p[s])), w, f"{what}: rejoining at {s} changes the log-probability by {y}, required {ln(1 - p[s]) - ln(p[s])}")


class Hyps:
    """hypotheses of a joint model whose networks are replaced by recording stand-ins"""

    def __init__(self, I, W, pt, red, which, outputs, dims):
        self.I, self.W, self.pt = I, W, pt
        self.J = J = Joint(I, W, pt)
        st = J.st
        red = reductions(W)["mixed"] if red else None
        self.red = red
        names = {"ktm": ("reduction", "use_inversions"), "ksm": ("reduction", "use_inversions"), "csm": ("input_reduction", "use_inversions_input")}[which]
        kw = {names[0]: None if red is None else DICT(I, st, red), names[1]: red is None}
        out = LIST(I, st, [LIST(I, st, x) if isinstance(x, list) else x for x in outputs]) if dims == 1 else LIST(I, st, [LIST(I, st, [LIST(I, st, x)]) for x in outputs])
        self.m = new_obj(I, "vmodels.RecurrentModel", {}, st, [DICT(I, st, kw), out])
        attr = {"ktm": "key_transition_model", "ksm": "key_sequence_model", "csm": "chord_sequence_model"}[which]
        J.set(**{attr: self.m})
        J.piece([1, 2, 1, 1, 3])
        self.L = J.get("LABELS")
        c = {tuple(x): i for i, x in enumerate(self.L["chord"])}
        k = {tuple(x): i for i, x in enumerate(self.L["key"])}
        CT, KM = W.CT, W.KM
        o = 15 if pt == W.TPC else 0
        n = 12 if pt == W.MIDI else 10**6
        ch = lambda r, t, i: c[(o + r) % n if pt == W.MIDI else o + r, CT[t], i]
        ky = lambda r, m: k[(o + r) % n if pt == W.MIDI else o + r, KM[m]]
        labels = self.I.cell(J.st, J.o).attrs["LABELS"]
        self.states = []
        self.keys = []
        B = PKG + "utils.beam_search_utils.State"

        def step(s, name, *a):
            J.st, r = do(I, J.st, s, name, *a, pt, labels)
            if r[0] != "ret" or not isinstance(r[1], Ref):
                raise Undec(name)
            return r[1]

        s0 = new_obj(I, B, {"key": ky(0, "MAJOR")}, J.st)
        s1 = new_obj(I, B, {"key": ky(2, "MINOR")}, J.st)
        a = step(s0, "chord_transition", ch(1, "MAJ_MIN7", 3), 2, Fraction(-3))
        b = step(s1, "chord_transition", ch(2, "MINOR", 1), 2, Fraction(-4))
        a2 = step(a, "chord_transition", ch(0, "HALF_DIM7", 0), 5, Fraction(-5))
        b1 = step(b, "chord_transition", ch(1, "MAJ_MAJ7", 2), 3, Fraction(-1))
        b2 = step(b1, "key_transition", ky(1, "MAJOR"), Fraction(-2))
        d = step(b2, "chord_transition", ch(3, "MINOR", 0), 5, Fraction(-2))
        self.states = [a2, b1, d, b2, a]
        # hidden states of earlier steps
        self.hid = {}
        for i, s in enumerate(self.states[:3]):
            h = Tup([nd.mk(I, J.st, (1, 2), [10 * i + 1, 10 * i + 2]), nd.mk(I, J.st, (1, 2), [10 * i + 3, 10 * i + 4])])
            cc = I.cell(J.st, s)
            I.put(J.st, s, OCell(cc.cls, {**cc.attrs, f"{which}_hidden_state": h}, cc.origin))
            self.hid[i] = ([[10 * i + 1, 10 * i + 2]], [[10 * i + 3, 10 * i + 4]])
        self.labels = labels
        self.which = which
        self.base = J.st.copy()

    def attr(self, s, name):
        return Evalr(self.I, self.J.st, {})(self.I.cell(self.J.st, s).attrs[name])

    def inputs(self, pad):
        """what each hypothesis's model has to be given"""
        I, J = self.I, self.J
        out = []
        at = self.I.cell(J.st, J.o).attrs
        for s in self.states:
            st, r = do(I, self.base.copy(), s, f"get_{self.which}_input", self.pt, at["duration_cache"], at["onset_cache"], at["onset_level_cache"], self.labels)
            if r[0] != "ret":
                raise Undec("input")
            v = r[1]
            if self.red is not None:
                rets, raises = I.run(I.get(VD + "reduce_chord_types"), [v, DICT(I, st, self.red)], {"pad": pad}, st=st)
                if len(rets) != 1 or raises:
                    raise Undec("reduction")
                st = rets[0][0]
                rets, raises = I.run(I.get(VD + "remove_chord_inversions"), [v], {"pad": pad}, st=st)
                if len(rets) != 1 or raises:
                    raise Undec("inversions")
                st = rets[0][0]
            out.append([list(row) for row in Evalr(I, st, {})(v)])
        return out

    def lst(self):
        return LIST(self.I, self.J.st, self.states)

    def check(self, ck, w, pad, what, padded=False):
        """inputs and hidden states given, outputs and hidden states received"""
        I, J = self.I, self.J
        given = self.attr(self.m, "given")
        exp = self.inputs(pad)
        ck.add("models", what + " runs", len(given) == len(self.states), w, f"{what}: the model ran on {len(given)} inputs for {len(self.states)} hypotheses")
        zero = [[0, 0]]
        longest = max(len(e) for e in exp)
        for i, (g, e) in enumerate(zip(given, exp)):
            got = [list(r) for r in g["inputs"]]
            if padded:
                ck.add("models", what + " length", g.get("length") == len(e), w, f"{what}: length {g.get('length')} given for hypothesis {i} of {len(e)} chords")
                e = e + [[0] * len(e[0])] * (longest - len(e))
            ck.add("models", what + " input", val_eq(got, e), w, f"{what}: the input of hypothesis {i} is not its {'reduced ' if self.red else ''}chord and key vector (differs at {[(r, c) for r, (x, y) in enumerate(zip(got, e)) for c, (p, q) in enumerate(zip(x, y)) if not val_eq(p, q)][:6]})")
            h = [[list(r) for r in g[n]] for n in ("hidden", "cell")]
            eh = list(self.hid.get(i, (zero, zero)))
            ck.add("models", what + " hidden states", val_eq(h, eh), w, f"{what}: hypothesis {i} ran with hidden states {h}, required {eh}")
            now = self.attr(self.states[i], f"{self.which}_hidden_state")
            now = [[list(r) for r in x] for x in now]
            want = [[[100 + i] * 2], [[200 + i] * 2]]
            ck.add("models", what + " new hidden states", val_eq(now, want), w, f"{what}: hypothesis {i} keeps hidden states {now}, required {want}")


def ktm_step(ck, I, W, pt, red):
    w = loc(I, HM + ".get_key_change_probs")
    for hidden_only in (False, True):
        H = Hyps(I, W, pt, red, "ktm", [[Fraction(i + 1, 17)] for i in range(5)], 1)
        r = H.J.do("get_key_change_probs", H.lst(), hidden_only=hidden_only)
        if r[0] != "ret":
            ck.bad("models", "KTM", w, f"get_key_change_probs raises {r[1].cls}")
            return
        H.check(ck, w, True, "KTM")
        if hidden_only:
            continue
        got = list(Evalr(I, H.J.st, {})(r[1]))
        exp = []
        for i, s in enumerate(H.states):
            _, v = do(I, H.J.st.copy(), s, "can_key_transition")
            if v[0] != "ret" or type(v[1]) is not bool:
                raise Undec("can_key_transition")
            exp.append(Fraction(i + 1, 17) if v[1] else 0)
        ck.add("models", "KTM output", val_eq(got, exp), w, f"key change probabilities {got} of the hypotheses, required {exp}")
    H = Hyps(I, W, pt, red, "ktm", [[0]], 1)
    r = H.J.do("get_key_change_probs", LIST(I, H.J.st, []))
    ck.add("models", "KTM none", r[0] == "ret" and list(Evalr(I, H.J.st, {})(r[1])) == [], w, "no hypotheses: probabilities returned or error")


def csm_step(ck, I, W, pt, red):
    w = loc(I, HM + ".run_csm_batched")
    H = Hyps(I, W, pt, red, "csm", [[-i - 1, -i - 2, -i - 3] for i in range(5)], 2)
    r = H.J.do("run_csm_batched", H.lst())
    if r[0] != "ret":
        ck.bad("models", "CSM", w, f"run_csm_batched raises {r[1].cls}")
        return
    H.check(ck, w, False, "CSM")
    for i, s in enumerate(H.states):
        got = list(H.attr(s, "csm_log_prior"))
        ck.add("models", "CSM output", val_eq(got, [-i - 1, -i - 2, -i - 3]), w, f"hypothesis {i} has the chord prior {got}, required {[-i - 1, -i - 2, -i - 3]}")


def priors(n, k, peaked):
    """log-priors without ties, summing to about 1, ordered differently per hypothesis"""
    w = [Fraction(1, 2**j) if peaked and j < 5 else Fraction(j + 1, 10**4) for j in range(n)]
    tot = sum(w)
    order = sorted(range(n), key=lambda j: (j * 7 + k * 11) % n + Fraction(j, 10**6))
    out = [0.0] * n
    for j, x in zip(order, w):
        out[j] = math.log(x / tot)
    return out


def ksm_step(ck, I, W, pt, red):
    w = loc(I, HM + ".get_key_change_states")
    rel = Joint(I, W, pt).get("LABELS")["relative_key"]
    n = len(rel)
    for target, most, forced, expo in ((Fraction(1, 2), 3, None, 2), (Fraction(9, 10), 4, None, 1), (Fraction(9, 10), 2, None, Fraction(1, 2)), (Fraction(1, 10), 3, None, 1), (Fraction(1, 2), 1, "near", 3), (Fraction(9, 10), 5, "own", 1), (Fraction(9, 10), 5, "far", 1)):
        out = [priors(n, k, True) for k in range(5)]
        H = Hyps(I, W, pt, red, "ksm", out, 1)
        J = H.J
        keys = H.L["key"]
        ids = {tuple(k): i for i, k in enumerate(keys)}
        own = [H.attr(s, "key") for s in H.states]
        fk = None
        if forced:
            tonic = keys[own[0]][0] + {"near": 1, "own": 0, "far": -9}[forced]
            fk = ids[(tonic % 12 if pt == W.MIDI else tonic), W.KM["MAJOR"]]
        J.set(target_key_branch_prob=target, max_key_branching_factor=most, ksm_exponent=expo)
        if fk is not None:
            J.set(forced_key_ids=J.ARR([-1, fk, fk, -1, fk] if forced != "near" else [-1, -1, -1, fk, -1]))
        before = J.st.copy()
        fids = list(J.get("forced_key_ids"))
        r = J.do("get_key_change_states", H.lst())
        what = f"target {float(target)}, at most {most} keys, exponent {expo}, forced keys {fids} ({pt.name})"
        if r[0] != "ret":
            ck.bad("keys", "branches", w, f"{what}: raises {r[1].cls}")
            continue
        if target == Fraction(1, 2) and not forced:
            H.check(ck, w, True, "KSM", padded=True)
        exp = []
        for k, s in enumerate(H.states):
            prev = Evalr(I, before, {})(I.cell(before, s).attrs["prev_state"]).get("change_index")
            end = Evalr(I, before, {})(I.cell(before, s).attrs["change_index"])
            lp0 = Evalr(I, before, {})(I.cell(before, s).attrs["log_prob"])
            must = set(fids[prev:end]) - {-1}
            ranked = sorted(range(n), key=lambda j: -out[k][j])
            tot, lim = 0.0, 0
            for j in ranked:
                tot += math.exp(out[k][j])
                lim += 1
                if tot >= target:
                    break
            lim = max(1, min(lim, most))
            cnt = 0
            for j in ranked:
                mode, iv = rel[j]
                t = keys[own[k]][0] + iv
                if pt == W.MIDI:
                    t %= 12
                if (t, mode) not in ids or cnt >= lim:
                    continue
                kid = ids[t, mode]
                if kid == own[k] or (must and kid not in must):
                    continue
                _, v = do(I, before.copy(), s, "key_transition", kid, 0, pt, H.labels)
                if v[0] != "ret":
                    raise Undec("key_transition")
                if v[1] is None:
                    continue
                cnt += 1
                exp.append((k, kid, lp0 + out[k][j] * expo * (end - prev)))
        news = I.concrete_items(r[1], J.st)
        if news is None:
            raise Undec("list of hypotheses")
        got = []
        for v in news:
            c = I.cell(J.st, v)
            if c is None or c.kind != "obj":
                raise Undec("hypothesis")
            a = {f: Evalr(I, J.st, {})(c.attrs[f]) for f in ("key", "log_prob", "chord", "change_index")}
            got.append((c.attrs["prev_state"], a["chord"], a["change_index"], a["key"], a["log_prob"]))
        want = [(I.cell(J.st, H.states[k]).attrs["prev_state"], H.attr(H.states[k], "chord"), H.attr(H.states[k], "change_index"), kid, lp) for k, kid, lp in exp]
        left = list(want)
        wrong = []
        for g in got:
            m = next((e for e in left if g[:4] == e[:4] and close(g[4], e[4])), None)
            if m is None:
                wrong.append(g)
            else:
                left.remove(m)
        sh = lambda xs: [f"{tuple(keys[x[3]])} for chord {x[1]} until {x[2]} with score {x[4]:.4f}" for x in xs]
        ck.add("keys", "branches", not wrong and not left, w, f"{what}: unexpected {sh(wrong)}, missing {sh(left)}")
    H = Hyps(I, W, pt, red, "ksm", [priors(n, k, True) for k in range(5)], 1)
    r = H.J.do("get_key_change_states", H.lst(), hidden_only=True)
    if r[0] == "ret":
        H.check(ck, w, True, "KSM hidden only", padded=True)
    else:
        ck.bad("keys", "hidden only", w, f"running only for hidden states raises {r[1].cls}")
    r = H.J.do("get_key_change_states", LIST(I, H.J.st, []))
    ck.add("keys", "none", r[0] == "ret" and I.concrete_items(r[1], H.J.st) == [], w, "no hypotheses: some returned or error")


def path(I, J, s):
    """(chord, key, start, end) of each step, score and first key of a hypothesis"""
    if s is None:
        return None
    segs = []
    score = Evalr(I, J.st, {})(I.cell(J.st, s).attrs["log_prob"])
    while True:
        c = I.cell(J.st, s)
        if c is None or c.kind != "obj":
            raise Undec("returned hypothesis")
        p = c.attrs["prev_state"]
        ch, k, e = (Evalr(I, J.st, {})(c.attrs[x]) for x in ("chord", "key", "change_index"))
        if p is None:
            break
        segs.append((ch, k, Evalr(I, J.st, {})(I.cell(J.st, p).attrs["change_index"]), e))
        s = p
    return tuple(reversed(segs)), score, k


class Search:
    """a joint model whose networks are functions of the chord type, and all its paths"""

    def __init__(self, I, W, pt, n, **kw):
        self.I, self.W, self.pt, self.n = I, W, pt, n
        self.kw = dict(min_key_change_prob=Fraction(1, 10), max_no_key_change_prob=Fraction(8, 10), beam_size=1000, hash_length=None, max_chord_branching_factor=2, target_chord_branch_prob=0.9, max_key_branching_factor=2, target_key_branch_prob=0.9, ksm_exponent=2)
        self.kw.update(kw)
        red = W.const("data.data_types.TRIAD_REDUCTION")
        self.J = J = Joint(I, W, pt, over={"ccm": {"reduction": red, "use_inversions": False}}, **self.kw)
        if J.built[0] != "ret":
            raise Undec("constructor")
        self.red = red
        L = J.get("LABELS")
        self.chords, self.keys, self.rel = [tuple(c) for c in L["chord"]], [tuple(k) for k in L["key"]], [tuple(k) for k in L["relative_key"]]
        self.labels = I.cell(J.st, J.o).attrs["LABELS"]
        o = 15 if pt == W.TPC else 0
        mod = (lambda x: x % 12) if pt == W.MIDI else (lambda x: x)
        self.ch = lambda r, t: self.chords.index((mod(o + r), W.CT[t], 0))
        self.ky = lambda r, m: self.keys.index((mod(o + r), W.KM[m]))
        J.piece([1] * n)
        self.fcc, self.fkc, self.fkn, self.cid, self.kid = (), (), (), [-1] * n, [-1] * n
        self._idx = {}

    def force(self, cc=(), kc=(), kn=(), cid=None, kid=None):
        self.fcc, self.fkc, self.fkn = set(cc), set(kc), set(kn)
        self.cid, self.kid = cid or self.cid, kid or self.kid
        self.J.piece([1] * self.n, fcc=cc, fkc=kc, fkn=kn, cid=self.cid, kid=self.kid)

    def probe(self, which):
        """position of the input vector which tells a major chord"""
        I, J = self.I, self.J
        st = J.st.copy()
        out = []
        at = I.cell(st, J.o).attrs
        for t in ("MAJOR", "MINOR"):
            s0 = new_obj(I, PKG + "utils.beam_search_utils.State", {"key": self.ky(0, "MAJOR")}, st)
            st, r = do(I, st, s0, "chord_transition", self.ch(0, t), 2, 0, self.pt, self.labels)
            if r[0] != "ret" or r[1] is None:
                raise Undec("probe")
            st, r = do(I, st, r[1], f"get_{which}_input", self.pt, at["duration_cache"], at["onset_cache"], at["onset_level_cache"], self.labels)
            if r[0] != "ret":
                raise Undec("probe")
            out.append(list(Evalr(I, st, {})(r[1])[-1]))
        d = [i for i, (a, b) in enumerate(zip(*out)) if a == 1 and b == 0]
        if not d:
            raise Undec("probe")
        return d[0]

    def models(self, p, csm, ksm, icm):
        """p: (major, minor) key change probability; csm: prior functions; ksm: {(mode, interval): log-prior}; icm: (major key, minor key) prior functions"""
        I, J = self.I, self.J
        st = J.st
        self.p, self.csm, self.icm = p, csm, icm
        nfull = self.vocab(True, None)
        nred = self.vocab(False, None)
        self.ksm = [ksm.get((m.name, i), -9.0 - j / 100) for j, (m, i) in enumerate(self.rel)]
        Ls = lambda xs: LIST(I, st, xs)
        k = new_obj(I, "vmodels.ProbeModel", {}, st, [self.probe("ktm"), Ls([p[0]]), Ls([p[1]])])
        c = new_obj(I, "vmodels.ProbeModel", {}, st, [self.probe("csm"), Ls([Ls([csm[0](i) for i in range(nred)])]), Ls([Ls([csm[1](i) for i in range(nred)])])])
        q = new_obj(I, "vmodels.ProbeModel", {}, st, [0, Ls(self.ksm), Ls(self.ksm)])
        m = new_obj(I, "vmodels.InitialModel", {}, st, [Ls([icm[0](i) for i in range(nfull)]), Ls([icm[1](i) for i in range(nfull)])])
        pc = new_obj(I, "vmodels.PieceOf", {}, st, [Ls([0] * self.n)])
        J.set(key_transition_model=k, chord_sequence_model=c, key_sequence_model=q, initial_chord_model=m, current_piece=pc)

    def vocab(self, inv, red):
        return len(const(self.I, HU + "get_chord_from_one_hot_index", (SL(), self.pt), {"use_inversions": inv, "relative": True, "reduction": red}))

    def rel_index(self, c, k, full):
        key = (c, k, full)
        if key not in self._idx:
            root, t, inv = self.chords[c]
            r = root - self.keys[k][0]
            if self.pt == self.W.MIDI:
                r %= 12
            else:
                from .c14 import rng

                r -= rng(self.W, False)[0]
            self._idx[key] = const(self.I, HU + "get_chord_one_hot_index", (t, r, self.pt), {"inversion": inv, "use_inversion": full, "relative": True, "pad": False})
        return self._idx[key]

    def fits(self, c, k, pad):
        from .c14 import rng

        lo, hi = rng(self.W, pad)
        root = self.chords[c][0]
        return lo <= root - self.keys[k][0] < hi

    def inputs(self, ranges, cls):
        """ranges: {(s, e): (log-prob, rejoin)}, cls(s, e) -> {chord: log-prior} (others low)"""
        self.ranges = ranges
        self.cls = {}
        for (s, e) in ranges:
            row = [-20.0 - c / 1000 for c in range(len(self.chords))]
            for c, v in cls(s, e).items():
                row[c] = v
            self.cls[s, e] = row

    def run(self):
        I, J = self.I, self.J
        st = J.st
        rg = sorted(self.ranges)
        a = [
            LIST(I, st, [Tup(r) for r in rg]),
            LIST(I, st, [self.ranges[r][0] for r in rg]),
            LIST(I, st, [self.ranges[r][1] for r in rg]),
            nd.mk(I, st, (len(rg), len(self.chords)), [x for r in rg for x in self.cls[r]]),
        ]
        r = J.do("beam_search", *a)
        if r[0] != "ret":
            raise Broken(f"the search raises {r[1].cls}")
        self.top = r[1]
        return path(I, J, r[1])

    def memory(self, s):
        """hidden states of the models along a hypothesis: oldest first, None where there are none"""
        I, J = self.I, self.J
        out = []
        while s is not None:
            c = I.cell(J.st, s)
            row = {}
            for m in ("ktm", "csm", "ksm"):
                h = Evalr(I, J.st, {})(c.attrs[m + "_hidden_state"])
                flat = lambda x: flat(x[0]) if isinstance(x, (list, tuple)) else x
                row[m] = None if h is None else tuple(flat(list(x)) for x in h)
            out.append(row)
            s = c.attrs["prev_state"]
        return out[::-1]

    def recall(self, segs, k0):
        """the same from the path: each model has seen each chord once, in its key; the key model all chords since the last key change"""
        W = self.W
        out = [{"ktm": None, "csm": None, "ksm": None}]
        add = lambda h, code: tuple((0 if h is None else h[i]) * 64 + code + 32 * i for i in (0, 1))
        since, key = 0, k0
        for i, (c, k, s, e) in enumerate(segs):
            code = 4 + (self.chords[c][1] == W.CT["MAJOR"]) + 2 * (k != key)
            since += 1
            p = out[-1]
            row = {"ktm": add(p["ktm"], code), "csm": add(p["csm"], code), "ksm": p["ksm"]}
            if k != key:
                # its probe is the first feature of the chord: left open
                row["ksm"] = (p["ksm"], since)
                since, key = 0, k
            out.append(row)
        # the chord model sees a chord only when it is continued
        if len(out) > 1:
            out[-1]["csm"] = out[-2]["csm"]
        return out

    def cands(self, s, e, last):
        row = self.cls[s, e]
        ranked = sorted(range(len(row)), key=lambda c: -row[c])
        f = set(self.cid[s:e]) - {-1}
        if f:
            return [next(iter(f))]
        tot, lim = 0.0, 0
        for c in ranked:
            tot += math.exp(row[c])
            lim += 1
            if tot >= self.kw["target_chord_branch_prob"]:
                break
        else:
            lim = 1
        lim = max(1, min(lim, self.kw["max_chord_branching_factor"]))
        if lim == 1 and ranked[0] == last:
            lim = 2
        return ranked[:lim]

    def paths(self):
        """every complete hypothesis per position: (segments, initial key) -> score (best over its rejoin histories: all)"""
        W, kw = self.W, self.kw
        ini = range(len(self.keys)) if self.kid[0] == -1 else [self.kid[0]]
        at = {i: [] for i in range(self.n + 1)}
        at[0] = [((), k, 0.0, 0.0, False) for k in ini]
        for s in range(self.n):
            for segs, k0, score, comp, rej in at[s]:
                for (a, e), (rl, rj) in self.ranges.items():
                    if a != s:
                        continue
                    last = segs[-1][0] if segs else None
                    for c in self.cands(s, e, last):
                        if c == last:
                            if s in self.fcc or s in self.fkc:
                                continue
                            prev, start, r2 = segs[:-1], segs[-1][2], True
                            base = score - comp + rl + self.cls[a, e][c] * (e - s) + rj
                        else:
                            prev, start, r2 = segs, s, rej
                            base = score + rl + self.cls[a, e][c] * (e - s)
                        k = prev[-1][1] if prev else k0
                        if c != last and not self.fits(c, k, True):
                            continue
                        self.keyed(at, prev, k0, c, k, start, e, base, r2)
        return at

    def keyed(self, at, prev, k0, c, k, start, e, base, rej):
        W, kw = self.W, self.kw
        major = lambda x: self.chords[x][1] == W.CT["MAJOR"]
        p = (self.p[0] if major(c) else self.p[1]) if prev else 0
        ln_ = e - start
        ok = self.fits(c, k, False)
        stay = p <= kw["max_no_key_change_prob"] and ok
        go = p >= kw["min_key_change_prob"]
        f = set(self.kid[start:e]) - {-1}
        if f:
            if k in f:
                stay, go = ok, False
            else:
                stay, go = False, True
        if start in self.fkc:
            stay, go = False, (go or not f)
        elif start in self.fkn:
            stay, go = ok and (stay or not f), False
        if stay:
            if prev:
                pr = (self.csm[0] if major(prev[-1][0]) else self.csm[1])(self.rel_index(c, k, False))
            else:
                pr = self.icm[1 if self.keys[k0][1] == W.KM["MINOR"] else 0](self.rel_index(c, k, True))
            comp = pr * ln_ + ln(1 - p) * ln_
            at[e].append((prev + ((c, k, start, e),), k0, base + comp, comp, rej))
        if go:
            ranked = sorted(range(len(self.rel)), key=lambda j: -self.ksm[j])
            tot, lim = 0.0, 0
            for j in ranked:
                tot += math.exp(self.ksm[j])
                lim += 1
                if tot >= kw["target_key_branch_prob"]:
                    break
            else:
                lim = 1
            lim = max(1, min(lim, kw["max_key_branching_factor"]))
            cnt = 0
            for j in ranked:
                m, iv = self.rel[j]
                t = self.keys[k][0] + iv
                if self.pt == W.MIDI:
                    t %= 12
                if cnt >= lim or (t, m) not in self.keys:
                    continue
                k2 = self.keys.index((t, m))
                if k2 == k or (f and k2 not in f) or not self.fits(c, k2, False):
                    continue
                cnt += 1
                comp = ln(p) * ln_ + self.ksm[j] * kw["ksm_exponent"] * ln_
                at[e].append((prev + ((c, k2, start, e),), k0, base + comp, comp, rej))


def wave(seed, scale=1.0):
    return lambda i: -scale * (0.5 + ((i * 7 + seed * 5) % 23) / 20)


def search_cases(S):
    """(name, ranges, classification) of the searches, over three inputs"""
    A, B, C, D = S.ch(0, "MAJOR"), S.ch(1, "MAJOR"), S.ch(2, "MINOR"), S.ch(-1, "MAJOR")
    full = {(s, e): (-0.11 * s - 0.17 * e - 0.3 * (e - s), -0.2 - 0.1 * s) for s in range(3) for e in range(s + 1, 4)}
    some = {r: v for r, v in full.items() if r in ((0, 1), (1, 2), (1, 3), (2, 3))}
    up = {r: (v[0], 0.4) for r, v in some.items()}
    c1 = lambda s, e: {(A, B, C)[s]: math.log(0.6), (B, C, A)[s]: math.log(0.35)}
    c2 = lambda s, e: {(A, A, C)[s]: math.log(0.5), (D, B, B, D)[(s + e) % 4]: math.log(0.45)}
    c3 = lambda s, e: {A: math.log(0.95)} if s < 1 else {B: math.log(0.95), A: math.log(0.03)}
    same_ = lambda s, e: {A: math.log(0.6), B: math.log(0.35)}
    ones = {r: v for r, v in full.items() if r[1] - r[0] == 1}
    down = {r: (v[0], -6) for r, v in ones.items()}
    near = lambda s, e: {(A, B, C)[s]: math.log(0.49), (C, D, B)[s]: math.log(0.48)}
    far = [("a far chord", ones, lambda s, e: {(A, S.ch(15, "MINOR"), S.ch(14, "MINOR"))[s]: math.log(0.95)})] if S.pt == S.W.TPC else []
    return [("all ranges", full, c1), ("few ranges", some, c2), ("rejoining favoured", up, c2), ("certain chords", full, c3), ("the same chord favoured", {r: (v[0], 1.5) for r, v in ones.items()}, same_), ("rejoining unlikely", down, c3), ("close calls", ones, near)] + far


def search(ck, I, W, pt, tier):
    w = loc(I, HM + ".beam_search")
    S0 = Search(I, W, pt, 3)
    K, M = S0.ky(0, "MAJOR"), S0.ky(1, "MAJOR")
    ksm = {("MAJOR", 1): math.log(0.5), ("MINOR", 3 if pt == W.TPC else 9): math.log(0.3), ("MAJOR", -1 if pt == W.TPC else 11): math.log(0.15)}
    A, B, C = S0.ch(0, "MAJOR"), S0.ch(1, "MAJOR"), S0.ch(2, "MINOR")
    forces = [
        ("no forced labels but the first key", dict(kid=[K, -1, -1])),
        ("a forced chord change at 1", dict(kid=[K, -1, -1], cc=[1])),
        ("forced key change at 2", dict(kid=[K, -1, -1], kc=[2])),
        ("no key change at 1 and 2", dict(kid=[K, -1, -1], kn=[1, 2])),
        ("forced chord from 1", dict(kid=[K, -1, -1], cid=[-1, B, B])),
        ("forced keys", dict(kid=[K, -1, M])),
        ("forced key and chord, key change at 2", dict(kid=[K, K, M], kc=[2], cid=[A, -1, C])),
        ("another key forced where no key change is", dict(kid=[K, -1, M], kn=[2])),
        ("forced key at 1 alone", dict(kid=[K, M, -1])),
    ]
    few = dict(beam_size=8)
    params = [
        ("", dict(beam_size=100), (Fraction(3, 10), Fraction(6, 10))),
        ("unlikely and certain key changes", few, (Fraction(1, 20), Fraction(9, 10))),
        ("key changes exactly at the limits", few, (Fraction(1, 10), Fraction(8, 10))),
        ("one chord per range", dict(few, max_chord_branching_factor=1, hash_length=2), (Fraction(3, 10), Fraction(6, 10))),
        ("small hashed beam", dict(beam_size=2, hash_length=2), (Fraction(3, 10), Fraction(1, 5))),
        ("one key per change", dict(max_key_branching_factor=1, beam_size=3), (Fraction(3, 10), Fraction(1, 5))),        ("key changes unlikely", dict(beam_size=100), (Fraction(3, 25), Fraction(3, 25))),
    ]
    I.max_budget = 20_000_000
    special = [(4, 0, 0), (4, 1, 0), (4, 2, 0), (4, 8, 0), (5, 0, 0), (6, 0, 0), (0, 7, 6), (2, 7, 0)] + ([(7, 0, 0)] if pt == W.TPC else [])
    todo = [(ci, fi, pi) for ci in range(4) for fi in range(7) for pi in range(6)]
    if tier == "quick":
        # every force with every parameter set once, spread over the ranges; every force with all ranges
        todo = [x for x in todo if (x[1] + x[2]) % 4 == x[0] and (x[1] * 5 + x[2]) % (5 if pt == W.TPC else 2) == 0 or x[0] == 0 and x[2] == 0 and pt == W.MIDI]
        special = special if pt == W.MIDI else special[-1:]
    todo += special
    for ci, fi, pi in todo:
        (fn, fkw), (pn, pkw, p) = forces[fi], params[pi]
        S = Search(I, W, pt, 3, **pkw)
        name, ranges, cls = search_cases(S)[ci]
        bad = lambda r: len(set(fkw.get("cid", [-1] * 3)[slice(*r)]) - {-1}) > 1 or len(set(fkw["kid"][slice(*r)]) - {-1}) > 1 or any(r[0] < x < r[1] for x in list(fkw.get("cc", ())) + list(fkw.get("kc", ())))
        ranges = {r: v for r, v in ranges.items() if not bad(r)}
        S.force(**fkw)
        S.models(p, (wave(1), wave(2)), ksm, (wave(3), wave(4)))
        S.inputs(ranges, cls)
        judge(ck, S, w, f"{name}, {fn}{', ' + pn if pn else ''} ({pt.name})")
    # no range reaches the end
    if pt == W.MIDI or tier != "quick":
        S = Search(I, W, pt, 3, beam_size=8)
        S.force(kid=[K, -1, -1])
        S.models((Fraction(3, 10), Fraction(6, 10)), (wave(1), wave(2)), ksm, (wave(3), wave(4)))
        name, ranges, cls = search_cases(S)[0]
        S.inputs({r: v for r, v in ranges.items() if r[1] < 3}, cls)
        judge(ck, S, w, f"no range reaches the end ({pt.name})")
    # every initial key open
    if tier == "quick" and pt == W.TPC:
        return
    S = Search(I, W, pt, 2, beam_size=5, hash_length=1)
    S.models((Fraction(3, 10), Fraction(6, 10)), (wave(1), wave(2)), ksm, (wave(3), wave(4)))
    S.inputs({(0, 1): (-0.3, 0), (0, 2): (-0.9, 0), (1, 2): (-0.4, -0.2)}, lambda s, e: {A: math.log(0.6), (B, C)[s]: math.log(0.35)})
    judge(ck, S, w, f"any first key ({pt.name})")


def survivors(S, at):
    """complete paths which no beam limit and no early exit can drop: the beams hold everything, and each step starts above all that can be stored at its end"""
    if S.kw["hash_length"] is not None or S.kw["beam_size"] < max(len(x) for x in at.values()):
        return []
    top = {e: max((f[2] for f in x), default=-math.inf) for e, x in at.items()}
    scores = {}
    for e, x in at.items():
        for f in x:
            if not f[4]:
                scores[f[0], f[1]] = f[2]
    out = []
    for f in at[S.n]:
        segs = f[0]
        if f[4]:
            continue
        ok = True
        for i, (_, _, s, e) in enumerate(segs):
            before = scores.get((segs[:i], f[1])) if i else 0.0
            ok = ok and before is not None and (s == 0 or before + S.ranges[s, e][0] > top[e] + 1e-9)
        if ok:
            out.append(f)
    return out


def judge(ck, S, w, what):
    names = lambda segs: [(str(S.chords[c][0]) + " " + S.chords[c][1].name, str(S.keys[k][0]) + " " + S.keys[k][1].name, s, e) for c, k, s, e in segs]
    at = S.paths()
    try:
        got = S.run()
        top = S.top
    except Broken as e:
        ck.bad("search", "result", w, f"{what}: {e}")
        return
    final = at[S.n]
    if got is None:
        # nothing found: only sound when there is nothing to find
        kept = survivors(S, at)
        ck.add("search", "found", not kept, w, f"{what}: nothing found, though {names(max(kept, key=lambda f: f[2])[0]) if kept else ''} is possible")
        return
    segs, score, k0 = got
    same_ = [f for f in final if f[0] == segs and f[1] == k0]
    ck.add("search", "path", bool(same_), w, f"{what}: the path found, {names(segs)}, is not a possible one")
    if not same_:
        return
    ck.add("search", "score", any(close(score, f[2]) for f in same_), w, f"{what}: the path {names(segs)} is scored {score}, required {sorted({round(f[2], 6) for f in same_})}")
    mem, req = S.memory(top), S.recall(segs, k0)
    for i, (m, q) in enumerate(zip(mem, req)):
        for n in ("ktm", "csm"):
            ck.add("search", "memory", m[n] == q[n], w, f"{what}: at step {i} of {names(segs)} the {n.upper()}'s hidden state is {m[n]}, required {q[n]}: it has not seen each chord once in its key")
        if i and q["ksm"] == req[i - 1]["ksm"]:
            ck.add("search", "memory", m["ksm"] == mem[i - 1]["ksm"], w, f"{what}: at step {i} of {names(segs)}, without key change, the KSM's hidden state changes from {mem[i - 1]['ksm']} to {m['ksm']}")
        elif i:
            b, n = mem[i - 1]["ksm"] or (0, 0), q["ksm"][1]
            good = m["ksm"] is not None and any(m["ksm"] == tuple(b[j] * 64 + 4 * n + 2 + x + 32 * j for j in (0, 1)) for x in (0, 1))
            ck.add("search", "memory", good, w, f"{what}: at step {i} of {names(segs)}, a key change, the KSM's hidden state is {m['ksm']} after {b}: required one step over the {n} chords since the last change")
    b = max(final, key=lambda f: f[2])
    kept = survivors(S, at)
    if kept:
        k = max(kept, key=lambda f: f[2])
        ck.add("search", "kept", score >= k[2] - 1e-9, w, f"{what}: {names(segs)} with score {score} found, though {names(k[0])} with score {k[2]} can be dropped nowhere")
    lead = not b[4]
    for i in range(1, len(b[0])):
        e = b[0][i - 1][3]
        top = max(at[e], key=lambda f: f[2])
        if top[0] != b[0][:i] or top[4]:
            lead = False
    if lead:
        ck.add("search", "best", segs == b[0], w, f"{what}: {names(segs)} with score {score} found, though {names(b[0])} with score {b[2]} leads at every position")


# forced labels given to get_harmony: chords and keys by name, ranges of inputs
HARMONY = [
    ("nothing forced but the first key", {}),
    ("chord change", dict(forced_chord_changes=[3])),
    ("chord non-change", dict(forced_chord_non_changes=[1])),
    ("key change", dict(forced_key_changes=[3])),
    ("key non-change", dict(forced_key_non_changes=[1, 3], forced_chord_changes=[3], p=(Fraction(79, 100), Fraction(79, 100)))),
    ("chord", dict(forced_chords={(1, 3): "B"})),
    ("key", dict(forced_keys={(3, 4): "M"})),
    ("first key left open", dict(open=True)),
]
ONSETS = [Fraction(0), Fraction(1, 4), Fraction(1, 4), Fraction(1, 2)]
LENGTHS = [Fraction(3, 4), Fraction(1, 4), Fraction(1, 8), Fraction(1, 2)]


def score(I, W, st, pt):
    """a piece of four notes, the first sounding through all of them, the third beginning with the second"""
    at = lambda t: Tup((int(t), t - int(t)))
    o = 15 if pt == W.TPC else 0
    notes = [new_obj(I, PKG + "data.note.Note", note_kw(W, pitch_class=o + i, octave=5 - i % 2, onset=at(x), onset_level=3 - i % 2, duration=d, offset=at(x + d), offset_level=i % 3, pitch_type=pt), st) for i, (x, d) in enumerate(zip(ONSETS, LENGTHS))]
    from sa import pdm

    ms = pdm.frame(I, st, data={"mc": [0, 1], "timesig": ["4/4"] * 2, "act_dur": [Fraction(1)] * 2, "mc_offset": [Fraction(0)] * 2, "next": [1, pdm.NA]})
    return new_obj(I, PKG + "data.piece.ScorePiece", {}, st, [ms, LIST(I, st, notes), None, None, None, None, None])


def harmony(ck, I, W, pt, case):
    w = loc(I, HM + ".get_harmony")
    name, fkw = HARMONY[case]
    what = f"{name} ({pt.name})"
    n = 4
    I.max_budget = 20_000_000
    S = Search(I, W, pt, n, beam_size=120 if "open" not in fkw else 4, hash_length=None, min_chord_change_prob=MIN, max_no_chord_change_prob=MAX, max_chord_length=Fraction(8))
    J, st = S.J, S.J.st
    K, M = S.ky(0, "MAJOR"), S.ky(1, "MAJOR")
    A, B, C = S.ch(0, "MAJOR"), S.ch(1, "MAJOR"), S.ch(2, "MINOR")
    ksm = {("MAJOR", 1): math.log(0.5), ("MINOR", 3 if pt == W.TPC else 9): math.log(0.3), ("MAJOR", -1 if pt == W.TPC else 11): math.log(0.15)}
    fkw = dict(fkw)
    S.models(fkw.pop("p", (Fraction(3, 10), Fraction(6, 10))), (wave(1), wave(2)), ksm, (wave(3), wave(4)))
    p = [Fraction(1, 2), Fraction(3, 5), Fraction(4, 5), Fraction(2, 5)]
    pc = score(I, W, st, pt)
    ids = {"B": B, "M": M, "K": K}
    kw = {}
    for k, v in fkw.items():
        if k == "open":
            continue
        kw[k] = DICT(I, st, {Tup(r): ids[x] for r, x in v.items()}) if isinstance(v, dict) else J.SET(v)
    if "open" not in fkw:
        kw["forced_keys"] = DICT(I, st, {Tup((0, 1)): K, **{Tup(r): ids[x] for r, x in fkw.get("forced_keys", {}).items()}})
    cid, kid = [-1] * n, [-1] * n
    if "open" not in fkw:
        kid[0] = K
    for tgt, f in ((cid, "forced_chords"), (kid, "forced_keys")):
        for (a, b), x in fkw.get(f, {}).items():
            tgt[a:b] = [ids[x]] * (b - a)
    S.fcc, S.fkc, S.fkn, S.cid, S.kid = set(fkw.get("forced_chord_changes", ())), set(fkw.get("forced_key_changes", ())), set(fkw.get("forced_key_non_changes", ())), cid, kid
    prob = [1 if i in S.fcc or i in S.fkc else 0 if i in fkw.get("forced_chord_non_changes", ()) else x for i, x in enumerate(p)]
    # a forced label begins and ends with a change only if the model says so: the ranges may hold at most one of each
    dur = [Fraction(1, 4), 0, Fraction(1, 4), Fraction(1, 2)]
    rg = ranges_oracle(prob, dur, cid, kid, 8)
    S.ranges = {(s, e): (lp, ln(1 - prob[s]) - ln(prob[s]) if s else 0) for (s, e), lp in rg.items()}
    nch = len(S.chords)
    rows = []
    for i in range(12):
        top = {(A, B, C)[i % 3]: 0.5 - i / 100, (B, C, A)[i % 3]: 0.42 - i / 90}
        rows.append([top.get(c, (1 + c % 3) * 1e-9) for c in range(nch)])
    ctm = new_obj(I, "vmodels.ChangeModel", {}, st, [LIST(I, st, [float(x) for x in p])])
    ccm = new_obj(I, "vmodels.Classifier", {}, st, [DICT(I, st, {"reduction": DICT(I, st, S.red), "use_inversions": False, "transposition_range": LIST(I, st, [-2, 2])}), LIST(I, st, [LIST(I, st, r) for r in rows])])
    J.set(chord_transition_model=ctm, chord_classifier=ccm)
    at = I.cell(st, J.o).attrs
    for k, f in zip(MODELS, ("chord_classifier", "chord_transition_model", "chord_sequence_model", "key_transition_model", "key_sequence_model", "initial_chord_model")):
        c = I.cell(st, at[f])
        I.put(st, at[f], OCell(c.cls, {**I.cell(st, J.models[k]).attrs, **c.attrs}, c.origin))
    clean = st.copy()
    r = J.do("get_harmony", pc, **kw)
    if r[0] != "ret":
        ck.bad("harmony", name, w, f"{what}: estimating raises {r[1].cls}")
        return
    ev = Evalr(I, J.st, {})
    rec = lambda o, a: ev(I.cell(J.st, o).attrs[a])
    # what the change model was given
    given = rec(ctm, "given")
    d1, x = do(I, clean.copy(), pc, "get_inputs")
    vecs = []
    for v, a, b in zip(I.concrete_items(x[1], d1), [None] + dur[:-1], dur):
        d1, y = do(I, d1, v, "to_vec", dur_from_prev=a, dur_to_next=b)
        if y[0] != "ret":
            raise Undec("note vector")
        vecs.append(list(Evalr(I, d1, {})(y[1])))
    got = [[list(q) for q in m] for m in given]
    ck.add("harmony", name, len(got) == 1 and val_eq(got[0], vecs), w, f"{what}: the chord change model is not given the piece's notes once")
    # what the classifier was given: each range once
    given, lens = rec(ccm, "given"), rec(ccm, "lengths")
    exp = {}
    for s, e in S.ranges:
        first = min([i for i in range(n) if ONSETS[i] + LENGTHS[i] > ONSETS[s] or ONSETS[i] >= ONSETS[s]])
        d2 = clean.copy()
        d2, y = do(I, d2, pc, "get_chord_note_inputs", ranges=LIST(I, d2, [Tup((first, e))]), change_indices=LIST(I, d2, [s]))
        if y[0] != "ret":
            raise Undec("classifier input")
        exp[s, e] = [list(q) for q in Evalr(I, d2, {})(y[1])[0]]
    longest = max(len(x) for x in exp.values())
    S.cls = {}
    for i, (g, l) in enumerate(zip(given, lens)):
        g = [list(q) for q in g]
        m = [k for k, x in exp.items() if k not in S.cls and l == len(x) and val_eq(g, x + [[0] * len(x[0])] * (longest - len(x)))]
        if not ck.add("harmony", name, bool(m), w, f"{what}: the classifier is given an input ({l} notes) which belongs to no possible range {sorted(exp)}"):
            return
        S.cls[m[0]] = [ln(q) for q in rows[i]]
    if not ck.add("harmony", name, len(S.cls) == len(exp), w, f"{what}: ranges {sorted(set(exp) - set(S.cls))} are not classified"):
        return
    S.top = r[1]
    S.run = lambda: path(I, J, r[1])
    judge(ck, S, w, what)
    # the times of the chords found
    s, segs = r[1], []
    D = nd.mk(I, J.st, (n,), dur)
    at = [Tup((int(t), t - int(t))) for t in ONSETS + [ONSETS[-1] + LENGTHS[-1]]]
    lv = [3 - i % 2 for i in range(n)] + [(n - 1) % 3]
    O, V = LIST(I, J.st, at), LIST(I, J.st, lv)
    while s is not None and I.cell(J.st, s).attrs["prev_state"] is not None:
        J.st, y = do(I, J.st, s, "get_chord", pt, D, O, V, S.labels)
        if y[0] != "ret":
            raise Undec("get_chord")
        c = I.cell(J.st, s)
        e = Evalr(I, J.st, {})(c.attrs["change_index"])
        b = Evalr(I, J.st, {})(I.cell(J.st, c.attrs["prev_state"]).attrs["change_index"])
        h = {k: Evalr(I, J.st, {})(v) for k, v in I.cell(J.st, y[1]).attrs.items() if k in ("onset", "offset", "onset_level", "offset_level", "duration")}
        q = {"onset": tuple(at[b].items if hasattr(at[b], "items") else at[b]), "offset": tuple(at[e].items if hasattr(at[e], "items") else at[e]), "onset_level": lv[b], "offset_level": lv[e], "duration": sum(dur[b:e])}
        for k in q:
            if k in h:
                ck.add("harmony", name, val_eq(h[k], q[k]), w, f"{what}: the chord of inputs {b} to {e} has {k} {h[k]}, required {q[k]}")
        s = c.attrs["prev_state"]
