"""C23: loading pieces and trained models."""
from sa import fsm, pdm

from .c16 import corpus, rows_for
from .c18 import read, run_one
from .common import *
from sa.engine import AnalysisBroken, ClassV, FuncV

DU = PKG + "utils.data_utils."
PC = PKG + "data.piece."
CRL = PKG + "data.corpus_reading.load_clean_corpus_dfs"


def tag_of(I, st, v):
    """the marks of a table (or None)"""
    if v is None:
        return None
    c = I.cell(st, v)
    if c is not None and c.kind == "df" and "tag" in c.cols:
        return tuple(c.data[c.cols.index("tag")])
    t = fsm.text(I, st, v)
    if t is not None:
        return t
    raise Undec(f"argument {show(v)}")


class Loaders:
    """the functions that read single pieces, replaced by ones that note what they were given"""

    def __init__(self, ck, I, rule, w):
        self.ck, self.I, self.rule, self.w = ck, I, rule, w
        self.old = dict(I.hooks)
        self.dicts = None
        H = I.hooks
        for kind, fn in (("xml", "get_score_piece_from_music_xml"), ("tables", "get_score_piece_from_data_frames"), ("dict", "get_score_piece_from_dict")):
            H[PC + fn] = self.loader(kind, PC + fn)
        H[PC + "get_measures_df_from_music21_score"] = self.measures
        H["music21.converter.parse"] = lambda I, a, kw, st, n: new_obj(I, "vdata.Raw", {}, st, [Tup(("score", self.path(st, a, kw)))])
        H["builtins.open"] = self.open
        H["pickle.load"] = self.load

    def path(self, st, a, kw):
        t = fsm.text(self.I, st, [*a, *kw.values()][0])
        if t is None:
            raise Undec("file name")
        return t

    def open(self, I, a, kw, st, n):
        p = self.path(st, a, kw)
        if p not in I.fs:
            I.raise_now(st, "FileNotFoundError", n)
        return new_obj(I, "vdata.Raw", {}, st, [Tup(("file", p))])

    def load(self, I, a, kw, st, n):
        if self.dicts is None:
            raise Undec("pickle")
        return LIST(I, st, [None if x is None else DICT(I, st, {"mark": x}) for x in self.dicts])

    def measures(self, I, a, kw, st, n):
        x = [*a, *kw.values()][0]
        c = I.cell(st, x)
        src = Evalr(I, st, {})(c.attrs["source"]) if c is not None and c.kind == "obj" and "source" in c.attrs else None
        if src is None:
            raise Undec("score")
        return pdm.frame(I, st, data={"tag": ["measures of " + src[1]]})

    def loader(self, kind, fn):
        def hk(I, args, kw, st, node):
            f = I.get(fn)
            env = I.bindargs(f, list(args), dict(kw), st, node)
            names = [p.arg for p in f.node.args.args]
            main = {"xml": 2, "tables": 3, "dict": 2}[kind]
            vals = [env[p] for p in names[:main]]
            if kind == "dict":
                c = I.resolve(vals[1], st)
                d = read(I, st, c)
                if not isinstance(d, dict):
                    raise Undec("piece dictionary")
                got = [tag_of(I, st, vals[0]), d["mark"]]
            else:
                got = [tag_of(I, st, x) for x in vals]
            dd = dict(zip(names[len(names) - len(f.defaults[0]):], f.defaults[0])) if f.defaults else {}
            other = {p: env[p] for p in names[main:] if p != "name" and p in dd and env[p] is not dd[p] and env[p] != dd[p]}
            if other:
                self.ck.bad(self.rule, "settings", self.w, f"{fn.split('.')[-1]} is given {show(other)}")
            return new_obj(I, "vdata.Raw", {}, st, [Tup((kind, *(Tup(x) if isinstance(x, tuple) else x for x in got), I.resolve(env.get("name"), st)))])

        return hk

    def close(self):
        self.I.hooks.clear()
        self.I.hooks.update(self.old)


def sources(I, st, v):
    its = I.concrete_items(v, st)
    if its is None:
        raise Undec(f"pieces {show(v)}"[:200])
    out = []
    for p in its:
        c = I.cell(st, p)
        if c is None or c.kind != "obj" or "source" not in c.attrs:
            raise Undec("piece")
        out.append(tup(Evalr(I, st, {})(c.attrs["source"])))
    return out


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


FILES = ["data/b/scores/two.mxl", "data/a/scores/one.mxl", "data/b/scores/three.mxl", "data/a/scores/zero.mxl", "data/a/scores/notes.txt",
         "data/b/chords/two.csv", "data/a/chords/one.csv", "data/a/chords/three.csv", "data/b/chords/one.csv", "data/a/chords/other.csv", "lone/only.mxl", "data/a/deeper/scores/ten.mxl", "data/a/deeper/chords/ten.csv"]
SCORES = sorted(f for f in FILES if f.startswith("data/") and f.endswith(".mxl"))


def label_of(f):
    parts = f.split("/")
    c = "/".join(parts[:-2] + ["chords", parts[-1][:-4] + ".csv"])
    return c if c in FILES else None


def pieces(ck, I, W, tier):
    fn = DU + "load_pieces"
    w = loc(I, fn)
    I.fs = set(FILES) | {"h5/pieces.pkl"}

    def case(rule, name, kw, want, dicts=None, frames=None, paths=()):
        @section(ck, rule, name, w)
        def _():
            L = Loaders(ck, I, rule, w)
            L.dicts = dicts
            st = St()
            try:
                fr = None
                if frames is not None:
                    fr = corpus(I, st, frames[0], frames[1])
                    if frames[2]:
                        fr["chords"] = None

                    def clean(I, a, k, st, n):
                        if L.path(st, a, k) != "tables":
                            I.raise_now(st, "FileNotFoundError", n)
                        return Tup((fr["files"], fr["measures"], fr["chords"], fr["notes"]))

                    I.hooks[CRL] = clean
                k2 = {}
                for k, v in kw.items():
                    if k in paths:
                        v = new_obj(I, "vpath.Path", {}, st, [v])
                    k2[k] = LIST(I, st, v) if isinstance(v, list) else v
                s = summarise(I, fn, [], k2, st=st)
                st, (kind, v) = s.step({})
                if kind == "raise":
                    ck.add(rule, name, want == v.cls, w, f"{name}: raises {v.cls}, required {show(want)}"[:400])
                    return
                if isinstance(want, str):
                    ck.add(rule, name, False, w, f"{name}: {want} is not raised")
                    return
                got = sources(I, st, v)
            finally:
                L.close()
            d = ""
            if got != want:
                if len(got) != len(want):
                    d = f"{name}: {len(got)} pieces, required {len(want)}"
                else:
                    i = next(i for i in range(len(want)) if got[i] != want[i])
                    d = f"{name}: piece {i} is loaded from {show(got[i])}, required {show(want[i])}"
            ck.add(rule, name, got == want, w, d, n=len(want))

    def x(i):
        return ("xml", SCORES[i], label_of(SCORES[i]), f"{i}: {SCORES[i][5:]}")

    def xd(i, m):
        return ("dict", ("measures of " + SCORES[i],), m, f"{i}: {SCORES[i][5:]}")

    n = len(SCORES)
    for p in ((), ("input_path",)):
        how = "path" if p else "text"
        case("scores", f"all scores of a folder ({how})", dict(xml=True, input_path="data"), [x(i) for i in range(n)], paths=p)
        case("scores", f"one score file ({how})", dict(xml=True, input_path="data/b/scores/two.mxl"), [("xml", "data/b/scores/two.mxl", None, "0: two.mxl")], paths=p)
    case("scores", "a folder without scores", dict(xml=True, input_path="h5"), [])
    for ids in ([3, 0], [1], [4, 2, 1, 0]):
        case("scores", f"scores {ids}", dict(xml=True, input_path="data", file_ids=ids), [x(i) for i in ids])
        case("scores", f"scores {ids} stored", dict(xml=True, input_path="data", file_ids=ids, piece_dicts_path="h5/pieces.pkl"), [xd(i, f"d{k}") for k, i in enumerate(ids)], dicts=[f"d{k}" for k in range(len(ids))], paths=("piece_dicts_path",))
        for k, i in enumerate(ids):
            case("one piece", f"score {i} of {ids}", dict(xml=True, input_path="data", file_ids=ids, specific_id=i), [x(i)])
            case("one piece", f"score {i} of {ids} stored", dict(xml=True, input_path="data", file_ids=ids, specific_id=i, piece_dicts_path="h5/pieces.pkl"), [xd(i, f"d{k}")], dicts=[f"d{j}" for j in range(len(ids))])
    case("one piece", "score 3 of all", dict(xml=True, input_path="data", specific_id=3), [x(3)])
    case("one piece", "score 0 of all", dict(xml=True, input_path="data", specific_id=0), [x(0)])
    case("one piece", "unknown score", dict(xml=True, input_path="data", specific_id=n), "ValueError")
    case("one piece", "score not among the given ones", dict(xml=True, input_path="data", file_ids=[1, 2], specific_id=0), "ValueError")
    case("scores", "no stored pieces", dict(xml=True, input_path="data", piece_dicts_path="h5/none.pkl"), [x(i) for i in range(n)])
    case("scores", "some stored pieces", dict(xml=True, input_path="data", file_ids=[4, 1, 2], piece_dicts_path="h5/pieces.pkl"), [xd(4, "d4"), x(1), xd(2, "d2")], dicts=["d4", None, "d2"])

    ids = [4, 9, 2, 11]

    def t(i, chords=True):
        return ("tables", rows_for("notes", i), rows_for("chords", i) if chords else None, rows_for("measures", i), f"{i}: c{i}/f{i}")

    def td(i, m):
        return ("dict", rows_for("measures", i), m, f"{i}: c{i}/f{i}")

    for p in ((), ("input_path",)):
        case("tables", f"all files ({'path' if p else 'text'})", dict(xml=False, input_path="tables"), [t(i) for i in ids], frames=(ids, (), False), paths=p)
    case("tables", "no annotations", dict(input_path="tables"), [t(i, False) for i in ids], frames=(ids, (), True))
    for sel in ([11, 4], [9], [2, 9, 4]):
        case("tables", f"files {sel}", dict(input_path="tables", file_ids=sel), [t(i) for i in sel], frames=(ids, (), False))
        case("tables", f"files {sel} stored", dict(input_path="tables", file_ids=sel, piece_dicts_path="h5/pieces.pkl"), [td(i, f"d{k}") for k, i in enumerate(sel)], dicts=[f"d{k}" for k in range(len(sel))], frames=(ids, (), False))
        for k, i in enumerate(sel):
            case("one piece", f"file {i} of {sel}", dict(input_path="tables", file_ids=sel, specific_id=i), [t(i)], frames=(ids, (), False))
            case("one piece", f"file {i} of {sel} stored", dict(input_path="tables", file_ids=sel, specific_id=i, piece_dicts_path="h5/pieces.pkl"), [td(i, f"d{k}")], dicts=[f"d{j}" for j in range(len(sel))], frames=(ids, (), False))
    case("one piece", "file 2 of all", dict(input_path="tables", specific_id=2), [t(2)], frames=(ids, (), False))
    case("one piece", "unknown file", dict(input_path="tables", specific_id=0), "ValueError", frames=(ids, (), False))
    case("tables", "no stored pieces", dict(input_path="tables", piece_dicts_path="h5/none.pkl"), [t(i) for i in ids], frames=(ids, (), False))


NETS = ["ccm", "ctm", "csm", "ktm", "ksm"]
JM = PKG + "models.joint_model."
ICM = PKG + "models.initial_chord_models.SimpleInitialChordModel"


class Program:
    """a script's main part, analysed with the heavy parts replaced by ones that note what they are given"""

    def __init__(self, I, script, argv, fails=()):
        self.I, self.script, self.argv, self.fails = I, script, argv, fails
        self.made, self.given, self.pieces, self.ran, self.log, self.tried = None, None, None, None, [], []

    def bound(self, f, args, kw, st, node, skip=0):
        env = self.I.bindargs(f, list(args), dict(kw), st, node)
        return {p.arg: env.get(p.arg) for p in (f.node.args.args + f.node.args.kwonlyargs)[skip:]}

    def checkpoint(self, I, a, kw, st, n):
        cls, ck_ = a[0], fsm.text(I, st, [*a[1:], *kw.values()][0])
        if not isinstance(cls, ClassV) or ck_ is None:
            raise Undec("checkpoint")
        self.tried.append((cls.name, ck_))
        if cls.name in self.fails:
            I.raise_now(st, "RuntimeError", n)
        return new_obj(I, "vdata.Net", {}, st, [Tup((cls.name, ck_))])

    def icm(self, I, a, kw, st, n):
        v = I.resolve([*a, *kw.values()][0], st)
        extra = len(a) + len(kw) > 1
        return new_obj(I, "vdata.Net", {}, st, [Tup(("icm" if not extra else "icm with settings", v.items[1] if isinstance(v, Tup) else show(v)))])

    def him(self, I, a, kw, st, n):
        init, _ = I.get(JM + "HarmonicInferenceModel").lookup("__init__")
        self.given = {k: I.resolve(v, st) for k, v in self.bound(init, [None, *a], kw, st, n, 1).items()}
        m = read(I, st, self.given.pop("models", None))
        if not isinstance(m, dict):
            raise Undec("models")
        self.made = {}
        for k in m:
            v = I.getitem(a[0] if a else kw["models"], k, st, n)
            c = I.cell(st, v)
            if c is None or c.kind != "obj" or "source" not in c.attrs:
                raise Undec("model")
            self.made[k] = (tup(Evalr(I, st, {})(c.attrs["source"])), c.attrs.get("frozen"))
        return new_obj(I, "vdata.Raw", {}, st, ["joint model"])

    def run(self, extra=None):
        I = self.I
        old = dict(I.hooks)
        H = I.hooks
        H["method.load_from_checkpoint"] = self.checkpoint
        H[ICM] = self.icm
        H[DU + "load_kwargs_from_json"] = lambda I, a, kw, st, n: Tup(("json", fsm.text(I, st, [*a, *kw.values()][0])))
        H[JM + "HarmonicInferenceModel"] = self.him

        def lp(I, a, kw, st, n):
            env = self.bound(I.get(DU + "load_pieces"), a, kw, st, n)
            out = {}
            for k, v in env.items():
                v = I.resolve(v, st)
                t = fsm.text(I, st, v)
                out[k] = t if t is not None else read(I, st, v)
            self.pieces = out
            return LIST(I, st, [new_obj(I, "vdata.Raw", {}, st, ["piece"])])

        H[DU + "load_pieces"] = lp
        for k, v in (extra or {}).items():
            H[k] = v
        I.argv = list(self.argv)
        try:
            outs, raises = I.run_main(self.script)
        finally:
            I.hooks.clear()
            I.hooks.update(old)
        if len(outs) + len(raises) != 1:
            raise Undec(f"{len(outs)} ends, {len(raises)} exceptions")
        return ("end", outs[0][0]) if outs else ("raise", raises[0][1])


def work(P, script):
    """the function doing a script's work, noted"""
    def hk(name):
        def f(I, a, kw, st, n):
            env = P.bound(I.get(name), a, kw, st, n)
            P.ran = {}
            for k, v in env.items():
                t = fsm.text(I, st, v)
                its = None if t is not None else I.concrete_items(v, st) if I.cell(st, v) is not None and I.cell(st, v).kind == "list" else None
                c = I.cell(st, v)
                P.ran[k] = t if t is not None else len(its) if its is not None else tup(Evalr(I, st, {})(c.attrs["source"])) if c is not None and c.kind == "obj" and "source" in c.attrs else I.resolve(v, st)
            return None

        return f

    return {n: hk(n) for n in (script + ".annotate", script + ".evaluate") if has(P.I, n)}


def has(I, name):
    try:
        return isinstance(I.get(name), FuncV)
    except AnalysisBroken:
        return False


def ckpt(m, v, e, root="cks"):
    return f"{root}/{m}/lightning_logs/version_{v}/checkpoints/epoch={e}.ckpt"


VERSIONS = {"ccm": [(0, 1), (1, 3), (2, 2)], "ctm": [(3, 4)], "csm": [(0, 5), (1, 1), (1, 2), (7, 1)], "ktm": [(2, 8), (5, 1)], "ksm": [(0, 2), (0, 1)]}


def models(ck, I, W, tier):
    w = loc(I, DU + "load_models_from_argparse")
    CLS = {k: [c.name for c in read_classes(I, k)] for k in NETS}
    I.fs = {ckpt(m, v, e) for m, vs in VERSIONS.items() for v, e in vs} | {ckpt(m, 0, 9, "other") for m in NETS} | {"mine/a.ckpt", "mine/b.ckpt", "cks/icm/initial_chord_prior.json", "icm.json", "other/icm/initial_chord_prior.json", ckpt("ccm", 4, 1)[:-5] + ".txt"}

    def case(script, name, argv, want, fails=(), icm="cks/icm/initial_chord_prior.json", cls=None):
        @section(ck, "models", f"{script}: {name}", w)
        def _():
            P = Program(I, script, argv, fails)
            kind, v = P.run(work(P, script))
            subj = f"{script}: {name}"
            if kind == "raise":
                if isinstance(want, str):
                    code = v.args[0] if getattr(v, "args", ()) else None
                    ck.add("models", subj, v.cls == want and (want != "SystemExit" or code not in (None, 0, False)), w, f"{subj}: ends in {v.cls} {show(code)}, required {want}")
                else:
                    ck.add("models", subj, False, w, f"{subj}: raises {v.cls}")
                return
            if isinstance(want, str):
                ck.add("models", subj, False, w, f"{subj}: no {want}, models {show(P.made)}"[:300])
                return
            if P.made is None:
                raise Undec("no joint model built")
            exp = {m: ((cls or {}).get(m, CLS[m][0]), want[m]) for m in NETS}
            exp["icm"] = ("icm", icm)
            for m in [*NETS, "icm"]:
                got = P.made.get(m)
                ok = got is not None and got[0] == exp[m]
                ck.add("models", f"{subj} {m}", ok, w, f"{subj}: {m} is {show(got and got[0])}, required {show(exp[m])}")
                if ok and m != "icm":
                    ck.add("models", f"{subj} {m} fixed", got[1] is True, w, f"{subj}: {m} is not frozen after loading")
            ck.add("models", f"{subj} only these", set(P.made) == set(exp), w, f"{subj}: models {sorted(P.made)}, required {sorted(exp)}")

    last = {m: sorted(ckpt(m, v, e) for v, e in vs)[-1] for m, vs in VERSIONS.items()}
    for script in ("annotate", "test"):
        base = ["--checkpoint", "cks"] + (["--no_h5"] if script == "test" else [])
        case(script, "defaults", base, last)
        other = {m: ckpt(m, 0, 9, "other") for m in NETS}
        case(script, "another folder", ["--checkpoint", "other"] + base[2:], other, icm="other/icm/initial_chord_prior.json")
        for m in NETS:
            if script == "test" and tier == "quick":
                v = VERSIONS[m][0][0]
                case(script, f"a version of {m}", base + [f"--{m}-version", str(v)], dict(last, **{m: max(ckpt(m, v, e) for v2, e in VERSIONS[m] if v2 == v)}))
                case(script, f"a file for {m}", base + [f"--{m}", "mine/a.ckpt"], dict(last, **{m: "mine/a.ckpt"}))
                continue
            for v in sorted({v for v, _ in VERSIONS[m]}):
                case(script, f"version {v} of {m}", base + [f"--{m}-version", str(v)], dict(last, **{m: max(ckpt(m, v, e) for v2, e in VERSIONS[m] if v2 == v)}))
            case(script, f"missing version of {m}", base + [f"--{m}-version", "4"], "SystemExit")
            case(script, f"a file for {m}", base + [f"--{m}", "mine/a.ckpt"], dict(last, **{m: "mine/a.ckpt"}))
            case(script, f"several files for {m}", base + [f"--{m}", "mine/*.ckpt"], dict(last, **{m: "mine/b.ckpt"}))
            case(script, f"a missing file for {m}", base + [f"--{m}", "mine/c.ckpt"], "SystemExit")
            v = VERSIONS[m][0][0]
            case(script, f"a file and a version for {m}", base + [f"--{m}", "mine/a.ckpt", f"--{m}-version", str(v)], dict(last, **{m: max(ckpt(m, v, e) for v2, e in VERSIONS[m] if v2 == v)}))
            for k in range(1, len(CLS[m])):
                case(script, f"{m} of kind {k + 1}", base, last, fails=CLS[m][:k], cls={m: CLS[m][k]})
            case(script, f"{m} unreadable", base, "AssertionError", fails=CLS[m])
        case(script, "a file for icm", base + ["--icm-json", "icm.json"], last, icm="icm.json")
        case(script, "no models", ["--checkpoint", "none"], "SystemExit")


def read_classes(I, k):
    d = I.get(JM + "MODEL_CLASSES")
    v = I.getitem(d, k, St(), None)
    return I.concrete_items(v, St())


def run(ck, I, tier):
    ck.rule("scores", "scores are found in order of their path; each is loaded with its own label file (or none), under its number and relative path; stored pieces are used instead, by position, with the measures of that score")
    ck.rule("tables", "each file of a corpus is loaded from its own notes, chords and measures, under its id, corpus and name; stored pieces are used instead, by position, with that file's measures")
    ck.rule("one piece", "a single id gives exactly that piece; an id that is not to be loaded is rejected")
    ck.rule("models", "each kind of model is loaded (frozen) from the checkpoint asked for: the given file, the given version, else the last checkpoint under --checkpoint; the initial chord prior from its json file; a missing checkpoint ends the program")
    I.max_budget = 20000000
    fsm.install(I, FILES)
    W = World(I)
    pieces(ck, I, W, tier)
    models(ck, I, W, tier)
