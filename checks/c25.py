"""C25: creating the training data and training the models."""
from sa import fsm, pdm
from sa.engine import ClassV, ExtV

from .c16 import corpus
from .c18 import read
from .c23 import CRL, DU, NETS, sources, tup
from .common import *

DSM = PKG + "data.datasets."
SPLITS = ["train", "valid", "test"]
CLASSES = {"ctm": "ChordTransitionDataset", "ccm": "ChordClassificationDataset", "csm": "ChordSequenceDataset", "ktm": "KeyTransitionDataset", "ksm": "KeySequenceDataset"}
MODELS = {"ccm": ("chord_classifier_models", "SimpleChordClassifier"), "ctm": ("chord_transition_models", "SimpleChordTransitionModel"), "csm": ("chord_sequence_models", "SimpleChordSequenceModel"),
          "csm-p": ("chord_sequence_models", "PitchBasedChordSequenceModel"), "ktm": ("key_transition_models", "SimpleKeyTransitionModel"), "ksm": ("key_sequence_models", "SimpleKeySequenceModel")}
FILES = ["data/b/scores/two.mxl", "data/a/scores/one.mxl", "data/b/scores/three.mxl", "data/a/scores/zero.mxl", "data/b/chords/two.csv", "data/a/chords/one.csv", "data/a/chords/three.csv", "data/a/chords/zero.csv"]


def value(I, st, v):
    """a plain picture of a value handed over"""
    v = I.resolve(v, st)
    t = fsm.text(I, st, v)
    if t is not None:
        return t
    c = I.cell(st, v)
    if c is not None and c.kind == "obj" and "source" in c.attrs:
        return tup(Evalr(I, st, {})(c.attrs["source"]))
    if c is not None and c.kind == "df" and "corpus_name" in c.cols:
        return ("files", *(c.index if hasattr(c, "index") and not callable(c.index) else ()))
    if c is not None and c.kind == "df" and "tag" in c.cols:
        return ("rows", *c.data[c.cols.index("tag")])
    if c is not None and c.kind == "list":
        its = I.concrete_items(v, st)
        if its is None:
            raise Undec("list")
        return [value(I, st, x) for x in its]
    if c is not None and c.kind == "dict":
        if c.open:
            raise Undec("dict")
        return {value(I, st, k): value(I, st, x) for k, x in c.items}
    if isinstance(v, Tup):
        return [value(I, st, x) for x in v.items]
    return v


class Main:
    def __init__(self, I, script, argv):
        self.I, self.script, self.argv = I, script, argv
        self.log = []

    def note(self, name, ret=None, params=None, skip=0):
        """a hook that notes its (named) arguments"""
        def hk(I, a, kw, st, n):
            if params is not None:
                f = params
                env = I.bindargs(f, [None] * skip + list(a), dict(kw), st, n)
                rec = {p.arg: value(I, st, env.get(p.arg)) for p in (f.node.args.args + f.node.args.kwonlyargs)[skip:]}
            else:
                rec = {**{i: value(I, st, x) for i, x in enumerate(a)}, **{k: value(I, st, x) for k, x in kw.items()}}
            self.log.append((name, rec))
            return ret(I, rec, st) if callable(ret) else ret

        return hk

    def run(self, hooks):
        I = self.I
        old = dict(I.hooks)
        I.hooks.update(hooks)
        I.argv, I.dirs = list(self.argv), {"."}
        try:
            outs, raises = I.run_main(self.script)
        finally:
            I.hooks.clear()
            I.hooks.update(old)
        if len(outs) + len(raises) != 1:
            raise Undec(f"{len(outs)} ends, {len(raises)} exceptions")
        return ("end", None) if outs else ("raise", raises[0][1])

    def get(self, name):
        return [r for n, r in self.log if n == name]


def failed(v):
    return v is not None and v.cls == "SystemExit" and (v.args[0] if getattr(v, "args", ()) else None) not in (None, 0)


def creation(ck, I, tier):
    w = "create_h5_data.py"
    ids = [4, 9, 2, 11, 7, 30]
    names = {}

    def case(name, argv, want, exits=False, xml=False, empty=(), out="h5_data", seed=0):
        @section(ck, "creating", name, w)
        def _():
            P = Main(I, "create_h5_data", argv)
            opened = {}

            def clean(I, rec, st):
                fr = corpus(I, st, ids, ())
                return Tup((fr["files"], fr["measures"], fr["chords"], fr["notes"]))

            def splits(I, rec, st):
                cl = rec["datasets"]
                P.classes = [c.name for c in cl]
                made = LIST(I, st, [LIST(I, st, [None if s in empty else new_obj(I, "vdata.Stored", {}, st, [Tup((c.name, s))]) for s in range(3)]) for c in cl])
                sid = LIST(I, st, [LIST(I, st, [] if s in empty else [10 * s + 1, 10 * s + 2][: 2 - s % 2]) for s in range(3)])
                sp = LIST(I, st, [LIST(I, st, [] if s in empty else [new_obj(I, "vdata.Annotated", {}, st, [f"piece {i}", None]) for i in [10 * s + 1, 10 * s + 2][: 2 - s % 2]]) for s in range(3)])
                return Tup((made, sid, sp))

            def opening(I, rec, st):
                p = rec[0] if 0 in rec else rec.get("file")
                if not fsm.writable(I, p):
                    I.raise_now(st, "FileNotFoundError", None)
                return new_obj(I, "vdata.Raw", {}, st, [Tup(("file", p))])

            hooks = {CRL: P.note("clean", clean), DSM + "get_dataset_splits": P.note("splits", splits, I.get(DSM + "get_dataset_splits")), "builtins.open": P.note("open", opening), "pickle.dump": P.note("dump"),
                     "vdata.Stored.to_h5": P.note("to_h5")}
            kind, v = P.run(hooks)
            if exits:
                ck.add("creating", name, kind == "raise" and failed(v), w, f"{name}: accepted" if kind != "raise" else f"{name}: ends in {v.cls}")
                return
            if kind == "raise":
                ck.bad("creating", name, w, f"{name}: ends in {v.cls}")
                return
            g = P.get("splits")
            if len(g) != 1:
                raise Undec("splits")
            g = g[0]
            ck.add("creating", f"{name}: kinds of data", sorted(P.classes) == sorted(CLASSES.values()), w, f"{name}: data of kinds {P.classes}")
            if xml:
                got = g["xml_and_csv_paths"]
                ck.add("creating", f"{name}: files", got == want["xml"] and not g["data_dfs"], w, f"{name}: files {show(got)}, required {show(want['xml'])}")
            else:
                d = g["data_dfs"]
                ok = isinstance(d, dict) and d.get("files") == ("files", *want["ids"]) and not g["xml_and_csv_paths"]
                ck.add("creating", f"{name}: files", ok, w, f"{name}: uses the files {show(d and d.get('files'))}, required {want['ids']}")
                for k in ("chords", "measures", "notes"):
                    ck.add("creating", f"{name}: {k}", isinstance(d, dict) and isinstance(d.get(k), tuple) and all(t.startswith(k) for t in d[k][1:]), w, f"{name}: table {k} is {show(d.get(k))}"[:200])
                ck.add("creating", f"{name}: input", list(P.get("clean")[0].values())[:1] == [want.get("input", "corpus_data")], w, f"{name}: reads {show(P.get('clean'))}")
            sp = g["splits"]
            ok = isinstance(sp, list) and len(sp) == 3 and all(abs(a - b) < 1e-9 for a, b in zip(sp, want.get("splits", (.8, .1, .1))))
            ck.add("creating", f"{name}: proportions", ok, w, f"{name}: proportions {show(sp)}, required {want.get('splits', (.8, .1, .1))}")
            ck.add("creating", f"{name}: seed", g["seed"] == seed, w, f"{name}: seed {show(g['seed'])}, required {seed}")
            wrote = {}
            for r in P.get("to_h5"):
                r = dict(r)
                src = r.pop(0)
                path = r.pop(1, None) or r.pop("h5_path", None)
                fid = r.pop(2, None) or r.pop("file_ids", None)
                wrote[src] = (path, fid)
                if not fsm.writable(I, path):
                    ck.bad("creating", f"{name}: folder", w, f"{name}: the folder of {path} does not exist")
            exp = {(c, s): [10 * s + 1, 10 * s + 2][: 2 - s % 2] for c in CLASSES.values() for s in range(3) if s not in empty}
            for k, e in exp.items():
                got = wrote.get(k)
                ck.add("creating", f"{name}: {k[0]} {SPLITS[k[1]]} with its ids", got is not None and got[1] == e, w, f"{name}: {k[0]} {SPLITS[k[1]]} written with ids {show(got and got[1])}, required {e}")
            ck.add("creating", f"{name}: nothing else", set(wrote) <= set(exp), w, f"{name}: also writes {show(sorted(set(wrote) - set(exp)))}")
            paths = [p for p, _ in wrote.values()]
            ck.add("creating", f"{name}: a file each", len(set(paths)) == len(paths) and all(isinstance(p, str) and p.startswith(out + "/") for p in paths), w, f"{name}: files {show(paths)}")
            dumps = {}
            for r in P.get("dump"):
                dumps[r[1][1] if isinstance(r.get(1), tuple) else None] = r[0]
            for s in range(3):
                e = [] if s in empty else [{"piece": f"piece {i}"} for i in exp[CLASSES["ctm"], s]]
                fit = [p for p, x in dumps.items() if x == e]
                if s in empty:
                    continue
                ck.add("creating", f"{name}: {SPLITS[s]} pieces", len(fit) == 1 and fit[0].startswith(out + "/"), w, f"{name}: the pieces of {SPLITS[s]} are not stored (stored: {show(dumps)})"[:300])
                if len(fit) == 1:
                    names["pieces", SPLITS[s], seed, out] = fit[0]
            for (c, s), (p, _) in wrote.items():
                names[c, SPLITS[s], seed, out] = p

    case("nothing set", [], dict(ids=ids))
    case("input, output, seed", ["-i", "in/put", "-o", "out/here", "-s", "7"], dict(ids=ids, input="in/put"), out="out/here", seed=7)
    case("seed 3", ["--seed", "3"], dict(ids=ids), seed=3)
    case("proportions", ["--splits", "6", "3", "3"], dict(ids=ids, splits=(.5, .25, .25)))
    case("no test data", ["--splits", "0.6", "0.4", "0"], dict(ids=ids, splits=(.6, .4, 0)), empty=(2,))
    case("only training", ["--splits", "2", "0", "0"], dict(ids=ids, splits=(1, 0, 0)), empty=(1, 2))
    case("negative proportion", ["--splits", "-1", "1", "1"], None, exits=True)
    case("no proportion", ["--splits", "0", "0", "0"], None, exits=True)
    case("debug", ["--debug"], dict(ids=ids[:5]))
    case("one corpus", ["-c", "c9"], dict(ids=[9]))
    case("two corpora", ["-c", "c2", "c11"], dict(ids=[2, 11]))
    case("log file", ["-l", "logs/x.log"], dict(ids=ids))
    scores = sorted(f for f in FILES if f.endswith(".mxl"))
    lab = {f: f.replace("scores", "chords")[:-4] + ".csv" for f in scores}
    use = [f for f in scores if lab[f] in FILES]
    case("scores", ["-x", "-i", "data"], dict(xml={"xmls": use, "csvs": [lab[f] for f in use]}), xml=True)
    return names


def training(ck, I, names, tier):
    w = "train.py"
    h5 = lambda c, s, seed=0, d="h5_data": names.get((c, s, seed, d))  # noqa: E731

    def case(m, name, argv, want):
        kind_of = m if m in MODELS else m

        @section(ck, "training", f"{m}: {name}", w)
        def _():
            base = m.split("-")[0]
            P = Main(I, "train", ["-m", base] + argv)
            subj = f"{m}: {name}"

            def model(cls, key):
                init, _ = cls.lookup("__init__")

                def hk(I, a, kw, st, n):
                    env = I.bindargs(init, [None, *a], dict(kw), st, n)
                    rec = {p.arg: value(I, st, env.get(p.arg)) for p in init.node.args.args[1:]}
                    P.log.append(("model", dict(rec, _cls=cls.name)))
                    return new_obj(I, "vdata.Trainee", {}, st, ["model " + cls.name, DICT(I, st, {"mark": "kwargs of " + cls.name})])

                return hk

            hooks = {}
            for k, (mod, cn) in MODELS.items():
                cls = I.get(PKG + f"models.{mod}.{cn}")
                hooks[cls.qual] = model(cls, k)

            def dataset(I, rec, st):
                return new_obj(I, "vdata.Raw", {}, st, [Tup(("data", rec["h5_path"], rec["dataset_class"].name if isinstance(rec["dataset_class"], ClassV) else None))])

            def loader(I, rec, st):
                return new_obj(I, "vdata.Raw", {}, st, [Tup(("loader", Tup(rec[0] if 0 in rec else rec["dataset"])))])

            hooks[DSM + "h5_to_dataset"] = P.note("dataset", dataset, I.get(DSM + "h5_to_dataset"))
            hooks["vtorch.DataLoader"] = P.note("loader", loader)
            hooks["pytorch_lightning.Trainer"] = P.note("trainer", lambda I, rec, st: new_obj(I, "vdata.Trainer", {}, st, ["trainer"]))
            hooks["vdata.Trainer.fit"] = P.note("fit")
            hooks["torch.set_num_threads"] = P.note("threads")
            hooks[DU + "load_kwargs_from_json"] = P.note("kwargs", lambda I, rec, st: DICT(I, st, dict(want.get("kwargs", {}))))
            kind, v = P.run(hooks)
            if kind == "raise":
                ck.bad("training", subj, w, f"{subj}: ends in {v.cls}")
                return
            md, fit, dss, ld, tr = P.get("model"), P.get("fit"), P.get("dataset"), P.get("loader"), P.get("trainer")
            if len(md) != 1 or len(fit) != 1 or len(tr) != 1:
                raise Undec("training")
            md = md[0]
            cn = MODELS[m][1]
            ck.add("training", f"{subj}: model", md["_cls"] == cn, w, f"{subj}: trains {md['_cls']}, required {cn}")
            ck.add("training", f"{subj}: learning rate", md.get("learning_rate") == want.get("lr", 0.001), w, f"{subj}: learning rate {show(md.get('learning_rate'))}")
            for k, e in want.get("kwargs", {}).items():
                ck.add("training", f"{subj}: {k}", md.get(k) == e, w, f"{subj}: {k} = {show(md.get(k))}, required {show(e)}")
            pts = {k: x for k, x in md.items() if "pitch" in k and "type" in k and k != "_cls" or k in ("input_pitch", "output_pitch")}
            ck.add("training", f"{subj}: pitch types", len({x.name for x in pts.values() if isinstance(x, EnumV)}) <= 1, w, f"{subj}: pitch types {show(pts)} differ, so the joint model refuses them")
            f = fit[0]
            a = [f[i] for i in sorted(k for k in f if isinstance(k, int))] + [f[k] for k in f if not isinstance(k, int)]
            seed, d = want.get("seed", 0), want.get("dir", "h5_data")
            cls = CLASSES[base]
            tp, vp = h5(cls, "train", seed, d), h5(cls, "valid", seed, d)
            if tp is None or vp is None:
                raise Undec("names of the files")
            exp = ["model " + cn, ("loader", ("data", tp, cls)), ("loader", ("data", vp, cls))]
            got = [x for x in a if x != "trainer"]
            ck.add("training", f"{subj}: data", got == exp, w, f"{subj}: trained with {show(got)}, required {show(exp)}"[:400])
            for x in dss:
                ck.add("training", f"{subj}: settings of the data", x["dataset_kwargs"] == {"mark": "kwargs of " + cn}, w, f"{subj}: data read with {show(x['dataset_kwargs'])}, required the model's own")
            ok = lambda v: isinstance(v, ExtV) and v.name.endswith("from_numpy")  # noqa: E731
            ck.add("training", f"{subj}: tensors", all(ok(x["transform"]) for x in dss), w, f"{subj}: data not converted to tensors")
            sizes = {s: I.resolve(I.get(DSM + cls).lookup(s + "_batch_size")[0], St()) for s in ("train", "valid")}
            for x in ld:
                data = x[0] if 0 in x else x.get("dataset")
                s = "train" if data[1] == tp else "valid"
                ck.add("training", f"{subj}: {s} batches", x.get("batch_size", x.get(1)) == sizes[s], w, f"{subj}: {s} batch size {show(x.get('batch_size'))}, required {show(sizes[s])}")
                ck.add("training", f"{subj}: {s} order", bool(x.get("shuffle", x.get(2, False))) == (s == "train"), w, f"{subj}: {s} data {'not ' if s == 'train' else ''}shuffled")
                ck.add("training", f"{subj}: {s} workers", x.get("num_workers") == want.get("workers", 4), w, f"{subj}: {show(x.get('num_workers'))} workers")
            t = tr[0]
            root = want.get("root", "checkpoints") + "/" + base
            ck.add("training", f"{subj}: checkpoints", t.get("default_root_dir") == root, w, f"{subj}: checkpoints go to {show(t.get('default_root_dir'))}, but are looked for in {root}")
            ck.add("training", f"{subj}: resume", t.get("resume_from_checkpoint") == want.get("resume"), w, f"{subj}: resumes from {show(t.get('resume_from_checkpoint'))}")
            ck.add("training", f"{subj}: gpu", t.get("gpus") == want.get("gpu"), w, f"{subj}: gpu {show(t.get('gpus'))}")
            ck.add("training", f"{subj}: threads", [list(x.values()) for x in P.get("threads")] == ([[want["threads"]]] if "threads" in want else []), w, f"{subj}: threads {show(P.get('threads'))}")

    for m in MODELS:
        p = ["--pitch-based"] if m == "csm-p" else []
        case(m, "nothing set", p, {})
        case(m, "settings", p + ["-lr", "0.25", "--checkpoint", "cks", "-s", "7", "-h5", "out/here", "-w", "2", "--resume", "r.ckpt", "--gpu", "1", "--threads", "3"], dict(lr=.25, root="cks", seed=7, dir="out/here", workers=2, resume="r.ckpt", gpu="1", threads=3))
        case(m, "model settings", p + ["--model-kwargs", "k.json", "--seed", "3"], dict(kwargs={"hidden_dim": 33}, seed=3))
        if m in ("ccm", "ktm"):
            case(m, "pitch based without effect", ["--pitch-based"], {})

    def icm(name, argv, want):
        @section(ck, "training", f"icm: {name}", w)
        def _():
            seed, d = want.get("seed", 0), want.get("dir", "h5_data")
            hp, pp = h5(CLASSES["ctm"], "train", seed, d), names.get(("pieces", "train", seed, d))
            if hp is None or pp is None:
                raise Undec("names of the files")
            P = Main(I, "train", ["-m", "icm"] + argv)
            subj = f"icm: {name}"

            def ids(I, a, kw, st, n):
                p = fsm.text(I, st, a[0])
                P.log.append(("h5", p))
                return new_obj(I, "vdata.H5Ids", {}, st, [I.ext.mkarr(I, st, [6, 3]) if want.get("ids", True) else None])

            def pcs(I, rec, st):
                return LIST(I, st, [new_obj(I, "vdata.Annotated", {}, st, [f"piece {i}", LIST(I, st, [new_obj(I, "vdata.Raw", {}, st, [f"chord {k} of {i}"]) for k in range(3)])]) for i in (6, 3)])

            fn = PKG + "models.initial_chord_models.train_icm"
            kind, v = P.run({"vdata.File": ids, DU + "load_pieces": P.note("pieces", pcs, I.get(DU + "load_pieces")), fn: P.note("train", None, I.get(fn)), DU + "load_kwargs_from_json": P.note("kwargs", lambda I, rec, st: DICT(I, st, {}))})
            if not want.get("ids", True):
                ck.add("training", subj, kind == "raise" and failed(v), w, f"{subj}: not ended with an error")
                return
            if kind == "raise" and not (v.cls == "SystemExit" and (not v.args or v.args[0] in (None, 0))):
                ck.bad("training", subj, w, f"{subj}: ends in {v.cls} {show(v.args)}")
                return
            ck.add("training", f"{subj}: ids", P.get("h5") == [hp], w, f"{subj}: ids from {show(P.get('h5'))}, required {hp}")
            if len(P.get("pieces")) != 1 or len(P.get("train")) != 1:
                raise Undec("pieces")
            g = P.get("pieces")[0]
            e = dict(xml="-x" in argv, input_path=want.get("input", "corpus_data"), piece_dicts_path=pp, file_ids=[6, 3], specific_id=None)
            for k, x in e.items():
                ck.add("training", f"{subj}: {k}", g.get(k) == x, w, f"{subj}: pieces loaded with {k} = {show(g.get(k))}, required {show(x)}")
            t = P.get("train")[0]
            ck.add("training", f"{subj}: chords", t.get("chords") == ["chord 0 of 6", "chord 0 of 3"], w, f"{subj}: trained on {show(t.get('chords'))}, required the first chord of every piece")
            path = want.get("root", "checkpoints") + "/icm/initial_chord_prior.json"
            ck.add("training", f"{subj}: file", t.get("json_path") == path, w, f"{subj}: written to {show(t.get('json_path'))}, but looked for in {path}")
            ck.add("training", f"{subj}: folder", fsm.writable(I, path), w, f"{subj}: the folder of {path} does not exist")

    icm("nothing set", [], {})
    icm("settings", ["--checkpoint", "cks", "-s", "7", "-h5", "out/here", "-x", "-i", "data"], dict(root="cks", seed=7, dir="out/here", input="data"))
    icm("no ids", [], dict(ids=False))


def run(ck, I, tier):
    ck.rule("creating", "data creation uses the files asked for (each score with its own labels), the proportions (normalised) and seed given, and writes every non-empty split of every kind of data, with the ids of its pieces, and the pieces themselves, to a file of its own")
    ck.rule("training", "training builds the model asked for with the settings given, reads the training and validation files which data creation writes for that kind, split and seed, prepared with the model's own settings, and stores its result where the other programs look for it")
    I.max_budget = 20000000
    fsm.install(I, FILES)
    names = creation(ck, I, tier)
    training(ck, I, names, tier)
