"""C24: the annotation, evaluation and grid search programs."""
import itertools
import shlex
from fractions import Fraction

from sa import fsm, pdm
from sa.engine import ExtV

from .c18 import read
from .c23 import JM, NETS, Program, ckpt, tup, work
from .common import *

F = Fraction
EU = PKG + "utils.eval_utils."
OPTIONS = ["min_chord_change_prob", "max_no_chord_change_prob", "max_chord_length", "min_key_change_prob", "max_no_key_change_prob", "beam_size",
           "max_chord_branching_factor", "target_chord_branch_prob", "max_key_branching_factor", "target_key_branch_prob", "hash_length", "ksm_exponent"]
VALUES = ["0.125", "0.875", "7/2", "0.375", "0.625", "17", "9", "0.8125", "6", "0.9375", "3", "12.5"]
# the settings of the systems described in the paper, by csm version
PAPER = {0: (.25, .45, 8, .1, .75, 50, 5, .75, 2, .5, 5, 100), 1: (.25, .5, 8, .05, .75, 50, 5, .75, 2, .5, 5, 50), 2: (.25, .45, 8, .05, .75, 50, 5, .5, 2, .5, 5, 50)}
PAPER_FH = {v: (.3, .4, 8, .1, .7, 50, 5, .75, 2, .5, 5, 30) for v in (0, 1, 2)}


def number(o, text):
    return F(text) if o == "max_chord_length" else int(text) if o in ("beam_size", "max_chord_branching_factor", "max_key_branching_factor", "hash_length") else float(text)


def files():
    out = {"cks/icm/initial_chord_prior.json", "checkpoints/icm/initial_chord_prior.json"}
    for root in ("cks", "checkpoints"):
        for m in NETS:
            out |= {ckpt(m, v, 1, root) for v in (0, 1, 2, 3)}
    return out


def defaults(I):
    init, _ = I.get(JM + "HarmonicInferenceModel").lookup("__init__")
    names = [p.arg for p in init.node.args.args]
    d = init.defaults[0]
    return dict(zip(names[len(names) - len(d):], d))


def settings(ck, I, tier):
    d0 = defaults(I)
    if any(o not in d0 for o in OPTIONS):
        raise Undec("settings of the joint model")

    def case(script, name, argv, want, exits=False):
        w = loc(I, JM + "from_args")

        @section(ck, "settings", f"{script}: {name}", w)
        def _():
            P = Program(I, script, argv)
            kind, v = P.run(work(P, script))
            subj = f"{script}: {name}"
            if kind == "raise":
                code = v.args[0] if getattr(v, "args", ()) else None
                ck.add("settings", subj, exits and v.cls == "SystemExit" and code not in (None, 0), w, f"{subj}: ends in {v.cls} {show(code)}")
                return
            if exits:
                ck.add("settings", subj, False, w, f"{subj}: accepted")
                return
            if P.given is None:
                raise Undec("no joint model built")
            for o in OPTIONS:
                g = P.given.get(o)
                ck.add("settings", f"{subj} {o}", isinstance(g, (int, float, F)) and g == want[o], w, f"{subj}: {o} is {show(g)}, required {show(want[o])}")

    for script in ("annotate", "test"):
        base = ["--checkpoint", "cks"] + (["--no_h5"] if script == "test" else [])
        case(script, "nothing set", base, d0)
        every = []
        for o, t in zip(OPTIONS, VALUES):
            every += ["--" + o.replace("_", "-"), t]
            if script == "annotate" or tier == "thorough":
                case(script, f"{o} set", base + ["--" + o.replace("_", "-"), t], dict(d0, **{o: number(o, t)}))
        case(script, "everything set", base + every, {o: number(o, t) for o, t in zip(OPTIONS, VALUES)})
        for flag, table in (("--defaults", PAPER), ("--fh-defaults", PAPER_FH)):
            for v in (0, 1, 2):
                case(script, f"{flag} csm version {v}", base + [flag, "--csm-version", str(v)], dict(zip(OPTIONS, table[v])))
            case(script, f"{flag} csm version 3", base + [flag, "--csm-version", "3"], None, exits=True)
            case(script, f"{flag} no csm version", base + [flag], dict(zip(OPTIONS, table[2])))


def inputs(ck, I, tier):
    w = "annotate.py"

    def case(script, name, argv, want, out="outputs", forces=None, h5=None):
        @section(ck, "inputs", f"{script}: {name}", w)
        def _():
            P = Program(I, script, argv)
            extra = work(P, script)
            opened, threads, logs = [], [], []
            extra["torch.set_num_threads"] = lambda I, a, kw, st, n: threads.append(I.resolve([*a, *kw.values()][0], st))
            extra["logging.basicConfig"] = lambda I, a, kw, st, n: logs.append({k: fsm.text(I, st, v) if k == "filename" else I.resolve(v, st) for k, v in kw.items()})

            def h5file(I, a, kw, st, n):
                p = fsm.text(I, st, a[0])
                opened.append(p)
                if h5 is None or p not in h5:
                    raise Undec(f"reads {p}")
                return new_obj(I, "vdata.H5Ids", {}, st, [None if h5[p] is None else I.ext.mkarr(I, st, h5[p])])

            extra["vdata.File"] = h5file
            kind, v = P.run(extra)
            subj = f"{script}: {name}"
            if want == "exit":
                code = (v.args[0] if getattr(v, "args", ()) else None) if kind == "raise" else None
                ck.add("inputs", subj, kind == "raise" and v.cls == "SystemExit" and code not in (None, 0), w, f"{subj}: not ended with an error")
                return
            if kind == "raise":
                ck.add("inputs", subj, False, w, f"{subj}: ends in {v.cls}")
                return
            if P.pieces is None or P.ran is None:
                raise Undec("pieces not loaded")
            for k, e in want.items():
                g = P.pieces.get(k)
                ck.add("inputs", f"{subj} {k}", g == e, w, f"{subj}: pieces are loaded with {k} = {show(g)}, required {show(e)}")
            vals = list(P.ran.values())
            ck.add("inputs", f"{subj} output", out in vals, w, f"{subj}: the output folder is {show(vals)}, required {out}")
            ok = P.ran.get("model", "joint model") == "joint model" and P.ran.get("pieces", 1) == 1 and "joint model" in vals and 1 in vals
            ck.add("inputs", f"{subj} model and pieces", ok, w, f"{subj}: run with {show(P.ran)}")
            if "--threads" in argv:
                ck.add("inputs", f"{subj} threads", threads == [3], w, f"{subj}: number of threads set to {show(threads)}, required 3")
            else:
                ck.add("inputs", f"{subj} threads", threads == [], w, f"{subj}: number of threads set to {show(threads)}")
            if len(logs) == 1:
                f = logs[0].get("filename")
                e = f"{out}/x.log" if "-l" in argv else None
                ck.add("inputs", f"{subj} log", f == e, w, f"{subj}: logs to {show(f)}, required {show(e)}")
                lv = logs[0].get("level")
                if isinstance(lv, ExtV):
                    ck.add("inputs", f"{subj} verbosity", lv.name == ("logging.DEBUG" if "-v" in argv else "logging.INFO"), w, f"{subj}: log level {lv.name}")
            if forces is not None:
                ck.add("inputs", f"{subj} forces", forces in vals, w, f"{subj}: forces {forces} not passed on")

    plain = dict(xml=False, input_path="corpus_data", specific_id=None, piece_dicts_path=None, file_ids=None)
    case("annotate", "nothing set", [], plain)
    case("annotate", "input", ["-i", "here/there"], dict(plain, input_path="here/there"))
    case("annotate", "scores", ["--input", "x.mxl", "-x"], dict(plain, input_path="x.mxl", xml=True))
    case("annotate", "one id", ["--id", "7"], dict(plain, specific_id=7))
    case("annotate", "id 0", ["--xml", "--id", "0"], dict(plain, specific_id=0, xml=True))
    case("annotate", "output", ["-o", "out/put"], plain, out="out/put")
    case("annotate", "threads", ["--threads", "3"], plain)
    case("annotate", "log", ["-o", "out", "-l", "x.log", "-v"], plain, out="out")

    def h5(kind, seed=0, d="h5_data"):
        return f"{d}/ChordTransitionDataset_{kind}_seed_{seed}.h5"

    def pk(kind, seed=0, d="h5_data"):
        return f"{d}/pieces_{kind}_seed_{seed}.pkl"

    I.fs = files() | {h5("valid"), h5("test"), h5("valid", 3), h5("test", 3, "mine"), h5("valid", 5)}
    data = {h5("valid"): [4, 2, 9], h5("test"): [1, 3], h5("valid", 3): [8], h5("test", 3, "mine"): [5, 6, 7], h5("valid", 5): None}
    for name, argv, f in (("valid", [], ("valid",)), ("test", ["--test"], ("test",)), ("seed", ["-s", "3"], ("valid", 3)), ("seed, folder, test", ["--seed", "3", "-h5", "mine", "--test"], ("test", 3, "mine"))):
        case("test", name, argv, dict(plain, file_ids=data[h5(*f)], piece_dicts_path=pk(*f)), h5=data)
    case("test", "no h5 file", ["--seed", "8", "--id", "3"], dict(plain, piece_dicts_path=pk("valid", 8), specific_id=3), h5=data)
    case("test", "h5 not used", ["--no_h5", "-x", "-i", "d"], dict(plain, xml=True, input_path="d"), h5=data)
    case("test", "forces", ["--no_h5", "--forces-json", "f.json", "-o", "o"], plain, out="o", forces="f.json", h5=data)
    case("test", "h5 without ids", ["--seed", "5"], "exit", h5=data)
    I.fs = files()


class Written:
    """writing tables to files, noted"""

    def __init__(self, I, debug):
        self.I, self.old, self.out, self.bad = I, dict(I.hooks), [], []
        I.hooks["method.to_csv"] = self.csv
        I.hooks["method.isEnabledFor"] = lambda I, a, kw, st, n: debug

        def made(name):
            def f(I, a, kw, st, n):
                env = I.bindargs(I.get(EU + name), list(a), dict(kw), st, n)
                rec = {k: I.resolve(v, st) for k, v in env.items()}
                for k in ("state", "piece"):
                    c = I.cell(st, rec.get(k))
                    rec[k] = Evalr(I, st, {})(c.attrs.get("source", c.attrs.get("name"))) if c is not None and c.kind == "obj" else show(rec.get(k))
                key = (name, rec["state"], rec["piece"], *[v for k, v in rec.items() if k not in ("state", "piece")])
                return pdm.frame(I, st, data={"tag": [Tup(key)]})

            return f

        for n in ("get_annotation_df", "get_label_df", "get_results_df", "log_state"):
            I.hooks[EU + n] = made(n)
        for n in ("evaluate_chords", "evaluate_keys", "evaluate_chords_and_keys_jointly"):
            I.hooks[EU + n] = self.measured(n)
        self.accs = []

    def measured(self, name):
        def f(I, a, kw, st, n):
            env = I.bindargs(I.get(EU + name), list(a), dict(kw), st, n)
            self.accs.append((name, {k: I.resolve(v, st) for k, v in env.items()}))
            return 0.5

        return f

    def csv(self, I, a, kw, st, n):
        c = I.cell(st, a[0])
        tag = tup(Evalr(I, st, {})(c.data[c.cols.index("tag")][0])) if c is not None and c.kind == "df" and "tag" in c.cols else None
        p = fsm.text(I, st, [*a[1:], *kw.values()][0])
        if tag is None or p is None:
            raise Undec("written table")
        if not fsm.writable(I, p):
            I.raise_now(st, "FileNotFoundError", n)
        self.out.append((p, tag, kw.get("sep", a[2] if len(a) > 2 else ",")))
        return None

    def close(self):
        self.I.hooks.clear()
        self.I.hooks.update(self.old)


def outputs(ck, I, W, tier):
    fn = "annotate.annotate"
    w = loc(I, fn) if False else "annotate.py annotate"
    names = ["0: corpus/one.tsv", "3: a/b/two.mxl", None, "12: c/three.v2.tsv", "5: d/four.tsv"]
    for debug in (False, True):
        for order in ([0, 1, 2, 3, 4], [3, 1, 0], [4], []):
            for dead in ((), (1,), (0, 3)):
                for out in ("out/put", None):
                    if (debug or out is None) and (dead == (1,) or len(order) not in (3, 5)) and tier == "quick":
                        continue
                    subj = f"pieces {order}, unanswered {list(dead)}{', no folder' if out is None else ''}{', verbose' if debug else ''}"

                    @section(ck, "outputs", subj, w)
                    def _():
                        st = St()
                        ps = [new_obj(I, "vdata.Named", {}, st, [names[i], None if i in dead else new_obj(I, "vdata.Raw", {}, st, [f"state {i}"]), None]) for i in order]
                        model = new_obj(I, "vdata.Joint", {}, st, [W.TPC, W.MIDI])
                        Wr = Written(I, debug)
                        I.dirs = {"."}
                        try:
                            s = summarise(I, fn, [model, LIST(I, st, ps)], {"output_tsv_dir": out}, st=st)
                            st, (kind, v) = s.step({})
                        finally:
                            Wr.close()
                        if kind == "raise":
                            ck.bad("outputs", subj, w, f"{subj}: raises {v.cls}")
                            return
                        asked = tup(Evalr(I, st, {})(I.cell(st, model).attrs["asked"]))
                        ck.add("outputs", f"{subj} asked", [a[0] for a in asked] == [names[i] for i in order], w, f"{subj}: harmony found for {show([a[0] for a in asked])}")
                        want = [("out/put/" + names[i].split("/")[-1].rsplit(".", 1)[0] + ".tsv", ("get_annotation_df", f"state {i}", names[i], W.TPC, W.MIDI), "\t") for i in order if i not in dead and names[i] and out]
                        d = ""
                        if Wr.out != want:
                            d = next((f"{show(g)} written, required {show(e)}" for g, e in itertools.zip_longest(Wr.out, want) if g != e), "")
                        ck.add("outputs", f"{subj} written", Wr.out == want, w, f"{subj}: {d}", n=1 + len(want))


def grid(ck, I, tier):
    w = "grid_search.py"

    def commands(argv):
        I.argv = list(argv)
        said = []
        old = dict(I.hooks)

        def out(I, a, kw, st, n):
            t = [I.resolve(x, st) for x in a]
            if not t or kw or not all(isinstance(x, str) for x in t):
                raise Undec("printed command")
            t = " ".join(t)
            said.append(t)

        I.hooks["builtins.print"] = out
        try:
            outs, raises = I.run_main("grid_search")
        finally:
            I.hooks.clear()
            I.hooks.update(old)
        if len(outs) != 1 or raises:
            return None
        return said

    d0 = defaults(I)
    base = dict(input_path="corpus_data", xml=False, piece_dicts_path="h5_data/pieces_valid_seed_0.pkl")
    cases = [
        ("nothing set", [], {}, [], {}),
        ("two options", ["--beam-size", "3", "5", "--hash-length", "4", "2", "6"], {"beam_size": ["3", "5"], "hash_length": ["4", "2", "6"]}, [], {}),
        ("every option", [x for o, t in zip(OPTIONS, VALUES) for x in ("--" + o.replace("_", "-"), t)], {o: [t] for o, t in zip(OPTIONS, VALUES)}, [], {}),
        ("lengths", ["--max-chord-length", "1/2", "3", "--ksm-exponent", "1", "2.5"], {"max_chord_length": ["1/2", "3"], "ksm_exponent": ["1", "2.5"]}, [], {}),
        ("other data", ["-i", "in/put", "-x", "--min-key-change-prob", "0.2", "0.3"], {"min_key_change_prob": ["0.2", "0.3"]}, [], {"input_path": "in/put", "xml": True}),
        ("test set", ["--test", "-s", "4", "-h5", "hh"], {}, [], {"piece_dicts_path": "hh/pieces_test_seed_4.pkl"}),
        ("validation set", ["-s", "2"], {}, [], {"piece_dicts_path": "h5_data/pieces_valid_seed_2.pkl"}),
        ("other models", ["--checkpoint", "cks", "--csm-version", "0", "--ccm", "cks/ccm/lightning_logs/version_1/checkpoints/epoch=1.ckpt", "--icm-json", "icm.json"], {}, [("csm", ckpt("csm", 0, 1)), ("ccm", ckpt("ccm", 1, 1)), ("ktm", ckpt("ktm", 3, 1)), ("icm", "icm.json")], {}),
        ("versions", ["--ccm-version", "2", "--ktm-version", "0", "--ksm-version", "1", "--ctm-version", "0"], {}, [("ccm", ckpt("ccm", 2, 1, "checkpoints")), ("ktm", ckpt("ktm", 0, 1, "checkpoints")), ("ksm", ckpt("ksm", 1, 1, "checkpoints")), ("ctm", ckpt("ctm", 0, 1, "checkpoints")), ("csm", ckpt("csm", 3, 1, "checkpoints"))], {}),
        ("threads and output", ["--threads", "2", "-o", "res"], {}, [], {}),
    ]
    I.fs = files() | {"icm.json"}
    for name, argv, grid_, mods, pcs in cases:
        @section(ck, "grid search", name, w)
        def _():
            cmds = commands(argv)
            if cmds is None:
                ck.bad("grid search", name, w, f"{name}: fails")
                return
            want = [dict(zip(grid_, c)) for c in itertools.product(*grid_.values())]
            ck.add("grid search", f"{name}: number of commands", len(cmds) == len(want), w, f"{name}: {len(cmds)} commands for {len(want)} combinations")
            outdirs, seen = [], []
            for c in cmds:
                odd = [x for x in c.split() if set(x) & set("`$;&|<>*?(){}!\\") and not set(x) & set("'\"")]
                ck.add("grid search", f"{name}: commands for a shell", not odd, w, f"{name}: the shell would not pass {odd[:1]} on as it is")
            for c in cmds:
                parts = shlex.split(c)
                if parts[:2] != ["python", "test.py"]:
                    ck.bad("grid search", f"{name}: commands", w, f"{name}: command {c!r} does not run test.py")
                    return
                P = Program(I, "test", parts[2:])
                threads = []
                extra = dict(work(P, "test"), **{"torch.set_num_threads": lambda I, a, kw, st, n: threads.append(a[0])})
                kind, v = P.run(extra)
                if kind == "raise":
                    ck.bad("grid search", f"{name}: commands run", w, f"{name}: {c!r} ends in {v.cls}")
                    return
                if P.given is None or P.ran is None or P.pieces is None:
                    raise Undec("not run")
                seen.append({o: P.given.get(o) for o in OPTIONS})
                outdirs.append(next((x for x in P.ran.values() if isinstance(x, str) and "joint model" != x), None))
                for m, src in mods:
                    ck.add("grid search", f"{name}: {m}", P.made[m][0][1] == src, w, f"{name}: {m} from {P.made[m][0][1]}, required {src}")
                for k, e in {**base, **pcs}.items():
                    ck.add("grid search", f"{name}: {k}", P.pieces.get(k) == e, w, f"{name}: {k} = {show(P.pieces.get(k))}, required {show(e)}")
                if "--threads" in argv:
                    ck.add("grid search", f"{name}: threads", threads == [2], w, f"{name}: threads {threads}")
            for e in want:
                full = dict(d0, **{o: number(o, t) for o, t in e.items()})
                full = {o: full[o] for o in OPTIONS}
                ck.add("grid search", f"{name}: {e}", seen.count(full) == 1, w, f"{name}: {seen.count(full)} commands for {show(e)}")
            root = argv[argv.index("-o") + 1] if "-o" in argv else "output"
            ck.add("grid search", f"{name}: own folders", len(set(outdirs)) == len(outdirs) and all(isinstance(o, str) and o.startswith(root + "/") for o in outdirs), w, f"{name}: output folders {show(outdirs[:4])}, required: one of its own per command under {root}")
    I.fs = files()


def run(ck, I, tier):
    ck.rule("settings", "every search setting given on the command line is the one the joint model gets, others keep the model's defaults; --defaults and --fh-defaults give the published settings of the csm version")
    ck.rule("inputs", "the pieces asked for are loaded (evaluation: those of the data split's h5 and pickle files) and run with the joint model into the output folder")
    ck.rule("outputs", "each piece's annotation is the table of its own result, in the model's pitch types, written to a file named after the piece; pieces without result or name write nothing")
    ck.rule("grid search", "one evaluation command per combination of settings, each accepted by the evaluation program, with that combination, the other options passed on and an output folder of its own")
    I.max_budget = 20000000
    fsm.install(I, files())
    W = World(I)
    settings(ck, I, tier)
    inputs(ck, I, tier)
    outputs(ck, I, W, tier)
    grid(ck, I, tier)
