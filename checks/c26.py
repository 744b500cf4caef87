"""C26: aggregating corpora into tables, reading the tables, writing labels to scores."""
from fractions import Fraction

from sa import fsm, pdm
from sa.engine import ExtV, FuncV

from .c18 import run_one
from .c25 import Main, value
from .common import *

CR = PKG + "data.corpus_reading."
CC = PKG + "data.corpus_constants."
KINDS = {"chords": "harmonies", "notes": "notes", "measures": "measures"}


def world(*files):
    """file names: corpus/name with the kinds of table it has (capital: unreadable)"""
    out = []
    for f, kinds in files:
        d, n = f.rsplit("/", 1)
        for k in kinds:
            out.append((f"{d}/{dict(h='harmonies', n='notes', m='measures')[k.lower()]}/{n}.tsv", k.islower()))
    return out


WORLDS = {
    "one file": world(("an/c1/a", "hnm")),
    "several corpora": world(("an/c1/b", "hnm"), ("an/c2/a", "nmh"), ("an/c1/a", "hnm"), ("an/deep/er/c3/z", "hnm"), ("an/c2/k", "hnm")),
    "missing tables": world(("an/c1/a", "hn"), ("an/c1/b", "hnm"), ("an/c1/c", "hm"), ("an/c2/d", "nm"), ("an/c2/e", "hnm"), ("an/c2/f", "n")),
    "unreadable tables": world(("an/c1/a", "Hnm"), ("an/c1/b", "hNm"), ("an/c1/c", "hnM"), ("an/c1/d", "hnm"), ("an/c1/e", "HNM")),
    "no notes at all": world(("an/c1/a", "hm"), ("an/c1/b", "hm")),
    "annotations only": world(("an/c1/a", "h"), ("an/c1/b", "h")),
    "nothing": [("an/c1/notes.txt", True), ("an/readme.tsv", True), ("other/c1/harmonies/x.tsv", True)],
    "other files": world(("an/c1/a", "hnm"), ("an/c2/a", "hnm"), ("elsewhere/c1/b", "hnm")) + [("an/c1/scores/a.tsv", True), ("an/c1/harmonies/a.txt", True), ("an/c1/harmonies/sub/x.tsv", True)],
    "same name in two corpora": world(("an/c1/a", "hn"), ("an/c2/a", "hm")),
}


def rows(path, n=None):
    k = 1 + len(path) % 3 if n is None else n
    return [f"{path} {i}" for i in range(k)]


def aggregate(ck, I, tier):
    fn = CR + "aggregate_annotation_dfs"
    w = loc(I, fn)

    def case(name, files, notes_only, paths, out):
        subj = f"{name}{', notes only' if notes_only else ''}{', ' + out if out != 'out' else ''}{' (path)' if paths else ''}"

        @section(ck, "aggregate", subj, w)
        def _():
            fsm.install(I, [f for f, _ in files])
            good = {f for f, ok in files if ok}
            wrote = {}
            asked = []
            old = dict(I.hooks)

            def read(I, a, kw, st, n):
                p = fsm.text(I, st, [*a, *kw.values()][0])
                if p is None:
                    raise Undec("file name")
                dt = I.resolve(kw.get("dtype"), st)
                asked.append((p, kw.get("sep", kw.get("delimiter")), dt))
                if p not in I.fs:
                    I.raise_now(st, "FileNotFoundError", n)
                if p not in good:
                    I.raise_now(st, "ValueError", n)
                ks = rows(p)
                return pdm.frame(I, st, data={"tag": ks, "more": [f"m{i}" for i in range(len(ks))]}, index=list(range(len(ks))), names=(None,))

            def csv(I, a, kw, st, n):
                c = I.cell(st, a[0])
                p = fsm.text(I, st, [*a[1:], *kw.values()][0])
                if c is None or c.kind != "df" or p is None:
                    raise Undec("written table")
                if not fsm.writable(I, p):
                    I.raise_now(st, "FileNotFoundError", n)
                flat = lambda x: tuple(x.items) if isinstance(x, Tup) else x  # noqa: E731
                wrote[p] = dict(cols={k: list(c.data[i]) for i, k in enumerate(c.cols)}, index=[flat(x) for x in c.index], names=tuple(c.names), sep=kw.get("sep", a[2] if len(a) > 2 else ","), header=kw.get("header", True), ix=kw.get("index", True))
                return None

            I.hooks["pandas.read_csv"], I.hooks["method.to_csv"] = read, csv
            try:
                st = St()
                mk = (lambda t: new_obj(I, "vpath.Path", {}, st, [t])) if paths else (lambda t: t)
                kw = {"notes_only": True} if notes_only else {}
                s = summarise(I, fn, [mk("an"), mk(out)], kw, st=st)
                st, (kind, v) = s.step({})
            finally:
                I.hooks.clear()
                I.hooks.update(old)
            if kind == "raise":
                ck.bad("aggregate", subj, w, f"{subj}: raises {v.cls}")
                return
            base = "notes" if notes_only else "harmonies"
            want = [f for f, _ in files if f.startswith("an/") and f.endswith(".tsv") and f.split("/")[-2] == base]
            if not want:
                ck.add("aggregate", subj, not wrote, w, f"{subj}: writes {sorted(wrote)} though there is nothing to aggregate")
                return
            f = wrote.pop(out + "/files.tsv", None)
            if f is None:
                ck.bad("aggregate", f"{subj} files", w, f"{subj}: no table of files in {out}")
                return
            got = list(zip(f["cols"].get("corpus_name", []), f["cols"].get("file_name", [])))
            exp = [(x.split("/")[-3], x.split("/")[-1]) for x in want]
            ck.add("aggregate", f"{subj} files", sorted(got) == sorted(exp) and len(set(f["index"])) == len(got) and f["ix"] is not False and f["header"] is True, w, f"{subj}: files {show(got)}, required {show(sorted(exp))} (in any order, each under its own id)")
            if sorted(got) != sorted(exp) or len(set(exp)) != len(exp):
                return
            ids = {exp.index(g): i for g, i in zip(got, f["index"])}
            ck.add("aggregate", f"{subj} separators", {x["sep"] for x in [f, *wrote.values()]} == {"\t"}, w, f"{subj}: separators {show({x['sep'] for x in wrote.values()})}")
            for k, d in KINDS.items():
                need = {}
                for j, x in enumerate(want):
                    p = "/".join(x.split("/")[:-2] + [d, x.split("/")[-1]])
                    if p in good:
                        need[p] = ids[j]
                g = wrote.pop(f"{out}/{k}.tsv", None)
                if not need:
                    ck.add("aggregate", f"{subj} {k}", g is None or not g["index"], w, f"{subj}: table {k} though no file has any")
                    continue
                if g is None:
                    ck.bad("aggregate", f"{subj} {k}", w, f"{subj}: no table of {k}")
                    continue
                have = {}
                for ix, t in zip(g["index"], g["cols"].get("tag", [])):
                    have.setdefault(ix[0] if isinstance(ix, tuple) else ix, []).append(t)
                e = {i: rows(p) for p, i in need.items()}
                ck.add("aggregate", f"{subj} {k}", have == e, w, f"{subj}: {k} by file id {show(have)}, required {show(e)}"[:400], n=len(g["index"]))
                ck.add("aggregate", f"{subj} {k} ids", g["names"][:1] == ("file_id",) and len(set(g["index"])) == len(g["index"]) and g["ix"] is not False and g["header"] is True and g["names"][1:] == (k[:-1] + "_id",), w, f"{subj}: {k} indexed by {show(g['names'])} {show(g['index'])}"[:300])
                ck.add("aggregate", f"{subj} {k} columns", set(g["cols"]) == {"tag", "more"}, w, f"{subj}: columns {show(list(g['cols']))} of {k}")
            ck.add("aggregate", f"{subj} others", not wrote, w, f"{subj}: also writes {sorted(wrote)}")
            for p, sep, dt in asked:
                ck.add("aggregate", f"{subj} reading {p}", sep == "\t", w, f"{subj}: {p} read with separator {show(sep)}")

    for name, files in WORLDS.items():
        for no in (False, True):
            case(name, files, no, False, "out")
    case("several corpora", WORLDS["several corpora"], False, True, "out/deep")
    case("several corpora", WORLDS["several corpora"], True, False, "an")


FR = {"act_dur", "mc_offset", "mc_onset", "mn_onset", "nominal_duration", "offset", "onset", "duration", "scalar"}
INTS = {"bass_note", "mc", "midi", "mn", "root", "staff", "tied", "tpc", "voice", "volta", "keysig", "playthrough", "numbering_offset", "dont_count"}
STRS = {"changes", "chord", "chord_type", "figbass", "form", "globalkey", "gracenote", "label", "localkey", "numeral", "pedal", "relativeroot", "timesig", "special", "barline", "repeats", "cadence", "phraseend", "alt_label"}
TUPS = {"added_tones", "chord_tones", "next"}
BOOLS = {"globalkey_is_minor", "localkey_is_minor"}


def na(v):
    return isinstance(v, ExtV) and v.name in pdm.NULLS


def reading(ck, I, tier):
    fn = CR + "read_dump"
    w = loc(I, fn)

    @section(ck, "reading", "settings", w)
    def _():
        def go(args, kw, st):
            seen = []
            old = I.hooks.get("pandas.read_csv")

            def rd(I, a, k, s, n):
                seen.append((list(a), dict(k), s))
                return new_obj(I, "vdata.Raw", {}, s, ["frame"])

            I.hooks["pandas.read_csv"] = rd
            try:
                s = summarise(I, fn, args, kw, st=st)
                st, (kind, v) = s.step({})
            finally:
                I.hooks.pop("pandas.read_csv", None)
                if old is not None:
                    I.hooks["pandas.read_csv"] = old
            if kind == "raise":
                raise Broken(f"reading raises {v.cls}")
            if len(seen) != 1:
                raise Undec("reading")
            a, k, _ = seen[0]
            f = k.pop("filepath_or_buffer", a[0] if a else None)

            def table(x):
                c = I.cell(st, I.resolve(x, st))
                if c is None or c.kind != "dict" or c.open:
                    raise Undec("settings")
                return {I.resolve(p, st): I.resolve(q, st) for p, q in c.items}

            return st, f, k.pop("sep", k.pop("delimiter", None)), value(I, st, k.pop("index_col", None)), table(k.pop("dtype", None)), table(k.pop("converters", None)), k

        def typename(v):
            return v if isinstance(v, str) else getattr(v, "name", str(v)).replace("builtins.", "")

        def plain(args, kw, name, extra=None, conv=None, dt=None, ix=(0, 1)):
            st = St()
            st, f, sep, idx, dts, cvs, rest = go(args, kw(st) if callable(kw) else kw, st)
            ck.add("reading", f"{name}: file", f == "x.tsv" and sep == "\t", w, f"{name}: reads {show(f)} with separator {show(sep)}")
            ck.add("reading", f"{name}: index", idx == (list(ix) if isinstance(ix, tuple) else ix) or idx == ix, w, f"{name}: index columns {show(idx)}, required {ix}")
            ck.add("reading", f"{name}: other settings", {k: value(I, st, v) for k, v in rest.items()} == (extra or {}), w, f"{name}: further settings {show(rest)}, required {extra}")
            for c in sorted(INTS | STRS):
                if c in cvs:
                    raise Undec(f"converter of {c}")
                e = (dt or {}).get(c, "Int64" if c in INTS else "str")
                ck.add("reading", f"{name}: {c}", c in dts and typename(dts[c]) == e, w, f"{name}: column {c} is read as {typename(dts[c]) if c in dts else None}, required {e}")
            for c in sorted(FR | TUPS | BOOLS):
                if conv and c in conv:
                    ck.add("reading", f"{name}: {c}", typename(cvs.get(c)) == conv[c], w, f"{name}: column {c} is read by {typename(cvs.get(c))}, required {conv[c]}")
                    continue
                f = cvs.get(c)
                if f is None:
                    ck.bad("reading", f"{name}: {c}", w, f"{name}: column {c} is not converted")
                    continue
                if not isinstance(f, FuncV):
                    raise Undec("converter")
                tests = {"3/4": Fraction(3, 4), "-1/2": Fraction(-1, 2), "2": Fraction(2), "0": Fraction(0), "": None, "x": None} if c in FR else {"": (), "1": (1,), "1, 4": (1, 4), "-1": (-1,), "12, 3, 5": (12, 3, 5)} if c in TUPS else {"0": False, "1": True, "": None}
                for t, e in tests.items():
                    s = summarise(I, f.qual, [t], {}, st=St())
                    st2, (kind, v) = s.step({})
                    if kind == "raise":
                        ck.bad("reading", f"{name}: {c} {t!r}", w, f"{name}: {c} {t!r} raises {v.cls}")
                        continue
                    v = I.resolve(v, st2)
                    v = tuple(v.items) if isinstance(v, Tup) else v
                    ok = na(v) if e is None else type(v) is type(e) and v == e or (isinstance(e, Fraction) and isinstance(v, (int, Fraction)) and not isinstance(v, bool) and v == e)
                    ck.add("reading", f"{name}: {c} {t!r}", ok, w, f"{name}: {c} {t!r} is read as {show(v)}, required {show(e)}")

        plain(["x.tsv"], {}, "nothing given")
        plain(["x.tsv"], {"index_col": 0}, "index given", ix=0)
        plain(["x.tsv"], {"low_memory": False}, "further setting", extra={"low_memory": False})
        plain(["x.tsv"], lambda st: {"dtypes": DICT(I, st, {"mc": "Int8"})}, "column type given", dt={"mc": "Int8"})
        plain(["x.tsv"], lambda st: {"converters": DICT(I, st, {"onset": ExtV("builtins.float")})}, "converter given", conv={"onset": "float"})

        @section(ck, "reading", "constants", w)
        def _():
            st = St()
            st, *_ = go(["x.tsv"], {"dtypes": DICT(I, st, {"mc": "Int8", "new": "str"}), "converters": DICT(I, st, {"onset": ExtV("builtins.float")})}, st)
            st, _, _, _, dts, cvs, _ = go(["y.tsv"], {}, st)
            ck.add("reading", "settings of one reading do not stay", typename(dts.get("mc")) == "Int64" and "new" not in dts and isinstance(cvs.get("onset"), FuncV), w, "settings given for one table are used for the next")


def programs(ck, I, tier):
    w = "aggregate_corpus_data.py"

    def agg(name, argv, want):
        @section(ck, "programs", f"aggregate: {name}", w)
        def _():
            fsm.install(I, [])
            P = Main(I, "aggregate_corpus_data", argv)
            fn = CR + "aggregate_annotation_dfs"
            kind, v = P.run({fn: P.note("agg", None, I.get(fn))})
            if kind == "raise":
                ck.bad("programs", f"aggregate: {name}", w, f"aggregate {name}: ends in {v.cls}")
                return
            ck.add("programs", f"aggregate: {name}", P.get("agg") == [want], w, f"aggregate {name}: {show(P.get('agg'))}, required {show(want)}")

    agg("input and output", ["-i", "x/y", "-o", "z"], dict(annotations_path="x/y", out_dir="z", notes_only=False))
    agg("notes only", ["--input", "x", "--output", "z", "--notes-only"], dict(annotations_path="x", out_dir="z", notes_only=True))
    agg("default output", ["-i", "x"], dict(annotations_path="x", out_dir="corpus_data", notes_only=False))
    w2 = "write_to_score.py"

    def wr(name, files, bad, argv, want):
        @section(ck, "programs", f"labels: {name}", w2)
        def _():
            fsm.install(I, files)
            P = Main(I, "write_to_score", argv)
            fn = PKG + "utils.eval_utils.write_labels_to_score"
            log = P.note("write", None, I.get(fn))

            def hk(I, a, kw, st, n):
                r = log(I, a, kw, st, n)
                if P.log[-1][1]["basename"] in bad:
                    I.raise_now(st, "ValueError", n)
                return r

            kind, v = P.run({fn: hk})
            if kind == "raise":
                ck.bad("programs", f"labels: {name}", w2, f"labels {name}: ends in {v.cls}")
                return
            got = sorted((r["labels_dir"], r["annotations_dir"], r["basename"]) for r in P.get("write"))
            ck.add("programs", f"labels: {name}", got == sorted(want), w2, f"labels {name}: written {show(got)}, required {show(sorted(want))}")

    fs = ["out/c1/a.tsv", "out/c1/b.tsv", "out/c2/a.tsv", "out/d/e/f.v1.tsv", "out/log.txt", "other/c1/x.tsv", "out/top.tsv"]
    need = [("out/c1", "an/c1", "a"), ("out/c1", "an/c1", "b"), ("out/c2", "an/c2", "a"), ("out/d/e", "an/d/e", "f.v1"), ("out", "an", "top")]
    wr("all tables", fs, (), ["-o", "out", "--annotations", "an"], need)
    for b in ("a", "b", "top"):
        wr(f"error for {b}", fs, (b,), ["-o", "out", "--annotations", "an"], need)
    wr("no tables", ["out/log.txt"], (), ["--output", "out", "--annotations", "an"], [])
    wr("one corpus", fs, (), ["-o", "out/c2", "--annotations", "an/x"], [("out/c2", "an/x", "a")])


def run(ck, I, tier):
    ck.rule("aggregate", "aggregating a corpus folder writes one row per annotated (or noted) file with its corpus and name under an id of its own, and under that id exactly the rows of its own chord, note and measure tables; tables that are missing or unreadable are left out without shifting others")
    ck.rule("reading", "each column of a table is read as its documented type (fractions, whole numbers, tuples, truth values; nothing for what is empty), the file's ids as index; settings given for one reading are used for it and only it")
    ck.rule("programs", "the programs aggregate the folders asked for, and write every label table to the score of the same corpus and name, an error at one leaving the others")
    I.max_budget = 20000000
    fsm.install(I, [])
    aggregate(ck, I, tier)
    reading(ck, I, tier)
    programs(ck, I, tier)
