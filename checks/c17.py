"""C17: cleaning the corpus tables - matching, repeats, note offsets, chord durations, ties."""
from fractions import Fraction

from sa import pdm
from .common import *

CU = PKG + "utils.corpus_utils."
CR = PKG + "data.corpus_reading."
F = Fraction
IDX = {"notes": ("file_id", "note_id"), "chords": ("file_id", "chord_id"), "measures": ("file_id", "measure_id")}


def null(x):
    return pdm.is_null(x) is True


def table(I, st, kind, rows):
    """rows: list of dicts with file_id and row id under 'id'"""
    cols = []
    for r in rows:
        cols += [k for k in r if k not in ("file", "id") and k not in cols]
    return pdm.frame(I, st, data={k: [r.get(k, pdm.NA) for r in rows] for k in cols} if rows else {}, index=[Tup((r["file"], r["id"])) for r in rows], names=IDX[kind])


def plain(I, st, v, x):
    """abstract element -> plain value"""
    if null(x):
        return None
    if isinstance(x, Tup):
        return tuple(plain(I, st, v, y) for y in x.items)
    return Evalr(I, st, {})(x)


def read(I, st, v):
    """rows of an abstract frame"""
    c = I.cell(st, v)
    if c is None or c.kind != "df":
        raise Undec(f"not a frame: {show(v)[:300]}")
    out = []
    for i, ix in enumerate(c.index):
        if not isinstance(ix, Tup) or len(ix.items) != 2:
            raise Undec("index")
        r = {"file": ix.items[0], "id": ix.items[1]}
        for k, d in zip(c.cols, c.data):
            r[k] = plain(I, st, v, d[i])
        out.append(r)
    return out


def call(I, fn, args, kw, st):
    rets, raises = I.run(fn, args, kw, st=st)
    if len(rets) == 1 and not raises:
        return rets[0]
    if not rets and len(raises) == 1:
        e = raises[0][1]
        raise Broken(f"{fn.rsplit('.', 1)[-1]} raises {e.cls} (line {getattr(getattr(e, 'node', None), 'lineno', '?')})")
    raise Undec(f"{fn}: {len(rets)} outcomes, {len(raises)} exceptions")


def same_rows(got, exp, cols=None, order=True):
    """None or a description of the first difference"""
    gi, ei = [(r["file"], r["id"]) for r in got], [(r["file"], r["id"]) for r in exp]
    if (gi if order else sorted(gi)) != (ei if order else sorted(ei)):
        return f"rows {gi}, required {ei}"
    by = {(r["file"], r["id"]): r for r in got}
    for e in exp:
        g = by[(e["file"], e["id"])]
        for k in cols or e:
            if k not in g:
                if e.get(k) is None:
                    continue
                return f"no column {k}"
            if g[k] != e.get(k):
                return f"row {(e['file'], e['id'])}: {k} is {show(g[k])}, required {show(e.get(k))}"
    return None


def unchanged(ck, I, st, what, w, pairs):
    for name, ref, before in pairs:
        d = same_rows(read(I, st, ref), before)
        ck.add("pure", what, d is None, w, f"{what} changes its {name} table: {d}")


# --- what the tables must be ------------------------------------------------------------------

def want_repeats(ms):
    out, n = [], len(ms)
    for i, m in enumerate(ms):
        last = i + 1 == n or ms[i + 1]["file"] != m["file"]
        nx = m["next"]
        out.append(dict(m, next=None if last or not nx or -1 in nx else max(nx)))
    keep = {}
    for i, m in enumerate(out):
        if i == 0 or out[i - 1]["file"] != m["file"]:
            by = {x["mc"]: x for x in out if x["file"] == m["file"]}
            cur = m
            while cur is not None and (cur["file"], cur["mc"]) not in keep:
                keep[(cur["file"], cur["mc"])] = True
                cur = by.get(cur["next"])
    return [m for m in out if (m["file"], m["mc"]) in keep], out


def chain(ms, file):
    """measures of a file in order of the chain: (mc, start, end) with absolute times"""
    by = {m["mc"]: m for m in ms if m["file"] == file}
    first = next(m for m in ms if m["file"] == file)
    out, t, cur = [], F(0), first
    while cur is not None:
        out.append((cur["mc"], t, t + cur["act_dur"], cur["mc_offset"]))
        t += cur["act_dur"]
        cur = by.get(cur["next"])
    return out


def time_of(ch, mc, on):
    s = next(c for c in ch if c[0] == mc)
    return s[1] + on - s[3]


def want_offsets(ns, ms):
    out = []
    for n in ns:
        ch = chain(ms, n["file"])
        t = time_of(ch, n["mc"], n["mn_onset"]) + n["duration"]
        i = next(i for i, c in enumerate(ch) if c[0] == n["mc"])
        while t >= ch[i][2] and i + 1 < len(ch):
            i += 1
        out.append(dict(n, offset_mc=ch[i][0], offset_beat=t - ch[i][1] + ch[i][3]))
    return out


def want_chords(cs, ms):
    out = []
    for i, c in enumerate(cs):
        ch = chain(ms, c["file"])
        t = time_of(ch, c["mc"], c["mn_onset"])
        if i + 1 < len(cs) and cs[i + 1]["file"] == c["file"]:
            x = cs[i + 1]
            out.append(dict(c, mc_next=x["mc"], mn_onset_next=x["mn_onset"], duration=time_of(ch, x["mc"], x["mn_onset"]) - t))
        else:
            e = ch[-1]
            out.append(dict(c, mc_next=e[0], mn_onset_next=e[2] - e[1] + e[3], duration=e[2] - t))
    return out


def want_ties(ns):
    """chains of tied notes joined; the first note's row stays"""
    fixed = [n for n in ns if n.get("gracenote") is not None or n.get("tied") is None]
    starts = [dict(n) for n in ns if n not in fixed and n["tied"] == 1]
    ins = [dict(n) for n in ns if n not in fixed and n["tied"] in (0, -1)]
    done = []

    def follow(n, pool):
        c = [m for m in pool if m["file"] == n["file"] and m["midi"] == n["midi"] and (m["mc"], m["mn_onset"]) == (n["offset_mc"], n["offset_beat"])]
        if len(c) > 1:
            c = [m for m in c if (m["staff"], m["voice"]) == (n["staff"], n["voice"])] or c
        return c[0] if c else None

    while True:
        for s in starts:
            while s["tied"] is not None:
                m = follow(s, ins)
                if m is None:
                    break
                ins.remove(m)
                s.update(duration=s["duration"] + m["duration"], offset_mc=m["offset_mc"], offset_beat=m["offset_beat"], tied=s["tied"] + m["tied"] if 0 in (s["tied"], m["tied"]) else None)
                if s["tied"] == -1:
                    break
            done.append(s)
        # chains without a beginning: from their first continuing note
        heads = [n for n in ins if n["tied"] == 0 and follow(n, ins) is not None]
        led = [follow(n, ins) for n in heads]
        starts = [n for n in heads if n not in led]
        if not starts:
            break
        ins = [n for n in ins if n not in starts]
    return sorted(fixed + ins + done, key=lambda n: (n["file"], n["id"]))


# --- material ---------------------------------------------------------------------------------

def M(file, xs):
    return [dict(file=file, id=i, mc=mc, next=nx, act_dur=F(d), mc_offset=F(o), timesig=ts) for i, (mc, nx, d, o, ts) in enumerate(xs)]


def pieces():
    """measures with repeats, endings, pick-ups and split measures"""
    a = [(1, (2,), F(1, 4), F(3, 4), "4/4"), (2, (3,), 1, 0, "4/4"), (3, (2, 4), F(3, 4), 0, "4/4"), (4, (5, 6), 1, 0, "4/4"), (5, (4,), 1, 0, "4/4"), (6, (7,), F(1, 2), 0, "2/4"), (7, (-1,), F(1, 2), F(1, 2), "2/4")]
    b = [(1, (2,), F(3, 8), 0, "3/8"), (2, (1, 3), F(3, 8), 0, "3/8"), (3, (), F(3, 8), 0, "3/8")]
    c = [(1, (1, -1), 1, 0, "4/4")]
    d = [(1, (2,), 1, 0, "4/4"), (2, (4,), 1, 0, "4/4"), (3, (4,), 1, 0, "4/4"), (4, (1, 5), 1, F(1, 8), "4/4"), (5, (6, 7), 2, 0, "4/2"), (6, (5,), 1, 0, "4/4"), (7, (1,), 1, 0, "4/4")]
    return a, b, c, d


def corpora():
    a, b, c, d = pieces()
    return {
        "one piece": {0: a}, "one measure": {3: c}, "two pieces": {0: a, 1: b}, "many": {1: b, 2: c, 5: d, 7: a}, "alike": {0: b, 1: b, 2: b}, "jump": {4: d},
    }


def measures_of(files):
    return [m for f, xs in files.items() for m in M(f, xs)]


def notes_for(ms):
    """for every measure: notes of many lengths"""
    out = []
    for f in dict.fromkeys(m["file"] for m in ms):
        k = 0
        ch = chain(ms, f)
        for mc, s, e, off in ch:
            dur = e - s
            ons = [F(0), dur / 4, dur / 2, dur * F(7, 8)]
            for j, on in enumerate(ons):
                for d in (F(0), dur - on, dur, dur * 2, F(1, 16), F(3), dur * F(1, 3)):
                    out.append(dict(file=f, id=k, mc=mc, mn_onset=off + on, duration=d, midi=60 + (k * 7) % 12))
                    k += 1
    return out


def chords_for(ms, pattern):
    out = []
    for f in dict.fromkeys(m["file"] for m in ms):
        ch = chain(ms, f)
        k = 0
        for i, (mc, s, e, off) in enumerate(ch):
            dur = e - s
            for on in {"dense": [F(0), dur / 2, dur * F(3, 4)], "sparse": [dur / 4] if i % 2 == 0 else [], "single": [F(0)] if i == 0 else [], "late": [dur * F(1, 3)] if i in (0, len(ch) - 1) else []}[pattern]:
                out.append(dict(file=f, id=k, mc=mc, mn_onset=off + on, timesig="4/4", numeral="I"))
                k += 1
    return out


def run(ck, I, tier):
    ck.rule("matched", "of a table exactly the rows whose file and measure exist in the measures table remain, in order and once")
    ck.rule("repeats", "without repeats each measure leads to the latest measure it can, the last of a piece to none, and measures never reached from the first are gone; every piece keeps its first measure, also when it is the only piece")
    ck.rule("offsets", "a note's offset position is its onset position plus its duration along the chain of measures, at the start of the next measure rather than the end of one, except at the end of the piece")
    ck.rule("chords", "a chord lasts until the next chord of its piece, the last one until the end of the piece, counted along the chain of measures; the next position is recorded")
    ck.rule("ties", "tied notes of one pitch which follow each other become one note with the first's onset, the last's offset and the sum of durations; all other notes stay")
    ck.rule("clean", "the cleaned tables keep exactly the readable files' rows: unlabelled and unmatched rows, rows outside of their measure and chords without length are gone, everything else is complete")
    ck.rule("pure", "the functions leave the tables they are given unchanged")
    W = World(I)
    I.max_rec = 12
    for name, files in corpora().items():
        ms = measures_of(files)
        section(ck, "repeats", name, loc(I, CU + "remove_repeats"))(lambda: repeats(ck, I, ms, name))
        clean, _ = want_repeats(ms)
        section(ck, "matched", name, loc(I, CU + "remove_unmatched"))(lambda: matched(ck, I, clean, name))
        section(ck, "offsets", name, loc(I, CU + "add_note_offsets"))(lambda: offsets(ck, I, clean, ms, name))
        for pattern in ("dense", "sparse", "single", "late"):
            section(ck, "chords", f"{name} {pattern}", loc(I, CU + "add_chord_metrical_data"))(lambda: chords(ck, I, clean, ms, name, pattern))
    for name, (files, raw) in cleanings().items():
        for mode in ("full", "no chords", "offsets given", "first two", "old names"):
            section(ck, "clean", f"{name} {mode}", loc(I, CR + "load_clean_corpus_dfs"))(lambda: cleaned(ck, I, files, raw, name, mode))
    for name, ns in tied_notes().items():
        section(ck, "ties", name, loc(I, CU + "merge_ties"))(lambda: ties(ck, I, ns, name))


def repeats(ck, I, ms, name):
    fn = CU + "remove_repeats"
    w = loc(I, fn)
    reach, full = want_repeats(ms)
    for remove, exp in ((True, reach), (False, full)):
        st = St()
        t = table(I, st, "measures", [dict(m, next=Tup(m["next"])) for m in ms])
        st, r = call(I, fn, [t], {} if remove else {"remove_unreachable": False}, st)
        d = same_rows(read(I, st, r), exp)
        ck.add("repeats", f"{name}{'' if remove else ' all kept'}", d is None, w, f"{name}: {d}")
        unchanged(ck, I, st, "remove_repeats", w, [("measures", t, ms)])


def matched(ck, I, ms, name):
    fn = CU + "remove_unmatched"
    w = loc(I, fn)
    mcs = {(m["file"], m["mc"]) for m in ms}
    for kind in ("notes", "chords"):
        rows = []
        for f in sorted({m["file"] for m in ms} | {99}):
            for k, mc in enumerate([1, 1, 2, 3, 3, 5, 6, 9]):
                rows.append(dict(file=f, id=k * 2, mc=mc, x=f"{f}.{k}"))
        st = St()
        t, m = table(I, st, kind, rows), table(I, st, "measures", ms)
        st, r = call(I, fn, [t, m], {}, st)
        exp = [x for x in rows if (x["file"], x["mc"]) in mcs]
        d = same_rows(read(I, st, r), exp)
        ck.add("matched", f"{name} {kind}", d is None, w, f"{name}: {d}")
        unchanged(ck, I, st, "remove_unmatched", w, [(kind, t, rows), ("measures", m, ms)])


def offsets(ck, I, ms, raw, name):
    fn = CU + "add_note_offsets"
    w = loc(I, fn)
    ns = notes_for(ms)
    exp = want_offsets(ns, ms)
    for how, mm in (("", ms), (" with repeats", [dict(m, next=Tup(m["next"])) for m in raw])):
        st = St()
        t, m = table(I, st, "notes", ns), table(I, st, "measures", mm)
        st, r = call(I, fn, [t, m], {}, st)
        d = same_rows(read(I, st, r), exp)
        ck.add("offsets", f"{name}{how}", d is None, w, f"{name}{how}: {d}", n=len(ns))
        unchanged(ck, I, st, "add_note_offsets", w, [("notes", t, ns), ("measures", m, ms if not how else raw)])


def chords(ck, I, ms, raw, name, pattern):
    fn = CU + "add_chord_metrical_data"
    w = loc(I, fn)
    cs = chords_for(ms, pattern)
    exp = want_chords(cs, ms)
    for how, mm in (("", ms), (" with repeats", [dict(m, next=Tup(m["next"])) for m in raw])):
        st = St()
        t, m = table(I, st, "chords", cs), table(I, st, "measures", mm)
        st, r = call(I, fn, [t, m], {}, st)
        d = same_rows(read(I, st, r), exp)
        ck.add("chords", f"{name} {pattern}{how}", d is None, w, f"{name} {pattern}{how}: {d}", n=len(cs))
        unchanged(ck, I, st, "add_chord_metrical_data", w, [("chords", t, cs), ("measures", m, ms if not how else raw)])


def N(file, id, mc, on, omc, ooff, dur, midi=60, tied=None, grace=None, staff=1, voice=1):
    return dict(file=file, id=id, mc=mc, mn_onset=F(on), offset_mc=omc, offset_beat=F(ooff), duration=F(dur), midi=midi, tied=tied, gracenote=grace, staff=staff, voice=voice)


def tied_notes():
    h = F(1, 2)
    a = [N(0, 0, 1, 0, 1, h, h, tied=1), N(0, 1, 1, h, 2, 0, h, tied=0), N(0, 2, 2, 0, 2, h, h, tied=-1), N(0, 3, 1, 0, 2, 0, 1, midi=64), N(0, 4, 2, h, 3, 0, h, midi=60)]
    b = [N(1, 0, 1, 0, 1, h, h, tied=1), N(1, 1, 1, 0, 1, h, h, midi=67, tied=1), N(1, 2, 1, h, 2, 0, h, midi=67, tied=-1), N(1, 3, 1, h, 2, 0, h, tied=-1, staff=2), N(1, 4, 1, h, 1, h, 0, midi=67, grace="acciaccatura", tied=1)]
    lone = [N(2, 0, 1, 0, 1, h, h, tied=1), N(2, 1, 1, h, 2, 0, h, midi=61), N(2, 2, 2, 0, 2, h, h, tied=-1), N(2, 3, 2, h, 3, 0, h, tied=0, midi=50)]
    voices = [N(3, 0, 1, 0, 1, h, h, tied=1, voice=1), N(3, 1, 1, 0, 1, h, h, tied=1, voice=2), N(3, 2, 1, h, 2, 0, h, tied=-1, voice=2), N(3, 3, 1, h, 1, F(3, 4), F(1, 4), tied=-1, voice=1)]
    headless = [N(4, 0, 1, 0, 1, h, h, tied=0), N(4, 1, 1, h, 2, 0, h, tied=0), N(4, 2, 2, 0, 2, h, h, tied=-1), N(4, 3, 1, 0, 1, h, h, midi=62)]
    open_ = [N(5, 0, 1, 0, 1, h, h, tied=1), N(5, 1, 1, h, 2, 0, h, tied=0), N(5, 2, 3, 0, 3, h, h, tied=-1)]
    none = [N(6, 0, 1, 0, 1, h, h), N(6, 1, 1, h, 2, 0, h, midi=62)]
    return {"chain": a, "two pitches": b, "unmatched": lone, "two voices": voices, "without beginning": headless, "without end": open_, "no ties": none, "together": a + b + lone, "all": a + b + lone + voices + headless + open_ + none, "same in two files": a + [dict(n, file=1) for n in a]}


def ties(ck, I, ns, name):
    fn = CU + "merge_ties"
    w = loc(I, fn)
    st = St()
    rows = [dict(n, tied=pdm.NA if n["tied"] is None else n["tied"], gracenote=float("nan") if n["gracenote"] is None else n["gracenote"]) for n in ns]
    t = table(I, st, "notes", rows)
    st, r = call(I, fn, [t], {}, st)
    d = same_rows(read(I, st, r), want_ties(ns))
    ck.add("ties", name, d is None, w, f"{name}: {d}", n=len(ns))
    unchanged(ck, I, st, "merge_ties", w, [("notes", t, ns)])


def cleanings():
    """whole corpora with faulty rows"""
    out = {}
    for name, files in corpora().items():
        raw = measures_of(files)
        out[name] = (list(files), raw)
    out["missing tables"] = (list(range(8)), measures_of({1: pieces()[1], 2: pieces()[2], 5: pieces()[3], 7: pieces()[0]}))
    out["without repeats"] = (list(corpora()["many"]), want_repeats(measures_of(corpora()["many"]))[0])
    return out


def faulty(raw):
    """notes and chords: good ones, ones in missing measures, ones outside of their measure, unlabelled ones"""
    ms = want_repeats(raw)[0] if raw and isinstance(raw[0]["next"], tuple) else raw
    notes, chs = [], []
    for f in dict.fromkeys(m["file"] for m in ms):
        ch = chain(ms, f)
        k = 0

        def note(mc, on, dur, midi=60, tied=None):
            nonlocal k
            notes.append(dict(file=f, id=k, mc=mc, mn_onset=F(on), duration=F(dur), midi=midi, tied=tied, gracenote=None, staff=1, voice=1))
            k += 1

        for i, (mc, s, e, off) in enumerate(ch):
            d = e - s
            note(mc, off, d, 60, 1 if i == 0 and len(ch) > 1 else -1 if i == 1 else None)
            note(mc, off + d / 2, d, 67)
            note(mc, off + d, d, 61)
            note(mc, off - F(1, 32), d, 62)
            note(mc, off + d - F(1, 32), F(1, 16), 63)
        note(77, F(0), F(1), 64)
        j = 0
        for i, (mc, s, e, off) in enumerate(ch):
            d = e - s
            for on, num in ((off, "I"), (off + d / 4, "@none"), (off + d / 2, "V"), (off + d / 2, "vi"), (off + d * F(3, 4), None), (off + d, "ii"), (off - F(1, 8), "iii")):
                chs.append(dict(file=f, id=j, mc=mc, mn_onset=on, timesig="4/4", numeral=num))
                j += 1
        chs.append(dict(file=f, id=j, mc=88, mn_onset=F(0), timesig="4/4", numeral="IV"))
    return ms, notes, chs


def absent(notes, chs):
    """files without notes or without chords; rows of a file without measures"""
    notes = [n for n in notes if n["file"] != 5] + [dict(notes[0], file=6, id=0)]
    chs = [c for c in chs if c["file"] != 2] + [dict(chs[0], file=3, id=100), dict(chs[0], file=6, id=0)]
    key = lambda r: (r["file"], r["id"])
    return sorted({key(n): n for n in notes}.values(), key=key), sorted({key(n): n for n in chs}.values(), key=key)


def want_clean(raw, mode):
    ms, notes, chs = faulty(raw)
    notes, chs = absent(notes, chs)
    by = {(m["file"], m["mc"]): m for m in ms}

    def inside(r):
        m = by.get((r["file"], r["mc"]))
        return m is not None and m["mc_offset"] <= r["mn_onset"] < m["mc_offset"] + m["act_dur"]

    ns = [n for n in notes if inside(n)]
    if mode == "offsets given":
        ns = [dict(n, offset_mc=50 + n["id"] % 3, offset_beat=F(n["id"], 8)) for n in ns]
    else:
        ns = want_offsets(ns, ms)
    ns = want_ties(ns)
    cs = [c for c in chs if c["numeral"] not in (None, "@none") and inside(c)]
    cs = [c for c in want_chords(cs, ms) if c["duration"] > 0]
    return ms, ns, cs


def cleaned(ck, I, files, raw, name, mode):
    fn = CR + "load_clean_corpus_dfs"
    w = loc(I, fn)
    _, notes, chs = faulty(raw)
    notes, chs = absent(notes, chs)
    if mode == "offsets given":
        notes = [dict(n, offset_mc=50 + n["id"] % 3, offset_beat=F(n["id"], 8)) for n in notes]
    ms, ns, cs = want_clean(raw, mode)
    st = St()
    na = lambda x: float("nan") if x is None else x
    ren = lambda rows, a, b: [dict({k: v for k, v in r.items() if k != a}, **{a: r[a] if i % 2 else pdm.NA, b: r[a] if i % 3 else (pdm.NA if i % 2 else r[a])}) for i, r in enumerate(rows)]
    if mode == "old names":
        raw = ren(raw, "mc_offset", "offset")
        notes, chs = ren(notes, "mn_onset", "onset"), ren(chs, "mn_onset", "onset")
    tabs = {
        "files": pdm.frame(I, st, data={"corpus_name": [f"c{f}" for f in files], "file_name": [f"f{f}.tsv" for f in files]}, index=list(files), names=("file_id",)),
        "measures": table(I, st, "measures", [dict(m, next=Tup(m["next"]) if isinstance(m["next"], tuple) else pdm.NA if m["next"] is None else m["next"]) for m in raw]),
        "notes": table(I, st, "notes", [dict(n, tied=pdm.NA if n["tied"] is None else n["tied"], gracenote=na(n["gracenote"])) for n in notes]),
        "chords": table(I, st, "chords", [dict(c, numeral=na(c["numeral"])) for c in chs]),
    }

    def dump(I, args, kw, st, node):
        text = show(args[0] if args else kw.get("file"))
        hit = [k for k in tabs if f"{k}.tsv" in text]
        if len(hit) != 1:
            raise Undec(f"which table is {text}")
        if hit[0] == "chords" and mode == "no chords":
            I.raise_now(st, "FileNotFoundError", node)
        return tabs[hit[0]]

    old = I.hooks.get(CR + "read_dump")
    I.hooks[CR + "read_dump"] = dump
    try:
        st, r = call(I, fn, ["corpus"], {"count": 2} if mode == "first two" else {}, st)
    finally:
        if old is None:
            I.hooks.pop(CR + "read_dump", None)
        else:
            I.hooks[CR + "read_dump"] = old
    its = I.concrete_items(r, st)
    if its is None or len(its) != 4:
        raise Undec("four tables")
    fs = list(files)[:2] if mode == "first two" else list(files)
    fc = I.cell(st, its[0])
    ck.add("clean", f"{name} {mode} files", fc is not None and fc.kind == "df" and list(fc.index) == fs, w, f"{name} {mode}: files {show(fc and fc.index)}, required {fs}")
    for what, ref, exp in (("measures", its[1], ms), ("chords", its[2], cs), ("notes", its[3], ns)):
        if what == "chords" and mode == "no chords":
            ck.add("clean", f"{name} {mode} chords", ref is None, w, f"{name}: chords without a table")
            continue
        rows = read(I, st, ref)
        d = same_rows(rows, [x for x in exp if x["file"] in fs])
        if d is None and mode == "old names" and any(k in r for r in rows for k in ("onset", "offset")):
            d = "an old column is left"
        ck.add("clean", f"{name} {mode} {what}", d is None, w, f"{name} {mode}: {what}: {d}", n=len(exp))
