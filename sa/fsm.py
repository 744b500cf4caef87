"""Model of a file system given as a set of file names (I.fs): pathlib, os.path and glob."""
import os
import re

from .engine import Tup


def text(I, st, v):
    v = I.resolve(v, st)
    if isinstance(v, str):
        return v
    c = I.cell(st, v)
    if c is not None and c.kind == "obj" and c.cls.name == "Path":
        t = I.resolve(c.attrs.get("text"), st)
        return t if isinstance(t, str) else None
    return None


def entries(fs):
    out = set(fs)
    for f in fs:
        parts = f.split("/")
        for i in range(1, len(parts)):
            out.add("/".join(parts[:i]))
    return {x for x in out if x}


def matches(pattern, name, recursive):
    pp, nn = pattern.split("/"), name.split("/")

    def seg(p, n):
        if n.startswith(".") and not p.startswith("."):
            return False
        r, i = "", 0
        while i < len(p):
            c = p[i]
            if c == "[" and "]" in p[i + 2:]:
                j = p.index("]", i + 2)
                b = p[i + 1:j]
                r += "[" + ("^" + b[1:] if b[0] == "!" else b) + "]"
                i = j
            else:
                r += "[^/]*" if c == "*" else "[^/]" if c == "?" else re.escape(c)
            i += 1
        return re.fullmatch(r, n) is not None

    def go(i, j):
        if i == len(pp):
            return j == len(nn)
        if pp[i] == "**" and recursive:
            return go(i + 1, j) or (j < len(nn) and not nn[j].startswith(".") and go(i, j + 1))
        return j < len(nn) and seg(pp[i], nn[j]) and go(i + 1, j + 1)

    return go(0, 0)


def find(I, pattern, recursive):
    """matching names, in an order no program may rely on"""
    pattern = re.sub(r"/+", "/", pattern)
    if pattern.startswith("./"):
        pattern = pattern[2:]
    got = sorted(x for x in entries(I.fs) if matches(pattern, x, recursive))
    return got[1::2] + got[::2][::-1]


def install(I, files):
    I.fs = set(files)
    I.dirs = {"."}
    I.modelled["pathlib.Path"] = I.modelled["pathlib.PurePath"] = I.modelled["pathlib.PosixPath"] = "vpath.Path"

    def pure(f, n=None):
        def g(I, a, kw, st, node):
            t = [text(I, st, x) for x in a]
            if any(x is None for x in t) or kw:
                I.opaque_ops += 1
                from .engine import T

                return T("unk", "path")
            r = f(*t)
            return Tup(r) if isinstance(r, tuple) else r

        return g

    for k in ("join", "basename", "dirname", "splitext", "split", "normpath"):
        I.hooks["os.path." + k] = pure(getattr(os.path, k))
    I.hooks["os.fspath"] = pure(lambda x: x)
    I.hooks["os.path.relpath"] = pure(os.path.relpath)
    I.hooks["os.path.exists"] = pure(lambda x: os.path.normpath(x) in entries(I.fs))
    I.hooks["os.path.isfile"] = pure(lambda x: os.path.normpath(x) in I.fs)
    I.hooks["os.path.isdir"] = pure(lambda x: os.path.normpath(x) in entries(I.fs) - I.fs)

    def glob(I, a, kw, st, node):
        p = text(I, st, a[0])
        rec = a[1] if len(a) > 1 else kw.get("recursive", False)
        if p is None or not isinstance(rec, bool):
            from .engine import T

            return T("unk", "glob")
        return I.mklist(st, find(I, p, rec))

    for k in ("glob.glob", "glob.iglob", "vprim.fs_glob"):
        I.hooks[k] = glob
    def known(d):
        return d in (".", "") or d in I.dirs or d in entries(I.fs)

    def mk(I, p, parents, exist_ok):
        p = os.path.normpath(p)
        if known(p):
            return None if exist_ok and p not in I.fs else "exists"
        if not parents and not known(os.path.dirname(p)):
            return "missing"
        while p not in (".", "", "/"):
            I.dirs.add(p)
            p = os.path.dirname(p)
        return None

    def mkdir(I, a, kw, st, node):
        p = text(I, st, a[0])
        if p is None or not all(isinstance(x, bool) for x in a[1:]):
            return NotImplemented
        return mk(I, p, *a[1:])

    def makedirs(parents):
        def g(I, a, kw, st, node):
            p = text(I, st, a[0] if a else kw.get("name", kw.get("path")))
            ok = kw.get("exist_ok", a[2] if len(a) > 2 else False)
            if p is None or not isinstance(ok, bool):
                return None
            r = mk(I, p, parents, ok)
            if r:
                I.raise_now(st, "FileExistsError" if r == "exists" else "FileNotFoundError", node)
            return None

        return g

    I.hooks["vprim.fs_mkdir"] = mkdir
    I.hooks["os.makedirs"], I.hooks["os.mkdir"] = makedirs(True), makedirs(False)


def writable(I, p):
    """does the folder of this file exist?"""
    if not isinstance(p, str):
        return False
    d = os.path.dirname(os.path.normpath(p))
    return d in (".", "") or d in I.dirs or d in entries(I.fs)
