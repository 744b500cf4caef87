"""Source model of the re module; matching itself is the primitive vprim.re_find."""
import vprim

IGNORECASE = 2
I = 2
MULTILINE = 8
M = 8
DOTALL = 16
S = 16
VERBOSE = 64
X = 64


class Match:
    def __init__(self, string, spans, names):
        self.string = string
        self.spans = spans
        self.names = names

    def _one(self, k):
        if isinstance(k, str):
            if k not in self.names:
                raise IndexError("no such group")
            k = self.names[k]
        if k < 0 or k >= len(self.spans):
            raise IndexError("no such group")
        a, b = self.spans[k]
        return None if a < 0 else self.string[a:b]

    def group(self, *ks):
        if len(ks) == 0:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple([self._one(k) for k in ks])

    def __getitem__(self, k):
        return self._one(k)

    def groups(self, default=None):
        out = []
        for k in range(1, len(self.spans)):
            v = self._one(k)
            out.append(default if v is None else v)
        return tuple(out)

    def groupdict(self, default=None):
        out = {}
        for n in self.names:
            v = self._one(n)
            out[n] = default if v is None else v
        return out

    def start(self, k=0):
        return self.spans[k][0]

    def end(self, k=0):
        return self.spans[k][1]

    def span(self, k=0):
        return self.spans[k]


class Pattern:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.flags = flags

    def _find(self, how, string, pos=0):
        r = vprim.re_find(how, self.pattern, self.flags, string, pos)
        return None if r is None else Match(string, r[0], dict(r[1]))

    def search(self, string, pos=0):
        return self._find("search", string, pos)

    def match(self, string, pos=0):
        return self._find("match", string, pos)

    def fullmatch(self, string, pos=0):
        return self._find("fullmatch", string, pos)

    def finditer(self, string):
        return iter([Match(string, s, dict(n)) for s, n in vprim.re_all(self.pattern, self.flags, string)])

    def findall(self, string):
        out = []
        for s, n in vprim.re_all(self.pattern, self.flags, string):
            m = Match(string, s, dict(n))
            g = m.groups("")
            out.append(m.group(0) if len(g) == 0 else g[0] if len(g) == 1 else g)
        return out

    def sub(self, repl, string, count=0):
        return vprim.re_sub(self.pattern, self.flags, repl, string, count)

    def split(self, string, maxsplit=0):
        return list(vprim.re_split(self.pattern, self.flags, string, maxsplit))


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    return Pattern(pattern, flags)


def search(pattern, string, flags=0):
    return compile(pattern, flags).search(string)


def match(pattern, string, flags=0):
    return compile(pattern, flags).match(string)


def fullmatch(pattern, string, flags=0):
    return compile(pattern, flags).fullmatch(string)


def findall(pattern, string, flags=0):
    return compile(pattern, flags).findall(string)


def finditer(pattern, string, flags=0):
    return compile(pattern, flags).finditer(string)


def sub(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).sub(repl, string, count)


def split(pattern, string, maxsplit=0, flags=0):
    return compile(pattern, flags).split(string, maxsplit)


def escape(pattern):
    return vprim.re_escape(pattern)
