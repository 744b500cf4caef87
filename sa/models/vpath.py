"""Source model of pathlib.Path over a given set of existing files."""
import vprim


class Path:
    def __init__(self, *parts):
        text = ""
        for part in parts:
            if not isinstance(part, (str, Path)):
                raise TypeError("not a path")
            part = str(part)
            if part.startswith("/"):
                text = part
            elif text and text != "." and part != ".":
                text = text + "/" + part if not text.endswith("/") else text + part
            elif part != "." or not text:
                text = part
        while len(text) > 1 and text.endswith("/"):
            text = text[:-1]
        if text.startswith("./"):
            text = text[2:]
        self.text = text if text else "."

    def __str__(self):
        return self.text

    def __fspath__(self):
        return self.text

    def __truediv__(self, other):
        return Path(self, other)

    def __rtruediv__(self, other):
        return Path(other, self)

    def __eq__(self, other):
        return isinstance(other, Path) and self.text == other.text

    def __hash__(self):
        return hash(self.text)

    def __lt__(self, other):
        return self.text.split("/") < other.text.split("/")

    @property
    def name(self):
        return self.text.split("/")[-1]

    @property
    def suffix(self):
        name = self.name
        i = name.rfind(".")
        return name[i:] if 0 < i < len(name) - 1 else ""

    @property
    def stem(self):
        name = self.name
        i = name.rfind(".")
        return name[:i] if 0 < i < len(name) - 1 else name

    @property
    def parent(self):
        i = self.text.rfind("/")
        if i < 0:
            return Path(".")
        return Path(self.text[:i] if i else "/")

    @property
    def parents(self):
        out = []
        path = self
        while path.parent.text != path.text:
            path = path.parent
            out.append(path)
        return tuple(out)

    @property
    def parts(self):
        return tuple(self.text.split("/"))

    def with_suffix(self, suffix):
        return self.parent / (self.stem + suffix)

    def with_name(self, name):
        return self.parent / name

    def joinpath(self, *others):
        return Path(self, *others)

    def relative_to(self, other):
        base = str(Path(other))
        if base == ".":
            if self.text.startswith("/"):
                raise ValueError("not in the subpath")
            return self
        if self.text == base:
            return Path(".")
        if not self.text.startswith(base + "/"):
            raise ValueError("not in the subpath")
        return Path(self.text[len(base) + 1:])

    def exists(self):
        return vprim.fs_exists(self.text)

    def is_file(self):
        return vprim.fs_is_file(self.text)

    def is_dir(self):
        return vprim.fs_exists(self.text) and not vprim.fs_is_file(self.text)

    def mkdir(self, mode=511, parents=False, exist_ok=False):
        problem = vprim.fs_mkdir(self.text, parents, exist_ok)
        if problem == "exists":
            raise FileExistsError(self.text)
        if problem == "missing":
            raise FileNotFoundError(self.text)

    def glob(self, pattern):
        return [Path(p) for p in vprim.fs_glob(self.text + "/" + pattern if self.text != "." else pattern, True)]

    def rglob(self, pattern):
        return self.glob("**/" + pattern)

    def iterdir(self):
        return self.glob("*")

    def with_stem(self, stem):
        return self.parent / (stem + self.suffix)

    def expanduser(self):
        return self

    def __gt__(self, other):
        return other < self

    def as_posix(self):
        return self.text

    def resolve(self):
        return self

    def absolute(self):
        return self

    def open(self, mode="r", *args, **kwargs):
        return open(self, mode)
