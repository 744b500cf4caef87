"""Stand-ins for pieces and h5 files: what the datasets read and write."""
import numpy as np


class Part:
    """a piece given by its parts"""

    def __init__(self, notes, durations, chords, changes, keys, key_changes, note_inputs):
        self.notes = np.array(notes)
        self.durations = np.array(durations)
        self.chords = np.array(chords)
        self.changes = np.array(changes)
        self.keys = np.array(keys)
        self.key_changes = np.array(key_changes)
        self.note_inputs = note_inputs
        self.asked = []

    def get_inputs(self):
        return self.notes

    def get_duration_cache(self):
        return self.durations

    def get_chords(self):
        return self.chords

    def get_chord_change_indices(self):
        return self.changes

    def get_keys(self):
        return self.keys

    def get_key_change_indices(self):
        return self.key_changes

    def get_chord_note_inputs(self, window=2, ranges=None, change_indices=None):
        self.asked.append((window, ranges, change_indices))
        return [np.array(rows) for rows in self.note_inputs]


class Place:
    """a path which exists"""

    def __init__(self, name):
        self.name = name
        self.parent = self

    def exists(self):
        return True

    def mkdir(self, parents=False, exist_ok=False):
        pass


class File:
    """an h5 file: named arrays, kept between openings"""

    def __init__(self, path, mode="r"):
        self.path = path
        if mode == "w":
            path.data = {}
        self.data = path.data

    def create_dataset(self, key, data=None, compression=None):
        data = np.array(data)
        for item in data:
            if data.ndim == 1 and isinstance(item, (list, np.ndarray)):
                raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
            break
        self.data[key] = data

    def __getitem__(self, key):
        value = self.data[key]
        return value if isinstance(value, Huge) else np.array(value)

    def __contains__(self, key):
        return key in self.data

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


class Huge:
    """stored data too large to be read at once"""

    def __init__(self, data):
        self.data = data
        self.shape = data.shape

    def __array__(self, *args):
        raise MemoryError()

    def __len__(self):
        return len(self.data)

    def __getitem__(self, item):
        if isinstance(item, slice):
            raise MemoryError()
        return np.array(self.data[item])


def seed(value=None):
    """numpy.random.seed (the check records the call)"""


def shuffle(x):
    """numpy.random.shuffle (the check picks the permutation)"""


class Raw:
    """a piece known by where it came from"""

    def __init__(self, source):
        self.source = source


class Holder:
    """a dataset which keeps its pieces"""

    def __init__(self, pieces):
        self.pieces = pieces


class Other(Holder):
    pass


class Text:
    """an open text file"""

    def __init__(self, lines):
        self.lines = lines

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __iter__(self):
        return iter(self.lines)

    def readlines(self):
        return list(self.lines)

    def read(self):
        return "".join(self.lines)


class MScore:
    """a MuseScore file as ms3 reads it"""

    def __init__(self, labels, chords):
        self.labels = labels
        self.chords = chords
        self.annotations = self
        self.mscx = self

    def get_labels(self):
        return self.labels.copy()

    def get_chords(self, lyrics=False):
        return self.chords.copy() if lyrics else self.chords[["mc", "mn_onset", "voice"]]


class Net:
    """a trained model"""

    def __init__(self, source):
        self.source = source
        self.frozen = False

    def freeze(self):
        self.frozen = True

    def eval(self):
        return self


class Joint:
    """a joint model: answers with the piece's prepared state and notes what it was asked"""

    def __init__(self, chord_type, key_type):
        self.CHORD_OUTPUT_TYPE = chord_type
        self.KEY_OUTPUT_TYPE = key_type
        self.asked = []

    def get_harmony(self, piece, **forces):
        self.asked.append((piece.name, forces))
        return piece.state


class Named:
    """a piece as the programs use it"""

    def __init__(self, name, state, chords):
        self.name = name
        self.state = state
        self.chords = chords

    def get_chords(self):
        return self.chords


class H5Ids:
    """an h5 file holding the ids of its pieces (or not)"""

    def __init__(self, ids):
        self.ids = ids

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None

    def close(self):
        return None

    def keys(self):
        return ["file_ids"] if self.ids is not None else []

    def __contains__(self, key):
        return key == "file_ids" and self.ids is not None

    def __getitem__(self, key):
        if key != "file_ids" or self.ids is None:
            raise KeyError(key)
        return self.ids


class Stored:
    """a dataset to be written"""

    def __init__(self, source):
        self.source = source

    def to_h5(self, h5_path, file_ids=None):
        return None


class Annotated:
    """a piece with chords"""

    def __init__(self, source, chords):
        self.source = source
        self.chords = chords

    def to_dict(self):
        return {"piece": self.source}

    def get_chords(self):
        return self.chords


class Trainee:
    """a model to be trained"""

    def __init__(self, source, kwargs):
        self.source = source
        self.kwargs = kwargs

    def get_dataset_kwargs(self):
        return self.kwargs


class Trainer:
    def __init__(self, source):
        self.source = source

    def fit(self, *args, **kwargs):
        return None
