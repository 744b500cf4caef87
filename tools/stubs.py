"""Minimal stand-ins for torch, pytorch_lightning and h5py (not installed here), enough to import
the repository's modules and to run their numpy-level code with toy models."""
import sys
import types

import numpy as np


class Tensor(np.ndarray):
    def numpy(self):
        return np.asarray(self)

    def float(self):
        return tensor(np.asarray(self, dtype=float))

    def long(self):
        return tensor(np.asarray(self, dtype=int))

    def equal(self, other):
        return np.array_equal(np.asarray(self), np.asarray(other))


def tensor(x):
    return np.asarray(x).view(Tensor)


class Dummy:
    def __init__(self, *a, **k):
        pass

    def __init_subclass__(cls, **k):
        pass


class Mod(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = type(name, (Dummy,), {})
        setattr(self, name, v)
        return v


for n in (
    "torch", "torch.nn", "torch.nn.functional", "torch.autograd", "torch.nn.utils", "torch.nn.utils.rnn", "torch.utils", "torch.utils.data",
    "torch.utils.data.dataloader", "torch.optim", "torch.optim.lr_scheduler", "pytorch_lightning", "pytorch_lightning.callbacks", "pytorch_lightning.loggers",
    "pytorch_lightning.callbacks.model_checkpoint", "pytorch_lightning.callbacks.early_stopping", "pytorch_lightning.callbacks.lr_monitor", "h5py",
):
    m = Mod(n)
    sys.modules[n] = m
    if "." in n:
        p, _, c = n.rpartition(".")
        setattr(sys.modules[p], c, m)

torch = sys.modules["torch"]
torch.transpose = lambda t, a, b: tensor(np.swapaxes(np.asarray(t), a, b))
torch.zeros = lambda *s: tensor(np.zeros(s))
torch.from_numpy = tensor


class Module:
    def __init__(self, *a, **k):
        pass

    def save_hyperparameters(self):
        pass

    def log(self, *a, **k):
        pass


torch.nn.Module = Module
sys.modules["pytorch_lightning"].LightningModule = Module


class Dataset:
    pass


def collate(items):
    x = items[0]
    if isinstance(x, dict):
        return {k: collate([i[k] for i in items]) for k in x}
    if isinstance(x, tuple):
        return tuple(collate([i[j] for i in items]) for j in range(len(x)))
    return tensor(np.stack([np.asarray(i) for i in items]))


class DataLoader:
    def __init__(self, dataset, batch_size=1, shuffle=False, **k):
        self.dataset, self.batch_size = dataset, batch_size

    def __iter__(self):
        n = len(self.dataset)
        for s in range(0, n, self.batch_size):
            yield collate([self.dataset[i] for i in range(s, min(n, s + self.batch_size))])


for n in ("torch.utils.data", "torch.utils.data.dataloader"):
    sys.modules[n].Dataset = Dataset
    sys.modules[n].DataLoader = DataLoader

FILES = {}


class File(dict):
    def __init__(self, path, mode="r"):
        self.path = str(path)
        if mode == "w":
            FILES[self.path] = {}
        super().__init__(FILES[self.path])

    def create_dataset(self, key, data=None, compression=None):
        FILES[self.path][key] = np.array(data)
        self[key] = FILES[self.path][key]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


sys.modules["h5py"].File = File
