"""Stand-ins for values of libraries which are not analysed."""
import numpy as np



class Tensor:
    """an opaque tensor: only its identity matters"""

    def __init__(self, tag):
        self.tag = tag

    def equal(self, other):
        return self.tag == other.tag

    def numpy(self):
        return self.tag


class RecurrentModel:
    """a recurrent model: remembers what it was given; hidden states count its steps"""

    def __init__(self, dataset_kwargs, outputs):
        self.dataset_kwargs = dataset_kwargs
        self.outputs = outputs
        self.given = []

    def get_dataset_kwargs(self):
        return self.dataset_kwargs

    def init_hidden(self, batch_size):
        return (np.zeros((1, batch_size, 2)), np.zeros((1, batch_size, 2)))

    def step(self, batch):
        inputs = batch["inputs"]
        outputs = []
        hidden = []
        cell = []
        for i in range(len(inputs)):
            given = {"inputs": inputs[i], "hidden": batch["hidden_states"][0][i], "cell": batch["hidden_states"][1][i]}
            if "input_lengths" in batch:
                given["length"] = batch["input_lengths"][i]
            outputs.append(self.outputs[len(self.given)])
            hidden.append(np.full((1, 2), 100 + len(self.given)))
            cell.append(np.full((1, 2), 200 + len(self.given)))
            self.given.append(given)
        return np.array(outputs), (np.stack(hidden, axis=1), np.stack(cell, axis=1))

    def run_one_step(self, batch):
        return self.step(batch)

    def get_output(self, batch):
        return self.step(batch)


class ProbeModel:
    """a model whose output depends on one feature of the last given row"""

    def __init__(self, probe, yes, no):
        self.probe = probe
        self.yes = yes
        self.no = no
        self.use_output_inversions = False
        self.output_reduction = None

    def get_dataset_kwargs(self):
        return {}

    def init_hidden(self, batch_size):
        return (np.zeros((1, batch_size, 1)), np.zeros((1, batch_size, 1)))

    def step(self, batch):
        inputs = batch["inputs"]
        outputs = []
        hidden = []
        cell = []
        for i in range(len(inputs)):
            length = batch["input_lengths"][i] if "input_lengths" in batch else 1
            last = inputs[i][length - 1]
            outputs.append(self.yes if last[self.probe] == 1 else self.no)
            # what it has seen: the number of rows, the probed feature and the key change of the last
            code = length * 4 + (1 if last[self.probe] == 1 else 0) + (2 if last[len(last) - 1] == 1 else 0)
            hidden.append(np.full((1, 1), batch["hidden_states"][0][i][0][0] * 64 + code))
            cell.append(np.full((1, 1), batch["hidden_states"][1][i][0][0] * 64 + code + 32))
        return np.array(outputs), (np.stack(hidden, axis=1), np.stack(cell, axis=1))

    def run_one_step(self, batch):
        return self.step(batch)

    def get_output(self, batch):
        return self.step(batch)


class InitialModel:
    def __init__(self, major, minor):
        self.major = major
        self.minor = minor

    def get_prior(self, is_minor, log=True):
        return np.array(self.minor if is_minor else self.major)


class PieceOf:
    def __init__(self, inputs):
        self.inputs = inputs

    def get_inputs(self):
        return self.inputs

    def get_keys(self):
        return None


class ChangeModel:
    """a chord change model: remembers what it was given and answers with the given probabilities"""

    def __init__(self, probs):
        self.probs = probs
        self.given = []

    def get_output(self, batch):
        for i in range(len(batch["inputs"])):
            self.given.append(batch["inputs"][i])
        padded = list(self.probs) + [0.123]
        return np.array([padded]), np.array([len(self.probs)])


class Classifier:
    """a chord classifier: remembers what it was given and answers with the next of the given rows"""

    def __init__(self, dataset_kwargs, rows):
        self.dataset_kwargs = dataset_kwargs
        self.rows = rows
        self.given = []
        self.lengths = []

    def get_dataset_kwargs(self):
        return self.dataset_kwargs

    def get_output(self, batch):
        out = []
        for i in range(len(batch["inputs"])):
            out.append(np.array(self.rows[len(self.given)]))
            self.given.append(batch["inputs"][i])
            self.lengths.append(batch["input_lengths"][i])
        return np.array(out)
