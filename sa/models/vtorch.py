"""Source model of the data-loading classes of torch: batches in order, collated by stacking."""
import numpy as np


class Dataset:
    pass


def collate(items):
    first = items[0]
    if isinstance(first, dict):
        return {key: collate([item[key] for item in items]) for key in first}
    if isinstance(first, tuple):
        return tuple([collate([item[i] for item in items]) for i in range(len(first))])
    if isinstance(first, (int, float)):
        return np.array(items)
    return np.stack(items)


class DataLoader:
    def __init__(self, dataset, batch_size=1, shuffle=False, **kwargs):
        self.dataset = dataset
        self.batch_size = batch_size

    def __len__(self):
        return (len(self.dataset) + self.batch_size - 1) // self.batch_size

    def __iter__(self):
        batches = []
        count = len(self.dataset)
        for start in range(0, count, self.batch_size):
            items = []
            for i in range(start, min(count, start + self.batch_size)):
                items.append(self.dataset[i])
            batches.append(collate(items))
        return iter(batches)
