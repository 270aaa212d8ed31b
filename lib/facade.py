"""Adapters giving in-memory sources the interface of dataset factories."""
from megatron.energon.flavors.base_dataset import BaseCoreDatasetFactory


class Factory(BaseCoreDatasetFactory):
    __sample_type__ = None

    def __init__(self, ds):
        self.ds = ds
        self.built = []

    @property
    def sample_type(self):
        return None

    def build(self, worker_rotation_offset=0):
        self.built.append(worker_rotation_offset)
        return self.ds

    def as_mixture(self):
        raise NotImplementedError

    def __len__(self):
        return len(self.ds)


def factory(ds):
    return Factory(ds)
