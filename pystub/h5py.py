"""Stand-in for the h5py module (absent here): groups, datasets and attributes kept in a pickle."""
import os
import pickle
import numpy as np


class Dataset:
    def __init__(self, data):
        self.data, self.attrs = np.array(data), {}

    def __array__(self, dtype=None, copy=None):
        return np.array(self.data, dtype=dtype)

    def __getitem__(self, k):
        return self.data[k]

    shape = property(lambda s: s.data.shape)
    dtype = property(lambda s: s.data.dtype)

    def __len__(self):
        return len(self.data)


class Group:
    def __init__(self):
        self.items_, self.attrs = {}, {}

    def create_dataset(self, name, shape=None, dtype=None, data=None):
        if name in self.items_:
            raise ValueError("Unable to create dataset (name already exists)")
        self.items_[name] = Dataset(data)
        return self.items_[name]

    def create_group(self, name):
        if name in self.items_:
            raise ValueError("Unable to create group (name already exists)")
        self.items_[name] = Group()
        return self.items_[name]

    def __contains__(self, k):
        return k in self.items_

    def __iter__(self):
        return iter(sorted(self.items_))

    def __getitem__(self, k):
        return self.items_[k]

    def get(self, k, default=None):
        return self.items_.get(k, default)

    def keys(self):
        return sorted(self.items_)


class File(Group):
    def __init__(self, name, mode="r"):
        Group.__init__(self)
        self.name_, self.mode, self.open = name, mode, True
        if mode in ("r", "r+") or (mode == "a" and os.path.exists(name)):
            with open(name, "rb") as f:
                self.items_, self.attrs = pickle.load(f)
        elif mode == "w":
            self.flush()
        import atexit
        atexit.register(self.close)

    def flush(self):
        if self.mode != "r":
            with open(self.name_, "wb") as f:
                pickle.dump((self.items_, self.attrs), f)

    def close(self):
        if self.open:
            self.flush()
            self.open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
