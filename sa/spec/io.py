"""reading of files: reference formulas"""
import numpy as np
import xarray as xr
import h5py


def npy(path):
    return np.load(path)


def nc(path):
    return xr.open_dataset(path)


def mat(path):
    d = dict()
    with h5py.File(path, 'r') as f:
        for k, v in f.items():
            d[k] = np.array(v)
    return d
