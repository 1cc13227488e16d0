import numpy as np
from mpi4py import MPI as _MPI


def from_numpy_dtype(dtype):
    dtype = np.dtype(dtype)
    if not dtype.isnative:
        raise ValueError('NumPy datatype with non-native byteorder')
    return _MPI._datatype_from_numpy(dtype).Dup()


def to_numpy_dtype(datatype):
    return datatype._np
