#!/opt/venv/bin/python
'''Nothing to build: the checks import /repo's working tree.  This only makes sure that the pieces are there.'''
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, 'mc', 'fake'))
sys.path.insert(0, V)
import numpy, scipy, xarray, netCDF4, h5py, yaml  # noqa
from mpi4py import MPI  # noqa
assert 'mc/fake' in MPI.__file__, MPI.__file__
from mc import core, sim, fsmon, ref, gen  # noqa
print('ok')
