from mpi4py.MPI import *  # noqa
