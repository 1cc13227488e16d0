#!/opt/venv/bin/python
'''check.py ID [tier]   run one check      check.py --replay FILE   run one recorded violation again'''
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
ENV = {'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1',
       'MPLBACKEND': 'Agg', 'TF_CPP_MIN_LOG_LEVEL': '3', 'CUDA_VISIBLE_DEVICES': '', 'PYTHONHASHSEED': '0',
       'LC_ALL': 'C.UTF-8', 'HDF5_USE_FILE_LOCKING': 'FALSE', 'PYTHONUNBUFFERED': '1', 'MC_ENV': '1'}
if os.environ.get('MC_ENV') != '1':
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.join(VERIF, 'mc', 'fake'))
sys.path.insert(0, VERIF)

if __name__ == '__main__':
    from mc import core
    sys.exit(core.main(sys.argv[1:]))
