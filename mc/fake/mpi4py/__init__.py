'''Stand-in for mpi4py used by the model checker: every operation of a rank is
handed to the coordinator in mc/sim.py, which decides when it happens.'''
__version__ = '4.1.2'


class _Rc:
    initialize = True
    threads = True
    thread_level = 'multiple'
    finalize = None
    fast_reduce = True
    recv_mprobe = True
    irecv_bufsz = 32768
    errors = 'exception'

    def __call__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


rc = _Rc()


def get_config():
    return {}


def get_include():
    return ''
