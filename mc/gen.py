'''Small input alphabets shared by the checks (deterministic for a given seed).'''
import numpy as np


def rng(*key):
    h = 0
    for k in key:
        for c in str(k):
            h = (h * 1000003 + ord(c)) & 0xFFFFFFFF
    return np.random.default_rng(h)


def field(seed, nt, xshape, nv, kind='real', axis=True):
    '''(nt, *xshape[, nv]) generic data: broad-band noise + two travelling structures + offset.'''
    r = rng('field', seed, nt, xshape, nv, kind)
    shape = (nt,) + tuple(xshape) + (nv,)
    t = np.arange(nt).reshape((nt,) + (1,) * (len(shape) - 1))
    a = r.standard_normal(shape)
    for k in range(2):
        amp = r.standard_normal(shape[1:]) * (2 - k)
        ph = r.uniform(0, 2 * np.pi, shape[1:])
        a = a + amp * np.cos(2 * np.pi * (0.13 + 0.21 * k) * t + ph)
    a = a + r.uniform(-3, 3, shape[1:])
    if kind == 'complex':
        b = r.standard_normal(shape)
        a = a + 1j * (b + r.uniform(-2, 2, shape[1:]))
    if not axis:
        assert nv == 1
        a = a[..., 0]
    return a


def weights(seed, xshape, nv):
    r = rng('weights', seed, xshape, nv)
    return r.uniform(0.4, 2.5, tuple(xshape) + (nv,))


def wdict(w):
    return {'weights_name': 'user', 'weights': w}
