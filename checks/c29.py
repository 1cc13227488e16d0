'''C29: emulation scaling is invertible and sequences align with the data.'''
import itertools
import json
import os
import numpy as np

from mc import gen
from mc.core import Rep, quiet

for _k, _v in (('TQDM_DISABLE', '1'), ('TF_CPP_MIN_LOG_LEVEL', '3'), ('TF_ENABLE_ONEDNN_OPTS', '0'), ('CUDA_VISIBLE_DEVICES', '')):
    os.environ.setdefault(_k, _v)

PROP = 'C29'
LEVEL = 'model_checking'
RULE = ('every matrix of coefficients over a small set of values (1-2 features, up to 3 steps; larger generic ones; every element type) x real and '
        'complex x normalisation: range, inverse, arguments unchanged; every (features, length, input window, output '
        'window, horizon) up to (3, 8, 3, 3, 3): training windows and targets; series with a single complex entry at every place; every such configuration of inference '
        'with a stand-in network that identifies the window, the part and the training it was given; every history of '
        'up to four trainings and inferences of two modes; one case with the real network')
ASSUMPTIONS = ['extract_sequences may leave out the last usable window (the repository does)',
               'the network is replaced by a stand-in with the interface of keras (fit, load_weights, predict)']
NORMS = ['localmax', 'globalmax', 'none']


def plan(tier, seed):
    it = [('t_scale', [n, c]) for n in NORMS for c in (0, 1)] + [('t_scale_large', []), ('t_types', [])]
    it += [('t_seq', [nf, nt]) for nf in (1, 2, 3) for nt in ((5, 6, 8) if tier == 'quick' else range(3, 12))]
    it += [('t_seq', [n, n]) for n in (3, 4, 5, 7)] + [('t_single', [nt]) for nt in (4, 5, 6)]
    it += [('t_inf', [nf, i]) for nf in (1, 2, 3) for i in (1, 2, 3)] + [('t_hist', [p]) for p in range(4)]
    it += [('t_real', [c]) for c in (0, 1)]
    return it


def NN(**kw):
    from pyspod.emulation.neural_nets import Neural_Nets
    return Neural_Nets(kw)


class Stub:
    '''linear map that differs for every training; its weights file says which training it is'''
    trainings = []

    def __init__(self, n_in, n_feat, n_out):
        r = gen.rng('stub', n_in, n_feat, n_out)
        self.a = r.uniform(0.5, 1.5, (n_in * n_feat, n_out * n_feat))
        self.tag, self.loaded = None, []

    def fit(self, x=None, y=None, validation_data=None, callbacks=None, **kw):
        k = len(Stub.trainings)
        Stub.trainings.append((np.array(x), np.array(y), validation_data))
        self.tag = k
        for c in callbacks or []:
            if hasattr(c, 'filepath'):
                self.save_weights(c.filepath)
        return type('H', (), {'history': {'loss': [1.0], 'val_loss': [1.0]}})()

    def save_weights(self, path, *a, **k):
        with open(path, 'w') as f:
            json.dump(self.tag, f)

    def load_weights(self, path, *a, **k):
        with open(path) as f:
            self.tag = json.load(f)

    def out(self, x, tag):
        x = np.asarray(x, dtype=float)
        return np.tanh(x.reshape(len(x), -1) @ self.a) * (1 + tag) + 100 * tag

    def predict(self, x, *a, **k):
        return self.out(x, self.tag)

    def __call__(self, x, *a, **k):
        return self.predict(x)

    predict_on_batch = predict

    def summary(self):
        pass

    compile = summary


def vectors(n, cplx):
    v = [-3.0, 0.0, 0.25, 2.0]
    if not cplx:
        return itertools.product(v, repeat=n)
    return itertools.product([complex(a, b) for a in v[:3] for b in (-1.5, 0.0, 4.0)], repeat=n)


def scaling(rep, nn, data, norm, cplx, at):
    d0 = data.copy()
    vec = nn.scaler(data)
    v0 = np.array(vec)
    s = nn.scale_data(data, vec=vec)
    s0 = np.array(s)
    back = nn.descale_data(s, vec)
    if not np.array_equal(data, d0) or not np.array_equal(vec, v0) or not np.array_equal(s, s0):
        rep.bad('argument', at + 'an argument was changed')
    if np.shape(vec) != (data.shape[0],) or np.shape(s) != data.shape or np.shape(back) != data.shape:
        rep.bad('shape', at + 'shapes %r %r %r' % (np.shape(vec), np.shape(s), np.shape(back)))
        return
    if not np.allclose(back, data, rtol=1e-12, atol=1e-14 * min(1, np.abs(data).min()), equal_nan=False):
        rep.bad('inverse', at + 'scaled and descaled to %r' % np.asarray(back).tolist())
    lim = {'localmax': 0.1, 'globalmax': 1.0}.get(norm)
    for part in ('real', 'imag') if cplx else ('real',):
        p, o = getattr(np.asarray(s), part), getattr(data, part)
        if lim is None:
            if not np.array_equal(p, o):
                rep.bad('none', at + 'data was scaled though no normalisation is asked for')
            continue
        if np.abs(p).max() > lim * (1 + 1e-12):
            rep.bad('range', at + '%s part of the scaled data reaches %r instead of %g' % (part, np.abs(p).max(), lim))
        m = np.abs(p).max(axis=1)
        if norm == 'localmax':
            want = np.where(np.abs(o).max(axis=1) > 0, lim, 0)
        else:
            g = np.abs(o).max()
            want = np.abs(o).max(axis=1) / (g if g else 1)
        if not np.allclose(m, want, rtol=1e-12):
            rep.bad('promise', at + '%s part: largest entry per feature %r instead of %r' % (part, m.tolist(), want.tolist()))
    # the same vector applied to other data
    other = data * 3 + 1 + (2j if cplx else 0)
    if not np.allclose(nn.descale_data(nn.scale_data(other, vec=vec), vec), other, rtol=1e-12, atol=1e-14):
        rep.bad('inverse2', at + 'other data is not recovered')


def t_scale(ctx, norm, cplx):
    rep = Rep()
    with quiet():
        nn = NN(data_type='complex' if cplx else 'real', normalization=norm, savedir='.')
        for nf, nt in ((1, 1), (1, 2), (2, 1), (2, 2)) + (() if cplx else ((1, 3), (2, 3))):
            for v in vectors(nf * nt, cplx):
                data = np.array(v).reshape(nf, nt)
                rep.case('scale/%s/%r' % (norm, v), data=repr(v), norm=norm)
                scaling(rep, nn, data, norm, cplx, '%s of %r: ' % (norm, data.tolist()))
            if rep.viol:
                return rep
    return rep


def t_scale_large(ctx):
    rep = Rep()
    with quiet():
        for norm in NORMS + ['LocalMax', None]:
            for cplx in (0, 1):
                for nf, nt in ((1, 17), (3, 11), (8, 4), (5, 1)):
                    for order in 'CF':
                        kw = {} if norm is None else {'normalization': norm}
                        nn = NN(data_type='complex' if cplx else 'real', savedir='.', **kw)
                        r = gen.rng('c29', ctx.seed, nf, nt, cplx)
                        data = r.standard_normal((nf, nt)) * 10.0 ** r.integers(-18, 12, (nf, 1))
                        if cplx:
                            data = data + 1j * r.standard_normal((nf, nt)) * 10.0 ** r.integers(-18, 12, (nf, 1))
                        data = np.asarray(data, order=order)
                        rep.case('large/%r/%d/%d/%d/%s' % (norm, cplx, nf, nt, order))
                        scaling(rep, nn, data, (norm or 'localmax').lower(), cplx, '%s, %s: ' % (norm, data.shape))
    return rep


TYPES = ['i1', 'u1', 'i2', 'i4', 'i8', 'u8', 'f4', 'f8', '>f8', '>i2', '>f4', 'c8', '>c16', 'g']


def t_types(ctx):
    '''the same numbers in any element type are scaled as doubles are'''
    rep = Rep()
    r = gen.rng('c29t', ctx.seed)
    with quiet():
        for ty in TYPES:
            kind = np.dtype(ty).kind
            for norm in NORMS:
                for nf, nt in ((1, 4), (3, 5), (2, 1)):
                    hi = 250 if ty == 'u1' else 120
                    a = r.integers(0 if kind == 'u' else -120, hi, (nf, nt)).astype(float)
                    if kind == 'c':
                        a = a + 1j * r.integers(-120, hi, (nf, nt))
                    a[0, 0] = hi
                    x = a.astype(ty)
                    nn = NN(data_type='complex' if kind == 'c' else 'real', normalization=norm, savedir='.')
                    rep.case('type/%s/%s/%d/%d' % (ty, norm, nf, nt), type=ty, norm=norm, shape=(nf, nt))
                    at = '%s data of shape %r, %s: ' % (ty, (nf, nt), norm)
                    v, w = np.asarray(nn.scaler(x)), np.asarray(nn.scaler(a))
                    s, u = np.asarray(nn.scale_data(x, vec=w)), np.asarray(nn.scale_data(a, vec=w))
                    b, c = np.asarray(nn.descale_data(s, w)), np.asarray(nn.descale_data(x, w))
                    for n, p, q in (('scaling vector', v, w), ('scaled data', s, u), ('data scaled and descaled', b, a),
                                    ('descaled data', c, np.asarray(nn.descale_data(a, w)))):
                        if p.shape != q.shape or not np.allclose(p, q, rtol=1e-5, atol=1e-6):
                            rep.bad('types', at + '%s %r instead of %r' % (n, p.tolist(), q.tolist()))
                            return rep
    return rep


def mk(nf, nt, i, o, d, cplx=False):
    nn = NN(network='cnn', data_type='complex' if cplx else 'real', n_seq_in=i, n_seq_out=o, savedir=d, epochs=1)
    nn.model_initialize(np.zeros((nf, nt)))
    nn.model = Stub(i, nf, o)
    return nn


def sequences(rep, at, data, i, o, fh, x, y):
    '''x, y are the windows of data in order, at most the last one missing'''
    nf, nt = data.shape
    full = nt - i - o - fh + 2
    x, y = np.asarray(x), np.asarray(y)
    n = len(x)
    if n != len(y) or not max(full - 1, 0) <= n <= full:
        rep.bad('count', at + '%d inputs and %d targets for %d usable windows' % (n, len(y), full))
        return
    for t in range(n):
        wx = data[:, t:t + i].T
        wy = data[:, t + i - 1 + fh:t + i - 1 + fh + o].T.ravel()
        if x[t].shape != wx.shape or not np.array_equal(x[t], wx):
            rep.bad('window', at + 'input %d is %r instead of %r' % (t, x[t].tolist(), wx.tolist()))
            return
        if y[t].shape != wy.shape or not np.array_equal(y[t], wy):
            rep.bad('target', at + 'target %d is %r instead of %r' % (t, y[t].tolist(), wy.tolist()))
            return


def t_seq(ctx, nf, nt):
    rep = Rep()
    data = gen.rng('seq', ctx.seed, nf, nt).standard_normal((nf, nt))
    with quiet():
        for i, o, fh in itertools.product((1, 2, 3), repeat=3):
            if nt - i - o - fh + 1 < 0:
                continue
            nn = mk(nf, nt, i, o, '.')
            for order in 'CF':
                a = np.asarray(data, order=order)
                rep.case('seq/%d/%d/%d/%d/%d/%s' % (nf, nt, i, o, fh, order), features=nf, nt=nt, n_in=i, n_out=o, horizon=fh)
                x, y = nn.extract_sequences(data=a, fh=fh)
                if not np.array_equal(a, data):
                    rep.bad('argument', 'extract_sequences changed its argument')
                sequences(rep, 'features %d, length %d, input %d, output %d, horizon %d: ' % (nf, nt, i, o, fh), data, i, o, fh, x, y)
            if fh == 1:
                x, y = nn.extract_sequences(data)
                sequences(rep, 'default horizon, input %d, output %d: ' % (i, o), data, i, o, 1, x, y)
    return rep


def expect(stub, data, i, o, tags):
    nf, nt = data.shape
    out = np.zeros((nf, nt), dtype=complex)
    out[:, :i] = data[:, :i]
    for t in range(i, nt, o):
        w = data[:, t - i:t].T[None]
        p = stub.out(w.real, tags[0]).reshape(o, nf)
        if tags[1] is not None:
            p = p + 1j * stub.out(w.imag, tags[1]).reshape(o, nf)
        m = min(o, nt - t)
        out[:, t:t + m] = p[:m].T
    return out


def series(seed, nf, nt, cplx):
    r = gen.rng('inf', seed, nf, nt, cplx)
    a = r.uniform(-1, 1, (nf, nt))
    return a + 1j * r.uniform(-1, 1, (nf, nt)) if cplx else a


def check_train(rep, at, first, data, valid, i, o):
    '''the trainings made since `first` are those of the parts of data'''
    tr = Stub.trainings[first:]
    parts = ['real'] + (['imag'] if np.iscomplexobj(data) and (data.imag != 0).any() else [])
    if len(tr) != len(parts):
        rep.bad('trainings', at + '%d trainings for the parts %r' % (len(tr), parts))
        return [None, None]
    for (x, y, v), p in zip(tr, parts):
        sequences(rep, at + 'training on the %s part: ' % p, getattr(data, p), i, o, 1, x, y)
        if v is not None:
            sequences(rep, at + 'validation on the %s part: ' % p, getattr(valid, p), i, o, 1, v[0], v[1])
    return [first, first + 1 if len(parts) == 2 else None]


def t_inf(ctx, nf, i):
    rep = Rep()
    hi = 9 if ctx.tier == 'quick' else 12
    with quiet(), ctx.tmp() as d:
        for o in (1, 2, 3, 4):
            for cplx in (0, 1):
                nn = mk(nf, hi, i, o, d, cplx)
                tr, va = series(1, nf, hi, cplx), series(2, nf, hi + 1, cplx)
                first = len(Stub.trainings)
                nn.model_train(data_train=tr, data_valid=va)
                tags = check_train(rep, 'features %d, input %d, output %d: ' % (nf, i, o), first, tr, va, i, o)
                if rep.viol:
                    return rep
                for nt in range(i, hi + 1):
                    data = series(3, nf, nt, cplx)
                    d0 = data.copy()
                    rep.case('inf/%d/%d/%d/%d/%d' % (nf, i, o, cplx, nt), features=nf, n_in=i, n_out=o, complex=cplx, nt=nt)
                    c = nn.model_inference(data_in=data)
                    at = 'features %d, input %d, output %d, %d steps, %s: ' % (nf, i, o, nt, 'complex' if cplx else 'real')
                    if not np.array_equal(data, d0):
                        rep.bad('argument', at + 'the data was changed')
                    w = expect(nn.model, data, i, o, tags)
                    if np.shape(c) != w.shape:
                        rep.bad('shape', at + 'shape %r' % (np.shape(c),))
                    elif not np.array_equal(c[:, :i], data[:, :i]):
                        rep.bad('initial', at + 'the initial states are not kept')
                    elif not np.allclose(c, w, rtol=1e-6, atol=1e-6):
                        k = int(np.argmax((np.abs(c - w) > 1e-6).any(axis=0)))
                        rep.bad('prediction', at + 'step %d is %r instead of %r' % (k, c[:, k].tolist(), w[:, k].tolist()))
                    if nt == hi and not cplx:     # real numbers stored as complex ones
                        c2 = nn.model_inference(data_in=data.astype(complex))
                        if not np.array_equal(c, c2):
                            rep.bad('complex-real', at + 'other result for the same data stored as complex numbers')
                if rep.viol:
                    return rep
    return rep


def t_single(ctx, nt):
    '''series with a single number that is not real, at every place'''
    rep = Rep()
    nf = 2
    with quiet(), ctx.tmp() as d:
        for i, o in itertools.product((1, 2, 3), (1, 2)):
            if nt - i - o < 0:
                continue
            nn = mk(nf, nt, i, o, d, True)
            full = series(7, nf, nt, 1)
            for f, t in itertools.product(range(nf), range(nt)):
                data = full.real.astype(complex)
                data[f, t] = full[f, t]
                at = 'input %d, output %d, %d steps, only entry %d at step %d is not real: ' % (i, o, nt, f, t)
                rep.case('single/%d/%d/%d/%d/%d' % (i, o, nt, f, t), n_in=i, n_out=o, nt=nt, entry=f, step=t)
                first = len(Stub.trainings)
                nn.model_train(data_train=data, data_valid=full)
                tags = check_train(rep, at, first, data, full, i, o)
                if rep.viol:
                    return rep
                c, w = nn.model_inference(data_in=data), expect(nn.model, data, i, o, tags)
                if np.shape(c) != w.shape or not np.allclose(c, w, rtol=1e-6, atol=1e-6):
                    rep.bad('single', at + 'the result is not the one of the network')
                    return rep
    return rep


def t_hist(ctx, part):
    '''every history of trainings (mode 0/1, real/complex) and inferences (mode 0/1), two objects on the same folder'''
    rep = Rep()
    ops = [('train', 0, 0), ('train', 1, 0), ('train', 0, 1), ('train', 1, 1), ('infer', 0, 0), ('infer', 1, 0), ('infer', 11, 0)]
    i, o, nf, nt = 2, 2, 2, 7
    depth = 4 if ctx.tier == 'quick' else 5
    dat = {(k, c): series(10 * k + c, nf, nt, c) for k in (0, 1, 11) for c in (0, 1)}
    with quiet():
        for n, h in enumerate(itertools.product(range(len(ops)), repeat=depth - 1)):
            if n % 4 != part:
                continue
            with ctx.tmp() as d:
                nn = mk(nf, nt, i, o, d, True)
                state = {}
                rep.case('hist/%r' % (h,), history=[ops[k] for k in h])
                rep.traces += 1
                for k in list(h) + [4, 5]:
                    op, idx, c = ops[k]
                    at = 'history %r, %s of mode %d: ' % ([ops[j] for j in h], op, idx)
                    rep.transitions += 1
                    if op == 'train':
                        first = len(Stub.trainings)
                        nn.model_train(data_train=dat[idx, c], data_valid=dat[idx, c], idx=idx)
                        tags = check_train(rep, at, first, dat[idx, c], dat[idx, c], i, o)
                        state[idx] = (tags, c)
                    elif idx not in state:
                        try:
                            nn.model_inference(data_in=dat[idx, 0], idx=idx)
                            rep.bad('untrained', at + 'a result without a training of that mode')
                        except Exception:
                            pass
                    else:
                        tags, c = state[idx]
                        w = expect(nn.model, dat[idx, c], i, o, tags)
                        r = nn.model_inference(data_in=dat[idx, c], idx=idx)
                        if np.shape(r) != w.shape or not np.allclose(r, w, rtol=1e-6, atol=1e-6):
                            rep.bad('history', at + 'the result is not that of the last training of the mode')
                    if rep.viol:
                        return rep
    return rep


def t_real(ctx, cplx):
    '''the real network: the weights on disk, applied window by window, give the result'''
    rep = Rep()
    i, o, nf, nt = 2, 2, 2, 9
    with quiet(), ctx.tmp() as d:
        nn = NN(network='lstm', data_type='complex' if cplx else 'real', n_seq_in=i, n_seq_out=o, n_neurons=2, epochs=1,
                batch_size=4, savedir=d)
        tr = series(5, nf, nt, cplx)
        nn.model_initialize(data=tr)
        nn.model_train(data_train=tr, data_valid=tr, idx=3)
        data = series(6, nf, 8, cplx)
        c = nn.model_inference(data_in=data, idx=3)
        w = np.zeros((nf, 8), dtype=complex)
        w[:, :i] = data[:, :i]
        for part, f in (('real', 1), ('imag', 1j))[:1 + cplx]:
            nn.model.load_weights(os.path.join(d, '%s3.weights.h5' % part))
            for t in range(i, 8, o):
                p = np.asarray(nn.model.predict(getattr(data, part)[:, t - i:t].T[None], verbose=0)).reshape(o, nf)
                w[:, t:t + o] += f * p[:8 - t].T
        rep.case('real/%d' % cplx)
        rep.traces += 1
        if not np.allclose(c, w, rtol=1e-5, atol=1e-6):
            rep.bad('real', 'inference with the real network differs from the network applied window by window')
        if not len(nn.train_history.history['loss']):
            rep.bad('history-loss', 'no training history')
    return rep
