"""Independent numpy SPOD, and helpers to run the library in a scratch directory."""
import glob
import math
import os
import sys
import numpy as np


def window(n):
    return 0.54 - 0.46 * np.cos(2 * np.pi * np.arange(n) / (n - 1))


def starts(nt, n_dft, overlap):
    ov = math.ceil(n_dft * overlap / 100)
    nb = (nt - ov) // (n_dft - ov)
    return ov, nb, [i * (n_dft - ov) for i in range(nb)]


def spod(x, weights, n_dft, overlap, dt, full=False, mean='longtime', normalize=False):
    """x: (nt, space..., nv) -> freq, eigenvalues (f, b), modes (f: space*nv, b)"""
    nt = x.shape[0]
    real = np.isrealobj(x)
    y = x.reshape(nt, -1)
    w = np.reshape(weights, (-1, 1))
    ov, nb, st = starts(nt, n_dft, overlap)
    win = window(n_dft)
    m = y.mean(0) if mean == 'longtime' else 0
    q = []
    for s in st:
        b = y[s:s + n_dft] - m
        if mean == 'blockwise':
            b = b - b.mean(0)
        if normalize:
            b = b / b.var(0, ddof=1)
        b = b * win[:, None]
        q.append((np.fft.rfft(b, axis=0) if real and not full else np.fft.fft(b, axis=0)) / n_dft / win.mean())
    q = np.array(q)
    nf = q.shape[1]
    lam = np.zeros((nf, nb))
    modes = []
    for f in range(nf):
        Q = q[:, f].T
        l, v = np.linalg.eigh(Q.conj().T @ (Q * w) / nb)
        o = np.argsort(l)[::-1]
        lam[f] = np.abs(l[o])
        modes.append(Q @ v[:, o] / np.sqrt(nb * np.abs(l[o])))
    if real and not full:
        hi = nf - 1 if n_dft % 2 == 0 else nf
        lam[1:hi] *= 2
        freq = np.arange(nf) / n_dft / dt
    elif full:
        freq = np.arange(nf) / n_dft / dt
    else:
        freq = np.fft.fftfreq(n_dft, dt)
    return freq, lam, modes


def params(**kw):
    p = dict(time_step=0.5, n_space_dims=2, n_variables=1, n_dft=16, overlap=50, n_modes_save=3, mean_type='longtime',
             conf_level=0.95, savedir='out')
    p.update(kw)
    return p


def fit(x, cls='standard', weights=None, comm=None, **kw):
    import importlib
    m = importlib.import_module('pyspod.spod.' + cls)
    p = params(**kw)
    a = {}
    if weights is not None:
        a['weights'] = {'weights': weights, 'weights_name': 'w'}
    if comm is not None:
        a['comm'] = comm
    return getattr(m, cls.capitalize())(params=p, **a).fit(data_list=x if isinstance(x, list) else [x])


def field(nt=100, shape=(6, 5), nv=1, seed=0, cplx=False):
    r = np.random.default_rng(seed)
    s = (nt,) + shape + ((nv,) if nv > 1 else ())
    x = r.standard_normal(s) + 3
    if cplx:
        x = x + 1j * r.standard_normal(s)
    return x


def check(ok, what):
    if not ok:
        print('FAIL:', what)
        sys.stdout.flush()
        os._exit(1)


def close(a, b, what, tol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape, f'{what}: shape {a.shape} instead of {b.shape}')
    e = np.max(np.abs(a - b)) / max(1e-300, np.max(np.abs(b)))
    check(e < tol, f'{what}: relative difference {e:.3e}')
