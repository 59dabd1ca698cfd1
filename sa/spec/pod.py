"""Reference formulas of proper orthogonal decomposition (method of snapshots). Interpreted symbolically, never run."""
import numpy as np
import scipy.linalg


def fluctuation(x, nt, n_x):
    x = np.reshape(x, (nt, n_x))
    return (x - np.sum(x, axis=0) / nt).T


def correlation(x, w, nt, n_x):
    d = fluctuation(x, nt, n_x)
    return d.conj().T @ (np.reshape(w, (n_x, 1)) * d)


def by_general(q):
    lam, v = scipy.linalg.eig(q)
    o = np.argsort(np.real(lam))[::-1]
    return lam[o], v[:, o]


def by_general_neg(q):
    lam, v = scipy.linalg.eig(q)
    o = np.argsort(-np.real(lam))
    return lam[o], v[:, o]


def by_hermitian(q):
    lam, v = scipy.linalg.eigh(q)
    return lam[::-1], v[:, ::-1]


def by_hermitian_sorted(q):
    lam, v = scipy.linalg.eigh(q)
    o = np.argsort(np.real(lam))[::-1]
    return lam[o], v[:, o]


def modes(x, w, nt, n_x, lam, v, n, shape):
    d = fluctuation(x, nt, n_x)
    return np.reshape((np.real(d @ v) / np.sqrt(lam))[:, 0:n], shape)


def coeffs(p, w, x, nt, n_x, n):
    d = fluctuation(x, nt, n_x)
    return np.transpose(np.reshape(p, (n_x, n))) @ (np.reshape(w, (n_x, 1)) * d)


def count(nt, n):
    return min(nt, n)
