"""Reference formulas of the SPOD algorithm, written from its definition (Towne, Schmidt & Colonius 2018; Welch's method).
They are interpreted symbolically by the same engine as the code, never run."""
import math
import numpy as np
import scipy.special as sc


def overlap(n_dft, percent):
    return math.ceil(n_dft * percent / 100)


def n_blocks(nt, n_dft, ovl):
    return int(np.floor((nt - ovl) / (n_dft - ovl)))


def window(n):
    return 0.54 - 0.46 * np.cos(2 * np.pi * np.arange(0, n) / (n - 1))


def offset(i, nt, n_dft, ovl):
    return min(i * (n_dft - ovl) + n_dft, nt) - n_dft


def block(x, start, n_dft):
    b = x[start:start + n_dft]
    return np.reshape(b, (n_dft, b[0].size))


def center_none(b):
    return b


def center_block(b):
    return b - np.mean(b, axis=0)


def normalised(b, n_dft):
    var = np.sum((b - np.mean(b, axis=0)) ** 2, axis=0) / (n_dft - 1)
    var[var < 4 * np.finfo(float).eps] = 1
    return b / var


def one_sided(b, w, n_dft):
    return np.fft.rfft(b * np.reshape(w, (n_dft, 1)), axis=0) / n_dft / np.mean(w)


def two_sided(b, w, n_dft):
    return np.fft.fft(b * np.reshape(w, (n_dft, 1)), axis=0) / n_dft / np.mean(w)


def freq_real(n_dft, dt):
    return np.arange(0, n_dft // 2 + 1) / (n_dft * dt)


def freq_full(n_dft, dt):
    return np.arange(0, n_dft) / (n_dft * dt)


def freq_split(n_dft, dt, first_negative):
    f = np.arange(0, n_dft) / (n_dft * dt)
    f[first_negative:] = f[first_negative:] - 1 / dt
    return f


def qhat(x, mean, w, i, f, nt, n_dft, ovl, onesided):
    b = block(x, offset(i, nt, n_dft, ovl), n_dft) - mean
    if onesided:
        return one_sided(b, w, n_dft)[f]
    return two_sided(b, w, n_dft)[f]


def longtime_mean(x, nt):
    return np.reshape(np.sum(x[0:nt], axis=0) / nt, -1)


def csd_eig(q, wgt, nf, nb, n_x):
    """sorted eigenvalues and eigenvectors of Q^H W Q / nb for each frequency; q(b, f) gives the block spectra"""
    m = [None] * nf
    for f in range(nf):
        Q = np.zeros((n_x, nb), dtype=complex)
        for b in range(nb):
            Q[:, b] = q[b, f]
        m[f] = Q.conj().T @ (Q * np.reshape(wgt, (n_x, 1))) / nb
    m = np.stack(m)
    L, V = np.linalg.eig(m)
    return np.real_if_close(L, tol=1000000), V


def ordered(L, V, nf):
    """decreasing eigenvalues, eigenvectors permuted alike"""
    for f in range(nf):
        idx = np.argsort(L[f])[::-1]
        L[f, :] = L[f, idx]
        V[f] = V[f][:, idx]
    return L, V


def csd_eigs(q, wgt, nf, nb, n_x):
    L, V = csd_eig(q, wgt, nf, nb, n_x)
    L, V = ordered(L, V, nf)
    return L


def csd_modes(q, wgt, nf, nb, n_x, f, n_save):
    """Q psi / sqrt(nb lambda), leading n_save modes"""
    L, V = csd_eig(q, wgt, nf, nb, n_x)
    L, V = ordered(L, V, nf)
    Q = np.zeros((n_x, nb), dtype=complex)
    for b in range(nb):
        Q[:, b] = q[b, f]
    phi = Q @ (V[f] / (np.sqrt(nb) * np.sqrt(L[f])))
    return phi[:, 0:n_save]


def doubled(L, lo, hi):
    """one-sided spectrum: bins lo..hi-1 (neither zero nor Nyquist) carry the energy of their negative twins"""
    L = np.array(L)
    L[lo:hi, :] = 2 * L[lo:hi, :]
    return np.abs(L)


def bound(eigs, nb, q):
    """chi-square bound with 2 nb degrees of freedom at quantile q"""
    return eigs * (2 * nb / (2 * sc.gammaincinv(nb, q)))


def concat2(a, b, n1, n2, shape):
    """two consecutive records as one"""
    x = np.zeros((n1 + n2,) + shape)
    x[:n1] = a
    x[n1:] = b
    return x


def concat3(a, b, c, n1, n2, n3, shape):
    x = np.zeros((n1 + n2 + n3,) + shape)
    x[:n1] = a
    x[n1:n1 + n2] = b
    x[n1 + n2:] = c
    return x


def modes_of(Q, wgt, nf, nb, f, n_save):
    """modes of frequency f from the block spectra Q[f] (values, blocks)"""
    m = [None] * nf
    for g in range(nf):
        m[g] = Q[g].conj().T @ (Q[g] * wgt) / nb
    L, V = np.linalg.eig(np.stack(m))
    L = np.real_if_close(L, tol=1000000)
    L, V = ordered(L, V, nf)
    phi = Q[f] @ (V[f] / (np.sqrt(nb) * np.sqrt(L[f])))
    return phi[:, 0:n_save]
