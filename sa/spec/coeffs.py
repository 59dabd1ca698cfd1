"""Reference formulas of the expansion coefficients and reconstructions, written from their definition.
They are interpreted symbolically by the same engine as the code, never run."""
import math
import numpy as np


def basis(modes, freqs, n_x, n_modes):
    """columns: frequencies in the given order, within a frequency the modes in stored order"""
    P = np.zeros((n_x, len(freqs) * n_modes), dtype=complex)
    for k, f in enumerate(freqs):
        P[:, k * n_modes:(k + 1) * n_modes] = np.reshape(modes[f], (n_x, n_modes))
    return P


def basis_range(modes, lo, n, n_x, n_modes):
    P = np.zeros((n_x, n * n_modes), dtype=complex)
    for k in range(n):
        P[:, k * n_modes:(k + 1) * n_modes] = np.reshape(modes[lo + k], (n_x, n_modes))
    return P


def basis3_range(modes, lo, n, shape, n_x, n_modes):
    P = np.zeros((n, n_x, n_modes), dtype=complex)
    for k in range(n):
        P[k] = np.reshape(modes[lo + k], (n_x, n_modes))
    return np.reshape(np.moveaxis(P, 0, 1), shape)


def fluctuation(x, nt, n_x):
    x = np.reshape(x, (nt, n_x))
    return x - np.sum(x, axis=0) / nt


def project_pinv(P, w, x, nt, n_x, tol):
    d = fluctuation(x, nt, n_x)
    w = np.reshape(w, (n_x, 1))
    return np.linalg.pinv(P.conj().T @ (w * P), tol) @ (P.conj().T @ (w * d.T))


def project_svd(P, w, x, nt, n_x, tol):
    d = fluctuation(x, nt, n_x)
    w = np.reshape(w, (n_x, 1))
    M = P.conj().T @ (w * P)
    u, s, vh = np.linalg.svd(M)
    inv = np.zeros((len(s), len(s)), dtype=complex)
    for i in range(len(s)):
        if s[i] > tol * np.max(s):
            inv[i, i] = 1 / s[i]
    return vh.conj().T @ inv @ u.conj().T @ (P.conj().T @ (w * d.T))


def convolution(modes, lo, n, w, x, nt, n_x, n_dft, n_modes):
    """a[k, i, m] = c_i sum_x conj(phi_k[x, m]) w[x] FFT_k(window * (n_dft snapshots centred on i, zero outside the record))[x]"""
    window = 0.54 - 0.46 * np.cos(2 * np.pi * np.arange(0, n_dft) / (n_dft - 1))
    win = np.reshape(window, (n_dft, 1))
    d = fluctuation(x, nt, n_x)
    half = int(np.ceil(n_dft / 2))
    pad = np.zeros((half, n_x))
    d = np.concatenate((pad, d, pad), axis=0)
    P = np.zeros((n, n_x, n_modes), dtype=complex)
    for k in range(n):
        P[k] = np.reshape(modes[lo + k], (n_x, n_modes))
    a = np.zeros((n, nt, n_modes), dtype=complex)
    total = n_dft / (n_dft / np.sum(window))
    for i in range(nt):
        Q = np.fft.fft(d[i:i + n_dft] * win, axis=0)[lo:lo + n]
        if i < half - 2:
            c = np.sqrt(total / np.sum(win[half - i - 1:n_dft]))
        elif i >= nt - half:
            c = np.sqrt(total / np.sum(win[0:nt + half - i - 1]))
        else:
            c = 1
        a[:, i, :] = c * np.einsum('kx,kxm->km', np.reshape(w, (n_x,)) * Q, P.conj())
    return a


def reconstruct(modes_r, coeffs, ltm, times):
    return np.moveaxis(modes_r @ coeffs[:, times] + ltm[..., None], -1, 0)


def reconstruct_conv(modes_r, coeffs, ltm, times, sp, n, n_modes, nt):
    """modes_r[..., frequency, mode], coeffs[frequency, time, mode]"""
    P = np.reshape(modes_r, sp + (n * n_modes,))
    a = np.reshape(np.transpose(coeffs, (0, 2, 1)), (n * n_modes, nt))
    return np.moveaxis(P @ a[:, times] + ltm[..., None], -1, 0)


def every(n, step):
    return np.arange(0, n, step)


def default_times(n):
    return [0, n % 2, n - 1]


def pod_project(modes, w, x, nt, n_x, n_modes):
    d = fluctuation(x, nt, n_x)
    return np.reshape(modes, (n_x, n_modes)).T @ (np.reshape(w, (n_x, 1)) * d.T)


def nearest(freq, f):
    return np.argmin(np.abs(freq - f))


def uniform(dims):
    return np.ones(dims)


def weights_by_variance(w, x, xd, nv):
    w = np.array(w)
    for i in range(0, nv):
        w[..., i] = w[..., i] / np.var(x[..., i])
    return w
