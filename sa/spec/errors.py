"""Reference formulas of the error norms and of the nearest frequency. Interpreted symbolically, never run."""
import numpy as np


def l1(a, b, n):
    return np.sum(np.abs(np.reshape(a, (n,)) - np.reshape(b, (n,)))) / n


def l2(a, b, n):
    return np.sqrt(np.sum(np.abs(np.reshape(a, (n,)) - np.reshape(b, (n,))) ** 2)) / n


def linf(a, b, n):
    return np.max(np.abs(np.reshape(a, (n,)) - np.reshape(b, (n,))))


def l1_rel(a, b, n):
    return np.sum(np.abs(np.reshape(a, (n,)) - np.reshape(b, (n,))) / np.abs(np.reshape(b, (n,)))) / n


def l2_rel(a, b, n):
    return np.sqrt(np.sum((np.abs(np.reshape(a, (n,)) - np.reshape(b, (n,))) / np.abs(np.reshape(b, (n,)))) ** 2)) / n


def linf_rel(a, b, n):
    return np.max(np.abs(np.reshape(a, (n,)) - np.reshape(b, (n,))) / np.abs(np.reshape(b, (n,))))


def h1(a, b, dt, nt):
    s = 0
    for i in range(1, nt):
        s = s + dt * np.sum(np.abs((a[i] - a[i - 1]) / dt - (b[i] - b[i - 1]) / dt) ** 2)
    return np.sqrt(s)


def nearest(req, freq):
    i = np.argmin(np.abs(freq - req))
    return freq[i], i
