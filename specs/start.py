"""Reference definitions: grid searches for starting values.  Parsed by the analyser, never run."""
import numpy as np


def pick(cands, lls):
    """the first candidate with the highest log-likelihood"""
    best = cands[0]
    top = lls[0]
    k = 1
    for ll in lls[1:]:
        if ll > top:
            top = ll
            best = cands[k]
        k = k + 1
    return best


def garch_candidates(y):
    var = np.sum((y - np.sum(y) / y.shape[0]) ** 2) / y.shape[0]
    out = []
    for alpha in (0.01, 0.05, 0.1, 0.2):
        for p in (0.5, 0.7, 0.9, 0.98):
            out.append([var * (1 - p), alpha, p - alpha])
    return out


def gjr_candidates(y):
    var = np.sum((y - np.sum(y) / y.shape[0]) ** 2) / y.shape[0]
    out = []
    for alpha in (0.01, 0.05, 0.1, 0.2):
        for gamma in (0.01, 0.05, 0.1, 0.2):
            for p in (0.5, 0.7, 0.9, 0.98):
                out.append([var * (1 - p), alpha, gamma, p - alpha - gamma / 2])
    return out


def dcc_candidates():
    out = []
    for i in range(10):
        for j in range(10):
            a = 0.01 + i * 0.49 / 9
            b = 0.6 + j * 0.35 / 9
            if a + b < 1:
                out.append([a, b])
    return out
