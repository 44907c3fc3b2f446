"""Reference definition of the distress insurance premium (docs/source/measures/distress_insurance_premium.rst,
Huang, Zhou and Zhu 2009). Parsed, never run."""
import numpy as np
from numpy.random import RandomState
from scipy.stats import norm


def premium(p, corr, threshold, seed, n_ret, n_sim):
    n = p.shape[0]
    rng = RandomState(seed)
    e = rng.normal(0, 1, size=(n_ret, n))
    L = np.linalg.cholesky(corr)
    # joint[k]: share of the simulated return vectors in which exactly k banks default
    joint = np.zeros(n + 1)
    for r in range(n_ret):
        d = 0
        for b in range(n):
            z = 0.0
            for c in range(n):
                z = z + e[r, c] * L[b, c]
            if z < norm.ppf(p[b]):
                d = d + 1
        joint[d] += 1 / n_ret
    # total loss when i + 1 banks default: the sum of i + 1 triangular losses, slot k holding losses in (k-1, k] hundredths
    prob = np.zeros(100 * n + 1)
    for i in range(n):
        lgd = np.zeros(n_sim)
        tri = rng.triangular(0.1, 0.55, 1, size=(i + 1, n_sim))
        for j in range(n_sim):
            loss = 0.0
            for b in range(i + 1):
                loss = loss + tri[b, j]
            prob[np.ceil(100 * loss)] += joint[i + 1] / n_sim
    total = 0.0
    for k in range(100 * n + 1):
        if k >= np.floor(100 * threshold) * n:
            total = total + prob[k] * k / 100
    return total
