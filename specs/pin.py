"""Reference definitions for the probability of informed trading (docs/source/measures/probability_of_informed_trading.rst).
Parsed, never run."""
import numpy as np
from math import exp, log


def negloglik(alpha, delta, eB, eS, mu, B, S):
    """mixture of the three Poisson pairs, without the factorials that carry no parameter"""
    n = B.shape[0]
    s = 0.0
    for k in range(n):
        good = exp(-(mu + eB)) * (mu + eB) ** B[k] * exp(-eS) * eS ** S[k]
        bad = exp(-eB) * eB ** B[k] * exp(-(mu + eS)) * (mu + eS) ** S[k]
        none = exp(-eB) * eB ** B[k] * exp(-eS) * eS ** S[k]
        s = s + log(alpha * (1 - delta) * good + alpha * delta * bad + (1 - alpha) * none)
    return -s


def pin(alpha, eB, eS, mu):
    return alpha * mu / (alpha * mu + eB + eS)


def start(alpha, delta, gamma, B, S):
    n = B.shape[0]
    b = 0.0
    s = 0.0
    for k in range(n):
        b = b + B[k] / n
        s = s + S[k] / n
    eB = gamma * b
    mu = (b - eB) / (alpha * (1 - delta))
    return (alpha, delta, eB, s - alpha * delta * mu, mu)


def estimate(B, S, minimize):
    """(found, alpha, delta, eB, eS, mu, log-likelihood, PIN) of the best converged run over the grid"""
    n = B.shape[0]
    b = 0.0
    s = 0.0
    for k in range(n):
        b = b + B[k] / n
        s = s + S[k] / n
    grid = [0.1, 0.3, 0.5, 0.7, 0.9]
    found = False
    alpha, delta, eB, eS, mu, ll, p = np.nan, np.nan, np.nan, np.nan, np.nan, np.nan, np.nan
    for a0 in grid:
        for d0 in grid:
            for g in grid:
                m0 = (b - g * b) / (a0 * (1 - d0))
                s0 = s - a0 * d0 * m0
                if s0 >= 0:
                    ok, x, f = minimize(a0, d0, g * b, s0, m0)
                    if ok and (not found or -f > ll):
                        found = True
                        alpha, delta, eB, eS, mu = x
                        ll = -f
                        p = pin(alpha, eB, eS, mu)
    return (found, alpha, delta, eB, eS, mu, ll, p)
