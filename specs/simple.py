"""Reference definitions of the closed-form measures (docs/source/measures/*.rst). Parsed, never run."""
import numpy as np
from math import exp, log, sqrt
from scipy.stats import norm


def call(S, K, r, T, sigma, q):
    d1 = (log(S / K) + (r - q + sigma * sigma / 2) * T) / (sigma * sqrt(T))
    d2 = d1 - sigma * sqrt(T)
    return S * exp(-q * T) * norm.cdf(d1) - K * exp(-r * T) * norm.cdf(d2)


def put(S, K, r, T, sigma, q):
    d1 = (log(S / K) + (r - q + sigma * sigma / 2) * T) / (sigma * sqrt(T))
    d2 = d1 - sigma * sqrt(T)
    return K * exp(-r * T) * norm.cdf(-d2) - S * exp(-q * T) * norm.cdf(-d1)


def forward_difference(S, K, r, T, sigma, q):
    return S * exp(-q * T) - K * exp(-r * T)


def cca_residual(x0, x1, equity, vol, r, barrier, T):
    """equity value and equity volatility implied by asset value x0^2 and asset volatility x1^2"""
    V = x0 * x0
    s = x1 * x1
    d1 = (log(V / barrier) + (r + s * s / 2) * T) / (s * sqrt(T))
    d2 = d1 - s * sqrt(T)
    return (equity - V * norm.cdf(d1) + barrier * exp(-r * T) * norm.cdf(d2),
            equity * vol - V * s * norm.cdf(d1))


def cca(x0, x1, r, barrier, T, cds):
    V = x0 * x0
    s = x1 * x1
    p = put(V, barrier, r, T, s, 0)
    debt = barrier * exp(-r * T) - p
    cds_put = (1 - exp(-(cds / 10000) * (barrier / debt - 1) * T)) * barrier * exp(-r * T)
    return (p, p - cds_put)


def kyle(y, x):
    n = y.shape[0]
    xy = 0.0
    xx = 0.0
    for k in range(n):
        xy = xy + x[k] * y[k]
        xx = xx + x[k] * x[k]
    return xy / xx * 1000000


def zscore(roa, cap, past):
    n = past.shape[0]
    m = 0.0
    for k in range(n):
        m = m + past[k]
    m = m / n
    v = 0.0
    for k in range(n):
        v = v + (past[k] - m) * (past[k] - m)
    return (roa + cap) / sqrt(v / n)


def mes(firm, market, q):
    n = firm.shape[0]
    thr = np.quantile(market, q)
    s = 0.0
    c = 0
    for k in range(n):
        if market[k] < thr:
            s = s + firm[k]
            c = c + 1
    return s / c


def ses(mes_, lvg, y, mes_firm, lvg_firm):
    """least squares with intercept = regression of the demeaned variables"""
    n = y.shape[0]
    m1 = 0.0
    m2 = 0.0
    my = 0.0
    for k in range(n):
        m1 = m1 + mes_[k] / n
        m2 = m2 + lvg[k] / n
        my = my + y[k] / n
    s11 = 0.0
    s12 = 0.0
    s22 = 0.0
    s1y = 0.0
    s2y = 0.0
    for k in range(n):
        s11 = s11 + (mes_[k] - m1) * (mes_[k] - m1)
        s12 = s12 + (mes_[k] - m1) * (lvg[k] - m2)
        s22 = s22 + (lvg[k] - m2) * (lvg[k] - m2)
        s1y = s1y + (mes_[k] - m1) * (y[k] - my)
        s2y = s2y + (lvg[k] - m2) * (y[k] - my)
    b = s1y * s22 - s2y * s12
    c = s2y * s11 - s1y * s12
    return (b * mes_firm + c * lvg_firm) / (b + c)


def absorption(returns, fraction):
    n, days = returns.shape
    cov = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            mi = 0.0
            mj = 0.0
            for k in range(days):
                mi = mi + returns[i, k] / days
                mj = mj + returns[j, k] / days
            s = 0.0
            for k in range(days):
                s = s + (returns[i, k] - mi) * (returns[j, k] - mj)
            cov[i, j] = s / (days - 1)
    ev = np.linalg.eigvalsh(cov)
    top = np.floor(fraction * n + 0.5)
    a = 0.0
    b = 0.0
    for i in range(n):
        b = b + cov[i, i]
        if i >= n - top:
            a = a + ev[i]
    return a / b
