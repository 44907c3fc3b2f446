"""Reference definitions: documented GARCH(1,1) / GJR-GARCH(1,1) formulas.
docs/source/algorithms/garch.rst, gjr-garch.rst.  Parsed by the analyser, never run."""
import numpy as np


def bounds(s, lo, hi):
    s = max(lo, s)
    if s > hi:
        if np.isinf(s):
            s = hi + 1000
        else:
            s = hi + np.log(s / hi)
    return s


def garch(omega, alpha, beta, r, backcast, vb):
    n = r.shape[0]
    v = np.zeros(n)
    v[0] = omega + (alpha + beta) * backcast
    for k in range(1, n):
        v[k] = bounds(omega + alpha * r[k - 1] * r[k - 1] + beta * v[k - 1], vb[k, 0], vb[k, 1])
    return v


def gjr(omega, alpha, gamma, beta, r, backcast, vb):
    n = r.shape[0]
    v = np.zeros(n)
    v[0] = omega + (alpha + gamma / 2 + beta) * backcast
    for k in range(1, n):
        e = r[k - 1] * r[k - 1]
        lev = gamma if r[k - 1] < 0 else 0
        v[k] = bounds(omega + (alpha + lev) * e + beta * v[k - 1], vb[k, 0], vb[k, 1])
    return v


def gjr_forecast(omega, alpha, gamma, beta, r, v0):
    n = r.shape[0]
    v = np.zeros(n)
    v[0] = v0
    for k in range(1, n):
        e = r[k - 1] * r[k - 1]
        lev = gamma if r[k - 1] < 0 else 0
        v[k] = omega + (alpha + lev) * e + beta * v[k - 1]
    return v[1:]


def ewma(r, v0, lam):
    n = r.shape[0]
    v = np.zeros(n)
    v[0] = v0
    for k in range(1, n):
        v[k] = lam * v[k - 1] + (1 - lam) * r[k - 1] * r[k - 1]
    return v


def backcast(r):
    n = min(75, r.shape[0])
    num = 0.0
    den = 0.0
    for k in range(n):
        num = num + 0.94 ** k * r[k] * r[k]
        den = den + 0.94 ** k
    return num / den


def variance_bounds(r):
    n = r.shape[0]
    e = ewma(r, backcast(r), 0.94)
    lo = np.mean((r - np.mean(r)) ** 2) / 100000000
    hi = 10000000 * (1 + np.max(r * r))
    out = np.zeros((n, 2))
    for k in range(n):
        c = min(max(e[k], lo), hi)
        out[k, 0] = c / 1000000
        out[k, 1] = c * 1000000
    return out


def loglik(r, v):
    return np.sum(-0.5 * np.log(2 * np.pi) - 0.5 * np.log(v) - 0.5 * r * r / v)


def loglik2(r1, v1, r2, v2, rho):
    z1 = r1 / np.sqrt(v1)
    z2 = r2 / np.sqrt(v2)
    q = 1 - rho * rho
    return np.sum(-np.log(2 * np.pi) - 0.5 * np.log(v1) - 0.5 * np.log(v2) - 0.5 * np.log(q)
                  - (z1 * z1 + z2 * z2 - 2 * rho * z1 * z2) / (2 * q))


def objective(which, zero_mean, p, y, bc, vb):
    if zero_mean:
        mu = 0.0
        q = p
    else:
        mu = p[0]
        q = p[1:]
    r = y - mu
    if which == "gjr":
        v = gjr(q[0], q[1], q[2], q[3], r, bc, vb)
    else:
        v = garch(q[0], q[1], q[2], r, bc, vb)
    return -loglik(r, v)


def ccc(p, y1, y2):
    r1 = y1 - p[0]
    r2 = y2 - p[4]
    v1 = garch(p[1], p[2], p[3], r1, backcast(r1), variance_bounds(r1))
    v2 = garch(p[5], p[6], p[7], r2, backcast(r2), variance_bounds(r2))
    return -loglik2(r1, v1, r2, v2, p[8])


def corr(x, y):
    mx = np.mean(x)
    my = np.mean(y)
    return np.sum((x - mx) * (y - my)) / np.sqrt(np.sum((x - mx) ** 2) * np.sum((y - my) ** 2))


def dcc_rho(a, b, e1, v1, e2, v2):
    z1 = e1 / np.sqrt(v1)
    z2 = e2 / np.sqrt(v2)
    n = e1.shape[0]
    c = corr(z1, z2)
    q11 = 1.0
    q22 = 1.0
    q12 = c
    rho = np.zeros(n)
    for k in range(n):
        if k > 0:
            q11 = (1 - a - b) + a * z1[k - 1] * z1[k - 1] + b * q11
            q22 = (1 - a - b) + a * z2[k - 1] * z2[k - 1] + b * q22
            q12 = (1 - a - b) * c + a * z1[k - 1] * z2[k - 1] + b * q12
        rho[k] = q12 / np.sqrt(q11 * q22)
    return rho


def dcc_objective(a, b, e1, v1, e2, v2, l1, l2, rho):
    z1 = e1 / np.sqrt(v1)
    z2 = e2 / np.sqrt(v2)
    s = 0.0
    for k in range(e1.shape[0]):
        p = min(max(rho[k], -0.99), 0.99)
        q = 1 - p * p
        s = s - 0.5 * (np.log(q) + (z1[k] * z1[k] + z2[k] * z2[k] - 2 * p * z1[k] * z2[k]) / q - z1[k] * z1[k] - z2[k] * z2[k])
    return -(l1 + l2 + s)


def resid(y, mu):
    return y - mu


def start_resid(y, zero_mean):
    if zero_mean:
        return y - 0.0
    return y - np.sum(y) / y.shape[0]


def mean(y):
    return np.sum(y) / y.shape[0]


def ccc_start(e1, v1, e2, v2):
    return corr(e1 / np.sqrt(v1), e2 / np.sqrt(v2))
