"""Reference definitions of the modified Merton building blocks (matlab/*.m of Nagel and Purnanandam). Parsed, never run."""
import numpy as np
from math import exp, log, sqrt
from scipy.stats import norm


def payoff(F, f, ival, rho, sig, T):
    """payoff of a loan portfolio whose borrowers have log asset value f + ival on average and idiosyncratic dispersion s"""
    s = sig * sqrt(T * (1 - rho))
    a = (np.log(F) - f - ival) / s
    return np.exp(f + ival + s * s / 2) * norm.cdf(a - s) + F * norm.cdf(-a)


def bs(S, K, r, T, sigma, q):
    d1 = (log(S / K) + (r - q + sigma * sigma / 2) * T) / (sigma * sqrt(T))
    d2 = d1 - sigma * sqrt(T)
    c = S * exp(-q * T) * norm.cdf(d1) - K * exp(-r * T) * norm.cdf(d2)
    return (c, c - S * exp(-q * T) + K * exp(-r * T))


def face_value_error(mu, F, ival, sig, T, r, d):
    put = bs(exp(ival), F, r, T, sig, d)[1]
    loan = F * exp(-r * T) - put
    return mu - log(F / loan) / T


def merton(A, sig, E, D, r, d, T, sigE):
    """errors of equity value (cum dividend) and equity volatility, for admissible estimates"""
    cum = bs(A, D, r, T, sig, d)[0] + A * (1 - exp(-d * T))
    d1 = (log(A / D) + (r - d + sig * sig / 2) * T) / (sig * sqrt(T))
    v = (exp(-d * T) * norm.cdf(d1) + 1 - exp(-d * T)) * A / E * sig
    return (E - cum, sigE - v)


def smooth(x, h):
    """centred moving average over 2h observations, continued linearly over the h observations at either end"""
    n = x.shape[0]
    ma = lambda i: sum(x[i + 1 - h + k] for k in range(2 * h)) / (2 * h)
    lo, hi = ma(h), ma(n - h - 1)
    dlo, dhi = ma(h + 1) - lo, hi - ma(n - h - 2)
    return np.array([lo - (h - i) * dlo if i < h else (ma(i) if i < n - h else hi + (i - (n - h) + 1) * dhi) for i in range(n)])


def bank(fs, r, T, bookF, H, face_debt, rho, ltv, sig, d, y, g, N, Nsim, w, smoothing):
    """bank valuation with N staggered loan cohorts; fs is the vector of shock values"""
    dt = T / N
    HN = H * N / T
    G = fs.shape[0]
    sigf = sqrt(rho) * sig
    ival = log(bookF) - log(ltv)
    mu = face_yield(bookF, ival, sig, T, r, d)
    F = bookF * exp(mu * T)
    cum = np.cumsum(w, axis=1)
    W = lambda k: cum[:, k - 1].reshape(Nsim, 1) if k > 0 else np.zeros((Nsim, 1))
    f = lambda k: k * (r - d - sig * sig / 2) * dt + sigf * sqrt(dt) * W(k)
    # factor path without the shocks until t, borrowers growing at the expected rate
    fw = lambda k: -k * rho * sig * sig / 2 * dt + sigf * sqrt(dt) * W(k)
    df = sigf / 10
    size = np.concatenate((fs, fs, fs))
    step = np.concatenate((np.zeros(G), np.full(G, df), np.full(G, -df)))
    LH = 0
    FH = 0
    face = 0
    Ft = 0
    for j in range(N):
        shift = (size * sigf * sqrt(T) * (N - j) / N + step).reshape(1, 3 * G)
        past = fw(N) - fw(j)
        L1 = payoff(F, f(N + j) - past - f(j) + shift, ival, rho, sig, T)
        aH = (HN - j) / N if j <= HN else (N + HN - j) / N
        adj = exp((1 - rho) * T * aH * sig * sig / 2)
        if j >= HN:
            key = np.exp(f(N + HN) - past - f(j) + shift + ival) * adj
            val = L1
            sc = 1
            left = (j - HN) * dt
            promised = F + 0 * L1
        else:
            sc = L1 / bookF
            key = np.exp(f(N + HN) - f(N + j)) * L1 / ltv * adj / sc
            val = payoff(L1 * exp(mu * T), f(2 * N + j) - f(N + j), np.log(L1 / ltv), rho, sig, T) / sc
            left = (j - HN + N) * dt
            promised = L1 * exp(mu * T)
        LH = LH + conditional(key, val, smoothing, Nsim, G) * sc * exp(-r * left) / N
        FH = FH + key / N
        face = face + promised * exp(-r * left) / N
        Ft = Ft + np.exp(f(N) - past - f(j) + shift + ival) * exp((1 - rho) * T * (N - j) / N * sig * sig / 2) / N
    return finish(LH, FH, face, Ft, r, H, face_debt, y, g, G) + (mu, F)


def single(fs, r, T, bookF, H, face_debt, rho, ltv, sig, d, y, g, N, Nsim, w, smoothing):
    """the same with a single borrower cohort issued at t"""
    dt = T / N
    HN = H * N / T
    G = fs.shape[0]
    sigf = sqrt(rho) * sig
    ival = log(bookF) - log(ltv)
    mu = face_yield(bookF, ival, sig, T, r, d)
    F = bookF * exp(mu * T)
    cum = np.cumsum(w, axis=1)
    f = lambda k: k * (r - d - sig * sig / 2) * dt + sigf * sqrt(dt) * cum[:, k - 1].reshape(Nsim, 1)
    df = sigf / 10
    shift = (np.concatenate((fs, fs, fs)) * sigf * sqrt(T) + np.concatenate((np.zeros(G), np.full(G, df), np.full(G, -df)))).reshape(1, 3 * G)
    L1 = payoff(F, f(N) + shift, ival, rho, sig, T)
    key = np.exp(f(HN) + shift + ival) * exp((1 - rho) * H * sig * sig / 2)
    LH = conditional(key, L1, smoothing, Nsim, G) * exp(-r * (T - H))
    face = (F + 0 * L1) * exp(-r * (T - H))
    Ft = np.exp(shift + ival) * np.ones((Nsim, 1))
    return finish(LH, key, face, Ft, r, H, face_debt, y, g, G) + (mu, F)


def conditional(key, val, smoothing, Nsim, G):
    """expected payoff given the aggregate borrower asset value: neighbours in the order of the latter averaged"""
    k = key.ravel(order="F")
    order = np.argsort(np.round(k, 9), kind="stable")
    rank = np.argsort(order)
    sm = smoothing(val.ravel(order="F")[order], int(Nsim * 3 * G / 20))
    return sm[rank].reshape(Nsim, 3 * G, order="F")


def finish(LH, FH, face, Ft, r, H, face_debt, y, g, G):
    after = LH * exp(-y * H)
    BH = np.minimum(face_debt, after)
    EH = LH - BH
    default = np.where(after - BH > 0, 0, 1)
    GH = g * np.maximum(face_debt - after, 0)
    value = lambda x: np.mean(x, axis=0) * exp(-r * H)
    Lt, Bt, Et, Gt = value(LH), value(BH), value(EH), value(GH)
    vol = lambda x: 5 * (np.log(x[G:2 * G]) - np.log(x[2 * G:]))
    return (Lt[:G], Bt[:G], Et[:G], LH[:, :G], BH[:, :G], EH[:, :G], vol(Et), np.mean(Ft, axis=0)[:G], default[:, :G],
            np.mean(default, axis=0)[:G], face[:, :G], FH[:, :G], Gt[:G], vol(Lt))


def face_yield(bookF, ival, sig, T, r, d):
    """promised yield: the loan's value equals the cash lent"""
    from scipy.optimize import fsolve
    return fsolve(lambda m: face_value_error(m[0], bookF * exp(m[0] * T), ival, sig, T, r, d), r + 1 / 100)[0]


def shocks(seed, Nsim, n):
    """standard normal factor shocks by inversion, one uniform draw per period and path, period by period"""
    u = np.random.RandomState(seed).rand(n, Nsim)
    return norm.ppf(u.T)


def lookup_shocks(N, S):
    return norm.ppf(np.random.RandomState(1).rand(3 * N, S)).T
