"""Reference definitions: docs/source/measures/spread_and_price_impact.rst. Parsed, never run."""
import numpy as np


def weighted(s, price, volume):
    n = price.shape[0]
    num = 0.0
    den = 0.0
    plain = 0.0
    traded = False
    for k in range(n):
        w = volume[k] * price[k]
        if w != 0:
            traded = True
        num = num + s[k] * w
        den = den + w
        plain = plain + s[k]
    if traded:
        return num / den
    return plain / n


def one(a, b, base, q, directed, pct):
    if pct:
        d = (a - b) / base * 100
    else:
        d = np.log(a) - np.log(b)
    if directed:
        return 2 * q * d
    return 2 * abs(d)


def quoted(bid, ask, pct):
    n = bid.shape[0]
    s = 0.0
    for k in range(n):
        if pct:
            s = s + (ask[k] - bid[k]) / ((ask[k] + bid[k]) / 2) * 100
        else:
            s = s + np.log(ask[k]) - np.log(bid[k])
    return s / n


def effective(price, mid, volume, q, directed, pct):
    n = price.shape[0]
    s = np.zeros(n)
    for k in range(n):
        s[k] = one(price[k], mid[k], mid[k], q[k], directed, pct)
    return weighted(s, price, volume)


def realized(price, later, mid, volume, q, directed, pct):
    n = price.shape[0]
    s = np.zeros(n)
    for k in range(n):
        s[k] = one(price[k], later[k], mid[k], q[k], directed, pct)
    return weighted(s, price, volume)


def impact(price, later, mid, volume, q, directed, pct):
    n = price.shape[0]
    s = np.zeros(n)
    for k in range(n):
        s[k] = one(later[k], mid[k], mid[k], q[k], directed, pct)
    return weighted(s, price, volume)
