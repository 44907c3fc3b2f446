"""Reference definitions: docs/source/measures/limit_order_book_slope.rst. Parsed, never run."""
import numpy as np


def avg_defined(x):
    n = x.shape[0]
    s = 0.0
    m = 0
    for k in range(n):
        if not np.isnan(x[k]):
            s = s + x[k]
            m = m + 1
    return s / m


def slope(size, price, mid):
    n, levels = size.shape
    x = np.zeros(n)
    for i in range(n):
        d = 0.0
        for k in range(levels):
            d = d + size[i, k]
        x[i] = d / abs(price[i] - mid[i])
    return avg_defined(x)


def difference(size, price):
    n = size.shape[0]
    x = np.zeros(n)
    for i in range(n):
        x[i] = (size[i, 4] - size[i, 2]) / abs(price[i, 4] - price[i, 2]) - (size[i, 2] - size[i, 0]) / abs(price[i, 2] - price[i, 0])
    return avg_defined(x)


def sdd(bid, ask):
    n, levels = bid.shape
    x = np.zeros(n)
    for i in range(n):
        b = 0.0
        a = 0.0
        for k in range(levels):
            b = b + bid[i, k]
            a = a + ask[i, k]
        x[i] = 2 * (a - b) / (a + b)
    return avg_defined(x)
