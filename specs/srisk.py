"""Reference definition of SRISK (docs/source/measures/srisk.rst). Parsed, never run. lrmes: the LRMES of one firm."""
import numpy as np


def shortfall(W, D, k, l):
    return k * (D + W) - W + (1 - k) * l * W


def single(fr, mr, W, D, k, h, S, C, seed, lrmes):
    return shortfall(W, D, k, lrmes(fr, mr, h, S, C, seed))


def single_aggregate(fr, mr, W, D, k, h, S, C, seed, lrmes):
    return max(single(fr, mr, W, D, k, h, S, C, seed, lrmes), 0.0)


def firms(fr, mr, W, D, k, h, S, C, seed, lrmes):
    n = W.shape[0]
    out = np.empty(n)
    for i in range(n):
        out[i] = shortfall(W[i], D[i], k, lrmes(fr[:, i], mr, h, S, C, seed))
    return out


def firms_aggregate(fr, mr, W, D, k, h, S, C, seed, lrmes):
    v = firms(fr, mr, W, D, k, h, S, C, seed, lrmes)
    total = 0.0
    for x in v:
        if x > 0:
            total = total + x
    return total
