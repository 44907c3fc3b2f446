"""Reference definition of LRMES (docs/source/measures/long_run_mes.rst, Brownlees and Engle 2017). Parsed, never run."""
import numpy as np


def estimate(ei, em, si, sm, rho, pi, pm, a, b, h, S, C, seed):
    """ei, em: residuals; si, sm: variances; rho: conditional correlations; pi, pm: (mu, omega, alpha, gamma, beta)"""
    T = ei.shape[0]
    zi = ei / np.sqrt(si)
    zm = em / np.sqrt(sm)
    xi = (zi - rho * zm) / np.sqrt(1 - rho * rho)
    Q = np.corrcoef(zi, zm)
    rng = np.random.default_rng(seed)
    total = 0.0
    events = 0
    for s in range(S):
        day = rng.integers(0, T, size=h)
        vi = si[T - 1]
        vm = sm[T - 1]
        ui = ei[T - 1]
        um = em[T - 1]
        qi = 1.0
        qm = 1.0
        qim = rho[T - 1]
        ri = 0.0
        rm = 0.0
        for k in range(h):
            wi = ui / np.sqrt(vi)
            wm = um / np.sqrt(vm)
            qi = (1 - a - b) * Q[0, 0] + a * wi * wi + b * qi
            qm = (1 - a - b) * Q[1, 1] + a * wm * wm + b * qm
            qim = (1 - a - b) * Q[0, 1] + a * wi * wm + b * qim
            r = qim / np.sqrt(qi * qm)
            vi = pi[1] + (pi[2] + (pi[3] if ui < 0 else 0)) * ui * ui + pi[4] * vi
            vm = pm[1] + (pm[2] + (pm[3] if um < 0 else 0)) * um * um + pm[4] * vm
            um = np.sqrt(vm) * zm[day[k]]
            ui = np.sqrt(vi) * (r * zm[day[k]] + np.sqrt(1 - r * r) * xi[day[k]])
            ri = ri + (pi[0] + ui) / 100
            rm = rm + (pm[0] + um) / 100
        if np.exp(rm) - 1 < C:
            total = total + np.exp(ri) - 1
            events = events + 1
    return -total / events if events > 0 else 0.0
