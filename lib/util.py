"""Helpers shared by the checks: independent numerics, snapshots, comparisons."""
import math
import numpy as np


def stencil(f, t, h):
    """ 5-point central difference of f at scalar displacement 0 along one coordinate """
    return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)


def num_partial(f, p, h=1e-3):
    """ d f(p) / d p_k, stacked along a new last axis """
    p = np.asarray(p, dtype=float)
    out = []
    for k in range(len(p)):
        hk = h * max(0.1, min(1.0, abs(p[k]) if p[k] != 0 else 1.0))

        def g(d, k=k):
            q = p.copy()
            q[k] += d
            return np.asarray(f(q), dtype=float)
        out.append(stencil(g, 0.0, hk))
    if not out:
        r = np.asarray(f(p), dtype=float)
        return np.zeros(r.shape + (0,))
    return np.stack(out, axis=-1)


def num_deriv(f, x, ndim, h=1e-3):
    """ df/dx : same shape as result for ndim == 1, extra last axis when ndim > 1 """
    x = np.asarray(x, dtype=float)
    if ndim == 1:
        return stencil(lambda d: np.asarray(f(x + d), dtype=float), 0.0, h)
    out = []
    for j in range(ndim):
        def g(d, j=j):
            y = x.copy()
            y[:, j] += d
            return np.asarray(f(y), dtype=float)
        out.append(stencil(g, 0.0, h))
    return np.stack(out, axis=-1)


def stack_partial(pt, ndout):
    """ partial of a model as array [n,np] or [n,ndout,np] """
    if isinstance(pt, list) or (ndout > 1):
        return np.stack([np.asarray(q, dtype=float) for q in pt], axis=1)
    return np.asarray(pt, dtype=float)


def stack_deriv(df, ndim, ndout):
    """ derivative as array  [n] / [n,ndim] / [n,ndout] / [n,ndout,ndim] """
    if isinstance(df, list) and ndim > 1 and ndout > 1:
        return np.stack([np.asarray(q, dtype=float) for q in df], axis=1)
    return np.asarray(df, dtype=float)


def angdiff(a):
    return (np.asarray(a) + np.pi) % (2 * np.pi) - np.pi


def freeze(a):
    """ deep comparable snapshot of caller owned data """
    if isinstance(a, np.ndarray):
        return ("nd", a.shape, str(a.dtype), a.tobytes())
    if isinstance(a, (list, tuple)):
        return (type(a).__name__,) + tuple(freeze(q) for q in a)
    if isinstance(a, dict):
        return ("dict",) + tuple((k, freeze(v)) for k, v in sorted(a.items(), key=lambda t: str(t[0])))
    return repr(a)


def wellposed(f, x, p, limit=1e3):
    """ points at which rounding of input and parameters is not blown up by more than limit """
    with np.errstate(all="ignore"):
        w = np.asarray(f(x, p), dtype=float)
        ok = np.ones(len(w), dtype=bool)
        for d in (1e-10, -1.3e-10):
            w2 = np.asarray(f(x * (1 + d), p * (1 + d)), dtype=float)
            g = np.abs(w2 - w) <= 1e-10 * limit * (1 + np.abs(w))
            ok &= g if g.ndim == 1 else np.all(g, axis=tuple(range(1, g.ndim)))
    return ok


def gate(f, a, scale):
    """ entries for which the numerical derivative can be trusted """
    g1 = f(3e-4)
    g2 = f(1.0e-4)
    g3 = f(3.7e-5)          # two step sizes may agree on an alias of a fast oscillation
    with np.errstate(all="ignore"):
        ok = np.isfinite(g1) & np.isfinite(g2) & (np.abs(g1 - g2) < 2e-7 * (1 + np.abs(g2)))
        ok &= np.isfinite(g3) & (np.abs(g3 - g2) < 1e-6 * (1 + np.abs(g2)))
    return g2, ok
