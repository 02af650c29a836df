"""Compounds with one dynamic member, and their reference: what a static chain with the same components gives."""
import math
import numpy as np
import BayesicFitting as bf
import zoo

STATIC = [zoo.polynomial, zoo.exp, zoo.gauss, zoo.lorentz, zoo.harmonic, zoo.sine, zoo.arctan, zoo.sinc, zoo.logistic]
INNER = [zoo.gauss, zoo.lorentz, zoo.sine, zoo.arctan, zoo.polynomial, zoo.exp]


def limits(rng, n, p=None):
    """ n limits, around p if any; sometimes both on the same side of zero """
    w = rng.uniform(1.0, 5.0, n)
    c = np.asarray(p, dtype=float) if p is not None else rng.choice([-8.0, 0.0, 8.0]) + rng.uniform(-1, 1, n)
    return c - w, c + w


def tree_value(t, x, p):
    """ every point falls in one leaf : walk it down through a sequence of (dimension, split, mask) """
    x = np.asarray(x, dtype=float)
    x = x.reshape(len(x), -1)
    out = np.full(len(x), np.nan)
    hit = np.zeros(len(x), dtype=int)
    k = [0]

    def down(node, idx):
        if node.left is None and node.rite is None:
            out[idx] = p[k[0]]
            hit[idx] += 1
            k[0] += 1
            return
        v = x[idx, node.dimension]
        ok = ~np.isnan(v)
        if node.split is not None:
            if ok.any():
                s = v[ok].min() + (v[ok].max() - v[ok].min()) * node.split
                high = np.where(ok, v > s, node.split >= 0.5)         # unknown values go with the smallest fraction
            else:
                high = np.full(len(idx), node.split >= 0.5)
        else:
            high = (v.astype(int) & node.mask) != 0 if node.mask >= 2 else v == node.mask
        down(node.left, idx[high.astype(bool)])
        down(node.rite, idx[~high.astype(bool)])
    down(t, np.arange(len(x)))
    return out, hit, k[0]


class Part(object):
    pass


def dynamic_part(rng, kind, priors=True):
    """ .make(), .value( model, x, p ), .kind, .npar( ncomp ), .p parameters at the start, .lo .hi for the priors """
    d = Part()
    d.kind = kind
    d.same = []
    d.ndim = 1
    mx = None if rng.random() < 0.5 else int(rng.integers(3, 7))
    if kind == "polynomial":
        mn = int(rng.integers(0, 3))
        n0 = int(rng.integers(mn, 4 if mx is None else mx + 1))
        d.new = lambda: bf.PolynomialDynamicModel(n0, minDegree=mn, maxDegree=mx)
        d.ncomp, d.min, d.max = n0 + 1, mn + 1, None if mx is None else mx + 1
        d.npar = lambda nc: nc
        d.value = lambda m, x, p: sum(p[k] * x ** k for k in range(len(p))) + 0.0 * x
    elif kind == "harmonic":
        mn = int(rng.integers(0, 3))
        n0 = int(rng.integers(max(mn, 1), 4 if mx is None else mx + 1))
        per = float(rng.uniform(1, 5))
        d.new = lambda: bf.HarmonicDynamicModel(n0, period=per, minOrder=mn, maxOrder=mx)
        d.ncomp, d.min, d.max = n0, mn, mx
        d.npar = lambda nc: 2 * nc
        d.value = lambda m, x, p: sum((p[2 * k] * np.cos(2 * np.pi * (k + 1) * x / per) + p[2 * k + 1] * np.sin(2 * np.pi * (k + 1) * x / per)
                                       for k in range(len(p) // 2)), 0.0 * x)
    elif kind == "repeat":
        s = INNER[int(rng.integers(len(INNER)))](rng)
        d.inner = s
        mn = int(rng.integers(0, 2))
        n0 = int(rng.integers(mn, 4 if mx is None else mx + 1))
        ni = len(s.p)
        if ni > 1 and rng.random() < 0.5:
            d.same = sorted(int(k) for k in rng.choice(ni, int(rng.integers(1, ni)), replace=False))
        free = [k for k in range(ni) if k not in d.same]
        lo, hi = limits(rng, ni, s.p)
        for k in range(ni):
            if s.p[k] > 0:
                lo[k] = 0.3 * s.p[k]
        d.lo1, d.hi1 = lo, hi

        def new():
            im = s.make()
            if priors:
                im.setLimits(lo, hi)
            kw = {"same": list(d.same)} if d.same else {}
            return bf.RepeatingModel(n0, im, minComp=mn, maxComp=mx, **kw)
        d.new = new
        d.ncomp, d.min, d.max = n0, mn, mx
        d.npar = lambda nc: 0 if nc == 0 else ni + (nc - 1) * len(free)

        def value(m, x, p):
            r = 0.0 * x
            if len(p) == 0:
                return r
            q = np.array(p[:ni], dtype=float)
            r = r + s.ref(x, q)
            for j in range(ni, len(p), len(free)):
                q[free] = p[j:j + len(free)]
                r = r + s.ref(x, q)
            return r
        d.value = value
        d.free, d.ni = free, ni
    elif kind == "splines":
        o = int(rng.integers(1, 5))
        n0 = int(rng.integers(2, 6))
        kn = zoo.knots_for(rng, n0)
        mx = None if mx is None else max(mx, n0)
        d.order = o
        d.new = lambda: bf.SplinesDynamicModel(knots=kn.copy(), order=o, maxKnots=mx)
        d.ncomp, d.min, d.max = n0, 2, mx
        d.npar = lambda nc: nc + o - 1
        d.value = lambda m, x, p: zoo.bspline_matrix(x, np.asarray(m.knots, dtype=float), o) @ np.asarray(p)
        d.knots = kn
    else:
        d.ndim = int(rng.integers(1, 4))
        dep = int(rng.integers(0, 3))
        nb = 2 ** dep - 1
        kd = [int(k) for k in rng.integers(0, d.ndim, max(nb, 1))]
        sp = [float(v) for v in rng.uniform(0.2, 0.8, max(nb, 1))]
        d.new = lambda: bf.DecisionTreeModel(ndim=d.ndim, depth=dep, kdim=list(kd), split=list(sp))
        d.ncomp, d.min, d.max = nb, 0, None
        d.npar = lambda nc: nc + 1
        d.value = lambda m, x, p: tree_value(m, x, p)[0]
    if kind not in ("repeat",):
        # one common pair of limits, or one for each of the first parameters, the last one being repeated
        n = d.npar(d.ncomp)
        if kind in ("splines", "tree") or n == 0 or rng.random() < 0.5:
            lo, hi = limits(rng, 1)
        else:
            lo, hi = limits(rng, n)
        d.lo1, d.hi1 = lo, hi
        raw = d.new

        def make():
            m = raw()
            if priors:
                m.setLimits(d.lo1, d.hi1)
            return m
        d.new = make

    def lim(k):
        if d.kind == "repeat":
            k = k if k < d.ni else d.free[(k - d.ni) % len(d.free)]
        if d.kind == "harmonic":
            k = k % 2                       # the priors of one component hold for all components
        k = min(k, len(d.lo1) - 1)
        return d.lo1[k], d.hi1[k]
    d.lim = lim
    return d


KINDS = ["polynomial", "harmonic", "repeat", "splines", "tree"]
OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b}


class Chain(object):
    """ members [(spec or the dynamic part)], evaluated left to right """


def chain(rng, kind=None, priors=True, npre=None, npost=None, ops="+-*"):
    c = Chain()
    kind = kind or KINDS[int(rng.integers(len(KINDS)))]
    c.d = dynamic_part(rng, kind, priors=priors)
    c.kind = kind
    statics = STATIC if c.d.ndim == 1 else []
    npre = int(rng.integers(0, 3)) if npre is None else npre
    npost = int(rng.integers(0, 3)) if npost is None else npost
    if not statics:
        npre = npost = 0
    c.members = [statics[int(rng.integers(len(statics)))](rng) for k in range(npre)] + [c.d]
    c.members += [statics[int(rng.integers(len(statics)))](rng) for k in range(npost)]
    c.kd = npre
    c.ops = [str(rng.choice(list(ops))) for k in range(len(c.members) - 1)]
    models = []
    c.lims = []
    for s in c.members:
        if s is c.d:
            models.append(c.d.new())
            c.lims.append(None)
            continue
        m = s.make()
        lo, hi = limits(rng, len(s.p), s.p)
        for k in range(len(s.p)):
            if s.p[k] > 0:
                lo[k] = 0.3 * s.p[k]
        if priors:
            m.setLimits(lo, hi)
        c.lims.append((lo, hi))
        models.append(m)
    c.model = models[0]
    for o, m in zip(c.ops, models[1:]):
        if o == "+":
            c.model += m
        elif o == "-":
            c.model -= m
        else:
            c.model *= m
    c.off = sum(len(s.p) for s in c.members[:npre])
    c.npost = sum(len(s.p) for s in c.members[npre + 1:])
    c.text = " ".join(v for k, s in enumerate(c.members)
                      for v in ([c.ops[k - 1]] if k else []) + ["dyn-" + kind if s is c.d else s.name])
    return c


def member(c, model):
    """ the dynamic member in a model that is (a copy of) the model of the chain """
    m = model
    for k in range(c.kd):
        m = m._next
    return m


def value(c, model, x, p):
    """ reference: chain of separately calculated members, with parameters in order """
    p = np.asarray(p, dtype=float)
    x1 = x if c.d.ndim == 1 else x
    k = 0
    r = None
    nd = len(p) - c.off - c.npost
    for j, s in enumerate(c.members):
        n = nd if s is c.d else len(s.p)
        q = p[k:k + n]
        v = s.value(member(c, model), x1, q) if s is c.d else s.ref(x1, q)
        r = v if r is None else OPS[c.ops[j - 1]](r, v)
        k += n
    return r


def lims(c, npars):
    """ lower and upper limits of all parameters in the chain """
    lo, hi = [], []
    nd = npars - c.off - c.npost
    for s, v in zip(c.members, c.lims):
        if s is c.d:
            for k in range(nd):
                a, b = c.d.lim(k)
                lo.append(a); hi.append(b)
        else:
            lo += list(v[0]); hi += list(v[1])
    return np.array(lo), np.array(hi)


def xdata(rng, c, n):
    if c.d.ndim == 1:
        return np.sort(rng.uniform(-2.9, 2.9, n))
    return rng.uniform(-3, 3, (n, c.d.ndim))


def start(rng, c):
    """ parameters inside the limits """
    n = c.off + c.d.npar(c.d.ncomp) + c.npost
    lo, hi = lims(c, n)
    return rng.uniform(lo, hi)
