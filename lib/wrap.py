"""Specs (see zoo) of models that wrap other models or foreign code."""
import numpy as np
import BayesicFitting as bf
import zoo
import expr
from zoo import Spec, U

BASE = [zoo.gauss, zoo.lorentz, zoo.exp, zoo.sine, zoo.sineamp, zoo.arctan, zoo.logistic, zoo.sinedrift, zoo.etalon,
        zoo.voigt, zoo.pseudovoigt]


def pick(rng, lst):
    return lst[int(rng.integers(len(lst)))]


def sub1d(rng, compound=0.3):
    """ a spec of a simple or compound model with one input and output """
    if rng.random() < compound:
        t = expr.tree1d(rng, int(rng.integers(2, 4)), pipes=False)
        seed = int(rng.integers(1 << 30))
        return Spec("{%s}" % t.text(), lambda **kw: t.build(np.random.default_rng(seed)), t.value, t.pars(), zoo.x1(),
                    klass="compound")
    return pick(rng, BASE)(rng)


def constant(rng):
    r = rng.random()
    if r < 0.2:
        return Spec("Constant()", lambda **kw: bf.ConstantModel(), lambda x, p: 0.0 * x, [], zoo.x1(), fixable=False)
    if r < 0.4:
        v = U(rng, -2, 2)
        return Spec("Constant(%.2g)" % v, lambda **kw: bf.ConstantModel(values=v), lambda x, p: v + 0.0 * x, [], zoo.x1(),
                    fixable=False)
    if r < 0.5:
        v = U(rng, -2, 2)
        return Spec("Constant(2d,%.2g)" % v, lambda **kw: bf.ConstantModel(ndim=2, values=v),
                    lambda x, p: v + 0.0 * x[:, 0], [], zoo.x2(), ndim=2, fixable=False)
    s = sub1d(rng)
    return Spec("Constant(%s)" % s.name, lambda **kw: bf.ConstantModel(fixedModel=s.make(), values=s.p.copy()),
                lambda x, p: s.ref(x, s.p), [], s.x, fixable=False, klass="Constant")


def combi(rng):
    s = sub1d(rng, 0.2)
    n = int(rng.integers(1, 5))
    oper = "add" if rng.random() < 0.7 else "mul"
    np_ = len(s.p)
    add, mul = {}, {}
    for k in rng.permutation(np_)[:int(rng.integers(0, min(np_, 3) + 1))]:
        k = int(k)
        how = rng.random()          # added, multiplied or both
        if how < 0.6:
            v = U(rng, -0.3, 0.3, n)
            if rng.random() < 0.6:
                v[0] = 0.0
            if s.p[k] > 0 and s.p[k] + np.min(v) < 0.1:
                v = np.abs(v)               # a width stays positive
            add[k] = list(v)
        if how > 0.4:
            v = U(rng, 0.7, 1.3, n)
            if rng.random() < 0.6:
                v[0] = 1.0
            mul[k] = list(v)
    tied = set(add) | set(mul)
    index = []              # of each expanded parameter
    p = list(s.p)
    for i in range(n):
        for k in range(np_):
            if i == 0:
                index.append(k)
            elif k in tied:
                index.append(k)
            else:
                index.append(len(p))
                p.append(s.p[k] * U(rng, 0.8, 1.2))

    def ref(x, q):
        res = None
        for i in range(n):
            full = []
            for k in range(np_):
                v = q[index[i * np_ + k]]
                if k in add:
                    v = v + add[k][i]
                if k in mul:
                    v = v * mul[k][i]
                full.append(v)
            r = s.ref(x, np.array(full))
            res = r if res is None else res + r if oper == "add" else res * r
        return res

    def make(**kw):
        a = {"addCombi": add or None, "mulCombi": mul or None}
        if not add and not mul and n % 2:
            a = {}
        return bf.CombiModel(s.make(), n, oper=oper, **a, **kw)
    sp = Spec("Combi(%s,%d,%s,add%s,mul%s)" % (s.name, n, oper, sorted(add), sorted(mul)), make, ref, p, s.x,
              klass="Combi", fixable=False)
    sp.inner, sp.index, sp.nrep, sp.tied = s, index, n, tied
    return sp


def repeating(rng, dynamic=None, ncomp=None, compound=0.2):
    s = sub1d(rng, compound)
    np_ = len(s.p)
    n = int(rng.integers(1, 5)) if ncomp is None else ncomp
    dynamic = bool(rng.integers(2)) if dynamic is None else dynamic
    same = None
    arg = None
    if rng.random() < 0.5:
        same = sorted(int(k) for k in rng.permutation(np_)[:int(rng.integers(1, np_ + 1))])
        if len(same) == np_:
            same = same[:-1]
        arg = same
        if len(same) == 1 and rng.random() < 0.5:
            arg = same[0]
        if not same:
            same = arg = None
    free = [k for k in range(np_) if not (same and k in same)]
    p = list(s.p) if n > 0 else []
    for i in range(1, n):
        p += [s.p[k] * U(rng, 0.8, 1.2) for k in free]

    def ref(x, q):
        res = np.zeros(len(x))
        if len(q) == 0:
            return res
        full = np.array(q[:np_], dtype=float)
        res = res + s.ref(x, full)
        at = np_
        while at < len(q):
            full[free] = q[at:at + len(free)]
            at += len(free)
            res = res + s.ref(x, full)
        return res

    def make(limits=False, **kw):
        m = s.make()
        if limits:
            m.setLimits([-10.0] * np_, [10.0] * np_)
        return bf.RepeatingModel(n, m, same=arg, dynamic=dynamic, minComp=0 if ncomp == 0 else 1, **kw)
    sp = Spec("Repeating(%d*%s,same%s,dyn%s)" % (n, s.name, arg, dynamic), make, ref, p, s.x, klass="Repeating",
              fixable=False)
    sp.inner, sp.free, sp.ncomp, sp.same, sp.dynamic = s, free, n, same, dynamic
    return sp


def astropy(rng):
    from astropy.modeling import models as am
    k = int(rng.integers(8))
    if k == 0:
        p = [U(rng, -2, 2), U(rng, -1, 1), U(rng, 0.4, 2)]
        return Spec("Astropy(Gaussian1D)", lambda **kw: bf.AstropyModel(am.Gaussian1D(), **kw),
                    lambda x, p: p[0] * np.exp(-0.5 * ((x - p[1]) / p[2]) ** 2), p, zoo.x1(), klass="Astropy")
    if k == 1:
        p = [U(rng, -2, 2), U(rng, -1, 1), U(rng, 0.4, 2)]
        return Spec("Astropy(Lorentz1D)", lambda **kw: bf.AstropyModel(am.Lorentz1D(), **kw),
                    lambda x, p: p[0] * (p[2] / 2) ** 2 / ((x - p[1]) ** 2 + (p[2] / 2) ** 2), p, zoo.x1(), klass="Astropy")
    if k == 2:
        p = [U(rng, -2, 2), U(rng, 0.1, 1), U(rng, -0.5, 0.5)]
        return Spec("Astropy(Sine1D)", lambda **kw: bf.AstropyModel(am.Sine1D(), **kw),
                    lambda x, p: p[0] * np.sin(2 * np.pi * (p[1] * x + p[2])), p, zoo.x1(), klass="Astropy")
    if k == 3:
        return Spec("Astropy(Linear1D)", lambda **kw: bf.AstropyModel(am.Linear1D(), **kw),
                    lambda x, p: p[0] * x + p[1], U(rng, -2, 2, 2), zoo.x1(), klass="Astropy")
    if k == 4:
        p = [U(rng, -2, 2), U(rng, 0.5, 2)]
        return Spec("Astropy(Exponential1D)", lambda **kw: bf.AstropyModel(am.Exponential1D(), **kw),
                    lambda x, p: p[0] * np.exp(x / p[1]), p, zoo.x1(), klass="Astropy")

    if k == 6:                      # it has no analytic derivatives
        p = [U(rng, -2, 2), U(rng, -1, 1), U(rng, 0.5, 2)]
        return Spec("Astropy(Ricker1D)", lambda **kw: bf.AstropyModel(am.RickerWavelet1D(), **kw),
                    lambda x, p: p[0] * (1 - ((x - p[1]) / p[2]) ** 2) * np.exp(-0.5 * ((x - p[1]) / p[2]) ** 2), p, zoo.x1(), klass="Astropy")
    if k == 7:
        p = [U(rng, -2, 2), U(rng, -1, 1), U(rng, -1, 1), U(rng, 0.5, 2)]

        def r2(x, p):
            q = ((x[:, 0] - p[1]) ** 2 + (x[:, 1] - p[2]) ** 2) / (2 * p[3] ** 2)
            return p[0] * (1 - q) * np.exp(-q)
        return Spec("Astropy(Ricker2D)", lambda **kw: bf.AstropyModel(am.RickerWavelet2D(), **kw), r2, p, zoo.x2(), ndim=2, klass="Astropy")

    def g2(x, p):
        c, s = np.cos(p[5]), np.sin(p[5])
        dx, dy = x[:, 0] - p[1], x[:, 1] - p[2]
        a = (c / p[3]) ** 2 + (s / p[4]) ** 2
        b = np.sin(2 * p[5]) * (1 / p[3] ** 2 - 1 / p[4] ** 2)
        d = (s / p[3]) ** 2 + (c / p[4]) ** 2
        return p[0] * np.exp(-0.5 * (a * dx * dx + b * dx * dy + d * dy * dy))
    p = [U(rng, -2, 2), U(rng, -.5, .5), U(rng, -.5, .5), U(rng, 0.4, 2), U(rng, 0.4, 2), U(rng, -1, 1)]
    return Spec("Astropy(Gaussian2D)", lambda **kw: bf.AstropyModel(am.Gaussian2D(), **kw), g2, p, zoo.x2(), ndim=2,
                klass="Astropy")


def user(rng):
    k = int(rng.integers(3))
    if k < 2:
        def f(x, p):
            return p[0] * np.sin(p[1] * x + p[2])

        def df(x, p):
            a = p[1] * x + p[2]
            return np.array([np.sin(a), p[0] * x * np.cos(a), p[0] * np.cos(a)]).T

        def dx(x, p):
            return p[0] * p[1] * np.cos(p[1] * x + p[2])
        p, xs, ndim = U(rng, 0.4, 1.6, 3), zoo.x1(), 1
    else:
        def f(x, p):
            return p[0] * np.exp(p[1] * x[:, 0]) + p[2] * x[:, 0] * x[:, 1]

        def df(x, p):
            e = np.exp(p[1] * x[:, 0])
            return np.array([e, p[0] * x[:, 0] * e, x[:, 0] * x[:, 1]]).T

        def dx(x, p):
            return np.array([p[0] * p[1] * np.exp(p[1] * x[:, 0]) + p[2] * x[:, 1], p[2] * x[:, 0]]).T
        p, xs, ndim = U(rng, 0.4, 1.6, 3), zoo.x2(), 2
    wp, wd = bool(rng.integers(2)), bool(rng.integers(2))
    kk = {}
    if wp:
        kk["userPartial"] = df
    if wd:
        kk["userDeriv"] = dx
    return Spec("User(%dd,partial=%s,deriv=%s)" % (ndim, wp, wd),
                lambda **kw: bf.UserModel(3, f, ndim=ndim, userName="mine", **kk, **kw), f, p, xs, ndim=ndim, klass="User")


def bracket(rng):
    if rng.random() < 0.3:
        t = expr.tree2d(rng, int(rng.integers(1, 4)))
        xs, nd = zoo.x2(), 2
    else:
        t = expr.tree1d(rng, int(rng.integers(1, 5)))
        xs, nd = zoo.x1(), 1
    seed = int(rng.integers(1 << 30))
    return Spec("Bracket(%s)" % t.text(), lambda **kw: bf.BracketModel(t.build(np.random.default_rng(seed)), **kw),
                t.value, t.pars(), xs, ndim=nd, klass="Bracket", fixable=False)


def polydyn(rng):
    d = int(rng.integers(0, 5))
    return Spec("PolynomialDynamic(%d)" % d, lambda **kw: bf.PolynomialDynamicModel(d, **kw),
                lambda x, p: sum(p[k] * x ** k for k in range(len(p))) + 0.0 * x, U(rng, -2, 2, d + 1), zoo.x1(),
                klass="PolynomialDynamic", fixable=False)


def harmdyn(rng):
    o = int(rng.integers(1, 5))
    per = U(rng, 0.5, 3)

    def f(x, p):
        a = 2 * np.pi * x / per
        return sum(p[2 * k] * np.cos((k + 1) * a) + p[2 * k + 1] * np.sin((k + 1) * a) for k in range(len(p) // 2)) + 0.0 * x
    return Spec("HarmonicDynamic(%d)" % o, lambda **kw: bf.HarmonicDynamicModel(o, period=per, **kw), f,
                U(rng, -2, 2, 2 * o), zoo.x1(), klass="HarmonicDynamic", fixable=False)


def splinesdyn(rng):
    o = int(rng.integers(1, 4))
    n = int(rng.integers(3, 7))
    kn = zoo.knots_for(rng, n)
    return Spec("SplinesDynamic(o%d,k%d)" % (o, n),
                lambda **kw: bf.SplinesDynamicModel(knots=kn.copy(), order=o, modifiable=True, **kw),
                lambda x, p: zoo.bspline_matrix(x, kn, o) @ p, U(rng, -1, 1, n + o - 1), zoo.x1(-2.99, 2.99),
                kinks=lambda x, p: np.min([np.abs(x - t) for t in kn], axis=0), klass="SplinesDynamic", fixable=False,
                rtol=1e-6)


WRAP = [constant, combi, repeating, astropy, user, bracket]
DYN = [polydyn, harmdyn, splinesdyn]
