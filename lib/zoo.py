"""Zoo of models, each with an independent reference formula.

Every entry is a function  entry( rng ) -> Spec.  The reference formulas are
written from the documentation (docstrings, manual, glossary), using only numpy,
scipy.special and scipy.interpolate, never the code under test.
"""
import math
import numpy as np
from scipy import special, interpolate

import BayesicFitting as bf
from BayesicFitting.source.kernels.Biweight import Biweight
from BayesicFitting.source.kernels.CosSquare import CosSquare
from BayesicFitting.source.kernels.Cosine import Cosine
from BayesicFitting.source.kernels.Gauss import Gauss
from BayesicFitting.source.kernels.Huber import Huber
from BayesicFitting.source.kernels.Lorentz import Lorentz
from BayesicFitting.source.kernels.Parabola import Parabola
from BayesicFitting.source.kernels.Sinc import Sinc
from BayesicFitting.source.kernels.Tophat import Tophat
from BayesicFitting.source.kernels.Triangle import Triangle
from BayesicFitting.source.kernels.Tricube import Tricube
from BayesicFitting.source.kernels.Triweight import Triweight
from BayesicFitting.source.kernels.Uniform import Uniform


class Spec(object):
    """
    make( **kw )    builds the model
    ref( x, p )     reference result for the complete (unfixed) parameter vector
    p               a complete parameter vector
    x( rng, n )     valid input
    """
    def __init__(self, name, make, ref, p, x, ndim=1, ndout=1, fixable=True, partial=True,
                 deriv=True, kinks=None, linear=False, rtol=1e-9, klass=None, replaceable=None,
                 pscale=None):
        self.name = name
        self.make = make
        self.ref = ref
        self.p = np.asarray(p, dtype=float)
        self.x = x
        self.ndim = ndim
        self.ndout = ndout
        self.fixable = fixable          # constants can be fixed
        self.partial = partial
        self.deriv = deriv
        self.kinks = kinks              # function( x, p ) -> distance (>0) to nearest kink, per x
        self.linear = linear
        self.rtol = rtol
        self.klass = klass or name.split("(")[0]
        # whether parameters can be replaced by models (only sensible for 1-d, 1 output)
        self.replaceable = (fixable and ndim == 1 and ndout == 1) if replaceable is None else replaceable


def U(rng, lo, hi, n=None):
    return rng.uniform(lo, hi, n)


def sgn(rng):
    return 1.0 if rng.random() < 0.5 else -1.0


def x1(lo=-3.0, hi=3.0):
    return lambda rng, n: np.sort(rng.uniform(lo, hi, n))


def x2(lo=-2.0, hi=2.0):
    return lambda rng, n: rng.uniform(lo, hi, (n, 2))


# ------------------------------------------------------------------ kernels
def bsp(n):
    """ n-fold self-convolution of the unit tophat, scaled to 1 at x=0 """
    k = n
    t = np.arange(n + 2) - (n + 1) / 2.0
    b = interpolate.BSpline.basis_element(t, extrapolate=False)

    def f(x):
        x = np.asarray(x, dtype=float)
        return np.nan_to_num(b(x)) / float(b(0.0) if n > 0 else 1.0)
    return f


def tophat0(x):
    ax = np.abs(x)
    return np.where(ax < 0.5, 1.0, np.where(ax == 0.5, 0.5, 0.0))


def inside(x, v):
    return np.where(np.abs(x) < 1, v, 0.0)


def ref_kernels():
    """ name : ( constructor, formula, half range, kinks ) """
    d = {
        "Biweight": (Biweight, lambda x: inside(x, (1 - x * x) ** 2), 1.0, [1.0]),
        "CosSquare": (CosSquare, lambda x: inside(x, np.cos(0.5 * np.pi * x) ** 2), 1.0, [1.0]),
        "Cosine": (Cosine, lambda x: inside(x, np.cos(0.5 * np.pi * x)), 1.0, [1.0]),
        "Gauss": (Gauss, lambda x: np.exp(-0.5 * x * x), math.inf, []),
        "Huber": (Huber, lambda x: np.where(np.abs(x) < 1, 1.0, 1.0 / np.maximum(np.abs(x), 1e-300)), math.inf, [1.0]),
        "Lorentz": (Lorentz, lambda x: 1.0 / (1.0 + x * x), math.inf, []),
        "Parabola": (Parabola, lambda x: inside(x, 1 - x * x), 1.0, [1.0]),
        "Sinc": (Sinc, lambda x: np.sinc(x), math.inf, []),
        "Triangle": (Triangle, lambda x: inside(x, 1 - np.abs(x)), 1.0, [0.0, 1.0]),
        "Tricube": (Tricube, lambda x: inside(x, (1 - np.abs(x) ** 3) ** 3), 1.0, [1.0]),
        "Triweight": (Triweight, lambda x: inside(x, (1 - x * x) ** 3), 1.0, [1.0]),
        "Uniform": (Uniform, lambda x: np.where(np.abs(x) < 1, 1.0, np.where(np.abs(x) == 1, 0.5, 0.0)), 1.0, [1.0]),
        "Tophat0": (lambda: Tophat(0), tophat0, 0.5, [0.5]),
    }
    for n in range(1, 7):
        h = (n + 1) / 2.0
        d["Tophat%d" % n] = ((lambda n=n: Tophat(n)), bsp(n), h,
                             list(np.arange(0.0 if (n % 2) else 0.5, h + 0.1, 1.0)))
    return d


KERNELS = ref_kernels()


# ------------------------------------------------------------------ 1-d models
def polynomial(rng):
    d = int(rng.integers(0, 7))
    return Spec("Polynomial(%d)" % d, lambda **kw: bf.PolynomialModel(d, **kw),
                lambda x, p: sum(p[k] * x ** k for k in range(d + 1)) + 0.0 * x,
                U(rng, -2, 2, d + 1), x1(), linear=True)


def chebyshev(rng):
    d = int(rng.integers(0, 8))
    return Spec("Chebyshev(%d)" % d, lambda **kw: bf.ChebyshevPolynomialModel(d, **kw),
                lambda x, p: sum(p[k] * np.polynomial.chebyshev.chebval(x, np.eye(d + 1)[k]) for k in range(d + 1)) + 0.0 * x,
                U(rng, -2, 2, d + 1), x1(-1, 1), linear=True)


def power(rng):
    e = float(rng.choice([-2, -1, -0.5, 0, 0.5, 1, 1.5, 2, 3]))
    return Spec("Power(%g)" % e, lambda **kw: bf.PowerModel(e, **kw),
                lambda x, p: p[0] * x ** e, U(rng, -2, 2, 1), x1(0.3, 4), linear=True)


def powerlaw(rng):
    return Spec("PowerLaw", lambda **kw: bf.PowerLawModel(**kw),
                lambda x, p: p[0] * (x - p[1]) ** p[2],
                [U(rng, -2, 2), U(rng, -2, 0.5), U(rng, -2, 3)], x1(1.0, 4))


def exp(rng):
    dec = bool(rng.integers(2))
    s = -1 if dec else 1
    return Spec("Exp(decay=%s)" % dec, lambda **kw: bf.ExpModel(decay=dec, **kw),
                lambda x, p: p[0] * np.exp(s * p[1] * x), U(rng, -2, 2, 2), x1(-2, 2))


def gauss(rng):
    return Spec("Gauss", lambda **kw: bf.GaussModel(**kw),
                lambda x, p: p[0] * np.exp(-0.5 * ((x - p[1]) / p[2]) ** 2),
                [U(rng, -3, 3), U(rng, -1, 1), U(rng, 0.3, 2)], x1())


def lorentz(rng):
    return Spec("Lorentz", lambda **kw: bf.LorentzModel(**kw),
                lambda x, p: p[0] * p[2] ** 2 / ((x - p[1]) ** 2 + p[2] ** 2),
                [U(rng, -3, 3), U(rng, -1, 1), U(rng, 0.3, 2)], x1())


def voigt_ref(x, p):
    v = special.voigt_profile(x - p[1], abs(p[2]), p[3])
    v0 = special.voigt_profile(0.0, abs(p[2]), p[3])
    return p[0] * v / v0


def voigt(rng):
    return Spec("Voigt", lambda **kw: bf.VoigtModel(**kw), voigt_ref,
                [U(rng, -3, 3), U(rng, -1, 1), U(rng, 0.3, 2), U(rng, 0.2, 2)], x1())


def pseudovoigt(rng):
    def f(x, p):
        g = p[0] * np.exp(-0.5 * ((x - p[1]) / p[2]) ** 2)
        l = p[0] * p[2] ** 2 / ((x - p[1]) ** 2 + p[2] ** 2)
        return p[3] * l + (1 - p[3]) * g
    return Spec("PseudoVoigt", lambda **kw: bf.PseudoVoigtModel(**kw), f,
                [U(rng, -3, 3), U(rng, -1, 1), U(rng, 0.3, 2), U(rng, 0, 1)], x1())


def arctan(rng):
    return Spec("Arctan", lambda **kw: bf.ArctanModel(**kw),
                lambda x, p: p[0] * np.arctan(p[2] * (x - p[1])),
                [U(rng, -3, 3), U(rng, -1, 1), sgn(rng) * U(rng, 0.3, 4)], x1())


def logistic(rng):
    return Spec("Logistic", lambda **kw: bf.LogisticModel(**kw),
                lambda x, p: p[0] / (1 + np.exp((p[1] - x) / p[2])),
                [U(rng, -3, 3), U(rng, -1, 1), sgn(rng) * U(rng, 0.3, 2)], x1())


def sine(rng):
    ph = bool(rng.integers(2))
    if ph:
        f = lambda x, p: p[0] * np.sin(2 * np.pi * x * p[1] + p[2])
    else:
        f = lambda x, p: p[1] * np.cos(2 * np.pi * x * p[0]) + p[2] * np.sin(2 * np.pi * x * p[0])
    return Spec("Sine(phase=%s)" % ph, lambda **kw: bf.SineModel(phase=ph, **kw), f,
                U(rng, -1.5, 1.5, 3), x1())


def sineamp(rng):
    fr = U(rng, 0.1, 2)
    return Spec("SineAmp", lambda **kw: bf.SineAmpModel(fr, **kw),
                lambda x, p: p[0] * np.cos(2 * np.pi * fr * x) + p[1] * np.sin(2 * np.pi * fr * x),
                U(rng, -2, 2, 2), x1(), linear=True)


def sinedrift(rng):
    def f(x, p):
        a = 2 * np.pi * x * (p[0] + p[3] * x)
        return p[1] * np.cos(a) + p[2] * np.sin(a)
    return Spec("SineDrift", lambda **kw: bf.SineDriftModel(**kw), f,
                [U(rng, 0.2, 1.5), U(rng, -2, 2), U(rng, -2, 2), U(rng, -0.3, 0.3)], x1())


def harmonic(rng):
    o = int(rng.integers(1, 5))
    per = U(rng, 0.5, 3)

    def f(x, p):
        a = 2 * np.pi * x / per
        return sum(p[2 * k] * np.cos((k + 1) * a) + p[2 * k + 1] * np.sin((k + 1) * a) for k in range(o))
    return Spec("Harmonic(%d)" % o, lambda **kw: bf.HarmonicModel(o, period=per, **kw), f,
                U(rng, -2, 2, 2 * o), x1(), linear=True)


def pade(rng):
    num = int(rng.integers(0, 4))
    den = int(rng.integers(0, 4))

    def f(x, p):
        n = sum(p[k] * x ** k for k in range(num + 1)) + 0.0 * x
        d = sum(p[num + 1 + k] * x ** k for k in range(den + 1)) + 0.0 * x
        return n / d
    p = np.concatenate((U(rng, -2, 2, num + 1), [1.0], U(rng, 0.1, 0.6, den)))
    # the model fixes p[num+1] at 1 unless told otherwise
    sp = Spec("Pade(%d,%d)" % (num, den), lambda **kw: bf.PadeModel(num, den, **kw), f, p, x1(0.1, 2))
    sp.defaultfix = {num + 1: 1.0}
    return sp


def etalon(rng):
    return Spec("Etalon", lambda **kw: bf.EtalonModel(**kw),
                lambda x, p: p[0] / (1 + p[1] * np.sin(np.pi * x * p[2] + p[3]) ** 2),
                [U(rng, -2, 2), U(rng, 0.2, 10), U(rng, 0.3, 1.5), U(rng, -2, 2)], x1())


def kinkdist(ks, cen, wid):
    def d(x):
        u = np.abs((x - cen) / wid)
        if not ks:
            return np.full_like(u, np.inf)
        return np.min([np.abs(u - k) for k in ks], axis=0) * abs(wid)
    return d


def kernelmodel(rng, name=None):
    name = name or str(rng.choice(sorted(KERNELS)))
    mk, f, h, ks = KERNELS[name]
    p = [U(rng, -3, 3), U(rng, -1, 1), U(rng, 0.4, 2)]
    return Spec("Kernel(%s)" % name, lambda **kw: bf.KernelModel(kernel=mk(), **kw),
                lambda x, p: p[0] * f((x - p[1]) / p[2]), p, x1(),
                kinks=lambda x, p: kinkdist(ks, p[1], p[2])(x))


def sinc(rng):
    sp = kernelmodel(rng, "Sinc")
    sp.name = sp.klass = "Sinc"
    sp.make = lambda **kw: bf.SincModel(**kw)
    return sp


def knots_for(rng, n, lo=-3.0, hi=3.0):
    """ monotone knots, not closer than 0.25 * mean distance """
    if rng.random() < 0.3:
        return np.linspace(lo, hi, n)
    d = U(rng, 0.3, 1.7, n - 1)
    k = np.concatenate(([0.0], np.cumsum(d)))
    return lo + (hi - lo) * k / k[-1]


def tpow(x, o):
    """ truncated power (x)_+ ^ o """
    if o == 0:
        return np.where(x >= 0, 1.0, 0.0)
    return np.where(x > 0, x, 0.0) ** o


def spline_basis(x, knots, o):
    """ 1, x .. x^(o-1), and then differences of truncated powers at successive (inner) knots """
    cols = [x ** k for k in range(o)]
    cut = [x ** o if o > 0 else np.ones_like(x)] + [tpow(x - t, o) for t in knots[1:-1]]
    for k in range(len(cut) - 1):
        cols.append(cut[k] - cut[k + 1])
    cols.append(cut[-1])
    return np.array(cols).T


def splines(rng, name="Splines"):
    o = int(rng.integers(0, 5))
    n = int(rng.integers(2, 7))
    kn = knots_for(rng, n)
    np_ = n + o - 1
    if rng.random() < 0.3:
        kn = np.linspace(kn[0], kn[-1], n)
        if rng.random() < 0.5:
            mk = lambda **kw: bf.SplinesModel(nrknots=n, order=o, min=kn[0], max=kn[-1], **kw)
        else:
            mk = lambda **kw: bf.SplinesModel(nrknots=n, order=o, xrange=np.array([kn[0], 0.1, kn[-1]]), **kw)
    else:
        mk = lambda **kw: bf.SplinesModel(knots=kn, order=o, **kw)
    return Spec("Splines(o%d,k%d)" % (o, n), mk,
                lambda x, p: sum(b * q for b, q in zip(spline_basis(x, kn, o).T, p)) + 0.0 * x, U(rng, -1, 1, np_), x1(),
                kinks=lambda x, p: np.min([np.abs(x - t) for t in kn], axis=0), linear=True)


def bspline_matrix(x, knots, o):
    t = np.concatenate((np.full(o, knots[0]), knots, np.full(o, knots[-1])))
    x = np.asarray(x, dtype=float)
    n = len(t) - o - 1
    out = np.zeros((len(x), n))
    for k in range(n):
        c = np.zeros(n)
        c[k] = 1.0
        out[:, k] = interpolate.BSpline(t, c, o, extrapolate=True)(x)
    return out


def basicsplines(rng):
    o = int(rng.integers(0, 5))
    n = int(rng.integers(2, 8))
    kn = knots_for(rng, n)
    return Spec("BasicSplines(o%d,k%d)" % (o, n),
                lambda **kw: bf.BasicSplinesModel(knots=kn, order=o, **kw),
                lambda x, p: bspline_matrix(x, kn, o) @ p, U(rng, -1, 1, n + o - 1), x1(-2.99, 2.99),
                kinks=lambda x, p: np.min([np.abs(x - t) for t in kn], axis=0), linear=True, rtol=1e-6)


def bsplines(rng):
    o = int(rng.integers(1, 5))
    n = int(rng.integers(2, 8))
    kn = knots_for(rng, n)
    return Spec("BSplines(o%d,k%d)" % (o, n),
                lambda **kw: bf.BSplinesModel(knots=kn, order=o, **kw),
                lambda x, p: bspline_matrix(x, kn, o) @ p, U(rng, -1, 1, n + o - 1), x1(-2.99, 2.99),
                kinks=lambda x, p: np.min([np.abs(x - t) for t in kn], axis=0), linear=True,
                fixable=False, rtol=1e-8)


def sinespline(rng):
    o = int(rng.integers(1, 4))
    n = int(rng.integers(2, 6))
    kn = knots_for(rng, n)
    fr = U(rng, 0.1, 1)
    nh = n + o - 1

    def f(x, p):
        b = spline_basis(x, kn, o)
        a = 2 * np.pi * fr * x
        return (b @ p[:nh]) * np.cos(a) + (b @ p[nh:]) * np.sin(a)
    return Spec("SineSpline(o%d,k%d)" % (o, n),
                lambda **kw: bf.SineSplineModel(fr, kn, order=o, **kw), f,
                U(rng, -1, 1, 2 * nh), x1(), linear=True, fixable=False,
                kinks=lambda x, p: np.min([np.abs(x - t) for t in kn], axis=0))


def sinesplinedrift(rng):
    o = int(rng.integers(1, 4))
    n = int(rng.integers(2, 5))
    d = int(rng.integers(0, 3))
    kn = knots_for(rng, n)
    nh = n + o - 1

    def f(x, p):
        b = spline_basis(x, kn, o)
        pm = sum(p[k] * x ** k for k in range(d + 1))
        a = 2 * np.pi * x * pm
        return (b @ p[d + 1:d + 1 + nh]) * np.cos(a) + (b @ p[d + 1 + nh:]) * np.sin(a)
    p = np.concatenate((U(rng, -0.3, 0.3, d + 1), U(rng, -1, 1, 2 * nh)))
    return Spec("SineSplineDrift(o%d,k%d,d%d)" % (o, n, d),
                lambda **kw: bf.SineSplineDriftModel(kn, order=o, degree=d, **kw), f,
                p, x1(), fixable=False,
                kinks=lambda x, p: np.min([np.abs(x - t) for t in kn], axis=0))


def freeshape(rng):
    npx = int(rng.integers(3, 9))
    nc = int(rng.integers(0, 5))
    lo = U(rng, -2, 0)
    hi = U(rng, 1, 3)
    f0 = tophat0 if nc == 0 else bsp(nc)
    cen = float(rng.choice([0.5, 0.0, 0.3]))

    def f(x, p):
        pix = npx * (x - lo) / (hi - lo) + cen
        return sum(p[k] * f0(pix - k) for k in range(npx))

    def kd(x, p):
        pix = npx * (x - lo) / (hi - lo) + cen
        h = (nc + 1) / 2.0
        return np.abs(((pix - h) + 0.5) % 1.0 - 0.5)
    return Spec("FreeShape(%d,c%d)" % (npx, nc),
                lambda **kw: bf.FreeShapeModel(npx, nconvolve=nc, xlo=lo, xhi=hi, center=cen, **kw), f,
                U(rng, 0, 2, npx), x1(lo, hi), linear=True, fixable=False, deriv=False, kinks=kd)


def kepler_E(M, e):
    """ bisection, independent of the (Halley) iterations in the package """
    M = np.asarray(M, dtype=float)
    lo = M - 1.0001
    hi = M + 1.0001
    for _ in range(70):
        mid = 0.5 * (lo + hi)
        g = mid - e * np.sin(mid) - M
        lo = np.where(g < 0, mid, lo)
        hi = np.where(g < 0, hi, mid)
    return 0.5 * (lo + hi)


def true_anomaly(x, p):
    e = p[0]
    M = 2 * np.pi * x / p[2] - p[3]
    E = kepler_E(M, e)
    r = p[1] * (1 - e * np.cos(E))
    v = np.arctan2(math.sqrt(1 - e * e) * np.sin(E), np.cos(E) - e)
    return r, v


def radialvelocity(rng):
    def f(x, p):
        r, v = true_anomaly(x, p)
        return p[1] * (np.cos(v + p[4]) + p[0] * np.cos(p[4]))
    return Spec("RadialVelocity", lambda **kw: bf.RadialVelocityModel(**kw), f,
                [U(rng, 0.0, 0.8), U(rng, 0.5, 3), U(rng, 1, 4), U(rng, 0, 6), U(rng, 0, 6)], x1(0, 6),
                rtol=1e-6)


def stellarorbit(rng):
    sph = bool(rng.integers(2))

    def f(x, p):
        r, v = true_anomaly(x, p)
        sv = np.sin(v + p[6]) * np.cos(p[4])
        cv = np.cos(v + p[6])
        # position on the sky : rotate ( cv, sv ) over the position angle of the nodes
        north = r * (cv * np.cos(p[5]) - sv * np.sin(p[5]))
        east = r * (cv * np.sin(p[5]) + sv * np.cos(p[5]))
        if not sph:
            return np.array([east, -north]).T
        return np.array([np.hypot(north, east), np.arctan2(east, north)]).T
    return Spec("StellarOrbit(sph=%s)" % sph, lambda **kw: bf.StellarOrbitModel(spherical=sph, **kw), f,
                [U(rng, 0.0, 0.8), U(rng, 0.5, 3), U(rng, 1, 4), U(rng, 0, 6), U(rng, 0.1, 1.4),
                 U(rng, 0, 3), U(rng, 0, 6)], x1(0, 6), ndout=2, rtol=1e-6)


def softmax(rng):
    ndim = int(rng.integers(1, 4))
    ndout = int(rng.integers(1, 4))
    off = bool(rng.integers(2))
    nrm = bool(rng.random() < 0.7)
    io = ndim * ndout

    def f(x, p):
        xx = x.reshape(-1, ndim)
        a = xx @ p[:io].reshape(ndout, ndim).T
        if off:
            a = a + p[io:]
        if nrm:
            a = special.expit(a) if ndout == 1 else special.softmax(a, axis=1)
        return a[:, 0] if ndout == 1 else a
    xs = x1(-2, 2) if ndim == 1 else (lambda rng, n: rng.uniform(-2, 2, (n, ndim)))
    return Spec("SoftMax(%d,%d,o%d,n%d)" % (ndim, ndout, off, nrm),
                lambda **kw: bf.SoftMaxModel(ndim=ndim, ndout=ndout, offset=off, normed=nrm, **kw), f,
                U(rng, -1.5, 1.5, io + (ndout if off else 0)), xs, ndim=ndim, ndout=ndout, fixable=False)


# ------------------------------------------------------------------ 2-d models
def etalondrift(rng):
    def f(x, p):
        s = np.sin(np.pi * (p[2] * x[:, 0] + p[3] + p[4] * x[:, 1]))
        return p[0] / (1 + p[1] ** 2 * s * s)
    return Spec("EtalonDrift", lambda **kw: bf.EtalonDriftModel(**kw), f,
                [U(rng, -2, 2), U(rng, 0.3, 3), U(rng, 0.3, 1.3), U(rng, -1, 1), U(rng, -0.5, 0.5)],
                x2(), ndim=2)


def kernel2d(rng, name=None, shape=None):
    name = name or str(rng.choice(sorted(KERNELS)))
    mk, f0, h, ks = KERNELS[name]
    shape = shape or int(rng.integers(1, 4))

    def rr(x, p):
        dx = x[:, 0] - p[1]
        dy = x[:, 1] - p[2]
        if shape == 1:
            return np.hypot(dx / p[3], dy / p[3])
        if shape == 2:
            return np.hypot(dx / p[3], dy / p[4])
        c, s = math.cos(p[5]), math.sin(p[5])
        return np.hypot((dx * c - dy * s) / p[3], (dx * s + dy * c) / p[4])

    p = [U(rng, -3, 3), U(rng, -0.5, 0.5), U(rng, -0.5, 0.5), U(rng, 0.6, 2), U(rng, 0.6, 2), U(rng, -1.5, 1.5)][:3 + [0, 1, 2, 3][shape]]

    def kd(x, p):
        r = rr(x, p)
        d = np.abs(r)                    # the centre itself
        for k in ks:
            d = np.minimum(d, np.abs(r - k))
        return d * min(abs(q) for q in p[3:5])
    shp = rng.choice(["int", "str"])
    arg = shape if shp == "int" else {1: "circular", 2: "elliptic", 3: "Rotated"}[shape]
    return Spec("Kernel2d(%s,%d)" % (name, shape), lambda **kw: bf.Kernel2dModel(kernel=mk(), shape=arg, **kw),
                lambda x, p: p[0] * f0(rr(x, p)), p, x2(), ndim=2, kinks=kd)


def polysurface(rng):
    d = int(rng.integers(0, 5))

    def f(x, p):
        n = 0
        r = np.zeros(len(x))
        for deg in range(d + 1):
            for i in range(deg + 1):
                r = r + p[n] * x[:, 0] ** (deg - i) * x[:, 1] ** i
                n += 1
        return r
    return Spec("PolySurface(%d)" % d, lambda **kw: bf.PolySurfaceModel(d, **kw), f,
                U(rng, -1, 1, (d + 1) * (d + 2) // 2), x2(-1.5, 1.5), ndim=2, linear=True)


def polysineamp(rng):
    d = int(rng.integers(0, 4))
    fr = U(rng, 0.1, 1)

    def f(x, p):
        a = 2 * np.pi * fr * x[:, 0]
        pc = sum(p[k] * x[:, 1] ** k for k in range(d + 1))
        ps = sum(p[d + 1 + k] * x[:, 1] ** k for k in range(d + 1))
        return pc * np.cos(a) + ps * np.sin(a)
    return Spec("PolySineAmp(%d)" % d, lambda **kw: bf.PolySineAmpModel(d, fr, **kw), f,
                U(rng, -1, 1, 2 * d + 2), x2(), ndim=2, linear=True, fixable=False)


def surfacesplines(rng):
    o = [int(rng.integers(1, 4)) for _ in range(2)]
    n = [int(rng.integers(2, 5)) for _ in range(2)]
    kn = [knots_for(rng, k, -2, 2) for k in n]
    if rng.random() < 0.4:
        o = [o[0], o[0]]
        oarg = o[0]
    else:
        oarg = list(o)
    np_ = (n[0] + o[0] - 1) * (n[1] + o[1] - 1)

    def f(x, p):
        b0 = spline_basis(x[:, 0], kn[0], o[0])
        b1 = spline_basis(x[:, 1], kn[1], o[1])
        return np.einsum("ni,nj,ij->n", b0, b1, p.reshape(b0.shape[1], b1.shape[1]))
    return Spec("SurfaceSplines(%s,%s)" % (o, n), lambda **kw: bf.SurfaceSplinesModel(kn, order=oarg, **kw), f,
                U(rng, -1, 1, np_), x2(), ndim=2, linear=True, fixable=False, deriv=False,
                kinks=lambda x, p: np.min([np.abs(x[:, i] - t) for i in range(2) for t in kn[i]], axis=0))


def product(rng):
    nf = int(rng.choice([2, 2, 3, 4]))

    def sub():
        while True:
            s = SIMPLE1D[int(rng.integers(len(SIMPLE1D)))](rng)
            if s.x(np.random.default_rng(0), 5).min() <= -0.9:
                return s
    subs = [sub() for _ in range(nf)]
    at = np.concatenate([[0], np.cumsum([len(s.p) for s in subs])])

    def f(x, p):
        r = np.ones(len(x))
        for k, s in enumerate(subs):
            r = r * s.ref(x[:, k], p[at[k]:at[k + 1]])
        return r

    def xs(r, n):
        return r.uniform(-0.9, 0.9, (n, nf))

    def kk(x, p):
        d = np.full(len(x), 10.0)
        for k, s in enumerate(subs):
            if s.kinks is not None:
                d = np.minimum(d, s.kinks(x[:, k], p[at[k]:at[k + 1]]))
        return d
    return Spec("Product(%s)" % ",".join(s.klass for s in subs),
                lambda **kw: bf.ProductModel([s.make() for s in subs], **kw), f,
                np.concatenate([s.p for s in subs]), xs, ndim=nf, fixable=False, klass="Product",
                deriv=False, kinks=kk)


def football(rng):
    nt = int(rng.integers(3, 6))
    c = int(rng.integers(1, 6))

    def f(x, p):
        q = np.array([1.0, 0.0, 1.0, 1.0, 1.0]) * np.ones((nt, 1))
        q[:, :c] = p.reshape(nt, c)
        h = q[x[:, 0]]
        a = q[x[:, 1]]
        m = h[:, 2] * h[:, 3] / a[:, 2]
        if c < 4:
            m = h[:, 2] / a[:, 2]
        s1 = h[:, 0] * np.sqrt(m * h[:, 4]) * (1 - a[:, 1] ** (m * a[:, 4]))
        s2 = a[:, 0] * np.sqrt(a[:, 4] / m) * (1 - h[:, 1] ** (h[:, 4] / m))
        return np.array([s1, s2]).T

    def xs(rng, n):
        h = rng.integers(0, nt, n)
        a = (h + rng.integers(1, nt, n)) % nt
        return np.array([h, a]).T
    p = np.array([[U(rng, 0.5, 4), U(rng, 0.1, 0.9), U(rng, 0.3, 1.7), U(rng, 0.3, 1.7), U(rng, 0.3, 1.7)][:c]
                  for _ in range(nt)]).reshape(-1)
    return Spec("Football(%d,c%d)" % (nt, c), lambda **kw: bf.FootballModel(nt, complexity=c, **kw), f, p, xs,
                ndim=2, ndout=2, fixable=False, deriv=False)


SIMPLE1D = [polynomial, chebyshev, power, powerlaw, exp, gauss, lorentz, voigt, pseudovoigt, arctan, logistic,
            sine, sineamp, sinedrift, harmonic, pade, etalon, kernelmodel, sinc, splines]
SPLINES = [splines, basicsplines, bsplines, sinespline, sinesplinedrift]
MORE1D = [basicsplines, bsplines, sinespline, sinesplinedrift, freeshape, radialvelocity]
TWOD = [etalondrift, kernel2d, polysurface, polysineamp, surfacesplines, product]
MULTI = [stellarorbit, softmax, football]
ALL = SIMPLE1D + MORE1D + TWOD + MULTI

# smooth, everywhere defined models that may be chained freely
CHAINABLE = [polynomial, chebyshev, exp, gauss, lorentz, arctan, logistic, sine, sineamp, sinedrift, harmonic, etalon,
             voigt, pseudovoigt, sinc]


def freeparams(spec, fixed):
    """ parameters left after fixing with constants """
    return np.array([v for k, v in enumerate(spec.p) if k not in fixed])


# ------------------------------------------------------------------ substitution of parameters
def fix(spec, fixed, label=None):
    """
    A new Spec in which the parameters in fixed ( index : constant or Spec ) are substituted.
    Parameters of Specs are appended at the end, in the order of the dictionary.
    """
    np_ = len(spec.p)
    norm = {(k + np_ if k < 0 else k): v for k, v in fixed.items()}
    free = [k for k in range(np_) if k not in norm]
    mods = [(k, v) for k, v in norm.items() if isinstance(v, Spec)]
    p = [spec.p[k] for k in free]
    for k, v in mods:
        p += list(v.p)

    def ref(x, q):
        full = [None] * np_
        for i, k in enumerate(free):
            full[k] = q[i]
        at = len(free)
        for k, v in mods:
            full[k] = v.ref(x, q[at:at + len(v.p)])
            at += len(v.p)
        for k, v in norm.items():
            if full[k] is None:
                full[k] = v
        if mods:
            return spec.ref(x, full)
        return spec.ref(x, np.array(full, dtype=float))

    def make(**kw):
        f = {k: (v.make() if isinstance(v, Spec) else v) for k, v in fixed.items()}
        return spec.make(fixed=f, **kw)
    kk = None
    if spec.kinks is not None:
        def kk(x, q):
            full = [None] * np_
            for i, k in enumerate(free):
                full[k] = q[i]
            for k, v in norm.items():
                full[k] = v.ref(x, v.p) if isinstance(v, Spec) else v
            return spec.kinks(x, full)
    s = Spec("%s[%s]" % (spec.name, ",".join("%d=%s" % (k, v.name if isinstance(v, Spec) else "%.3g" % v)
                                             for k, v in fixed.items())),
             make, ref, p, spec.x, ndim=spec.ndim, ndout=spec.ndout, kinks=kk, rtol=spec.rtol, klass=spec.klass,
             linear=spec.linear and not mods, deriv=spec.deriv)
    s.free = free
    s.mods = mods
    return s


def plainspec(spec):
    """ take care of parameters that a model fixes by default """
    d = getattr(spec, "defaultfix", None)
    if not d:
        return spec
    s = fix(spec, d)
    s.make = spec.make
    s.name = spec.name
    s.fixable = False
    return s


def whole_inputs(sp, rng, n):
    """ n whole numbers in the domain of the inputs, as integers; or None when there are none """
    x = np.asarray(sp.x(rng, 60), dtype=float)
    lo, hi = np.ceil(x.min(axis=0)).astype(int), np.floor(x.max(axis=0)).astype(int)
    if np.any(hi < lo):
        return None
    return rng.integers(lo, hi + 1, size=(n,) + x.shape[1:])


def whole(op, method, require="whole"):
    """ case: the result of whole numbers does not depend on whether they are stored as integers or floats """
    def fn(mon, rng, idx):
        sp = ALL[idx % len(ALL)](rng)
        if method == "partial" and not sp.partial or method == "derivative" and not sp.deriv:
            return
        if np.asarray(sp.x(rng, 2)).dtype.kind != "f":
            return                      # inputs that are indices
        x = whole_inputs(sp, rng, int(rng.integers(1, 12)))
        if x is None:
            return
        m = sp.make()
        p = freeparams(sp, getattr(sp, "defaultfix", {}))
        want = getattr(m, method)(x.astype(float), p)
        keep = x.copy()
        with mon.guarded("whole-numbers:" + sp.klass, spec=sp.name):
            form = str(rng.choice(["int", "int32", "list", "float32"]))
            xi = {"int": x, "int32": x.astype(np.int32), "list": x.tolist(), "float32": x.astype(np.float32)}[form]
            got = getattr(m, method)(xi, p)
            tol = 1e-9 if form != "float32" else 1e-3
            want, got = np.asarray(want, dtype=float), np.asarray(got, dtype=float)
            fine = np.isfinite(want)
            if sp.kinks is not None and form == "float32":
                fine &= (sp.kinks(x.astype(float), sp.p) > 1e-5).reshape((-1,) + (1,) * (want.ndim - 1))
            if got.shape != want.shape:
                mon.violate("whole-numbers:" + sp.klass, "shape %s %s" % (got.shape, want.shape), spec=sp.name)
            elif np.any(fine):
                mon.close(got[fine], want[fine], "whole-numbers:" + sp.klass, rtol=tol, atol=tol * (1 + np.max(np.abs(want[fine]))),
                          spec=sp.name, p=p, x=keep, form=form)
        mon.expect(np.array_equal(x, keep), "whole-numbers-changed:" + sp.klass, spec=sp.name)
        mon.count(require)
        mon.state("whole", sp.name, form)
    return fn


def faraway(op, method):
    """ case: far away from where something happens value, partials and derivative are (still) finite, and the value is right """
    far = [arctan, gauss, lorentz, logistic, softmax, voigt, pseudovoigt, etalon, kernelmodel, sine, pade, product]

    def fn(mon, rng, idx):
        sp = far[idx % len(far)](rng)
        m = sp.make()
        p = freeparams(sp, getattr(sp, "defaultfix", {}))
        x = np.asarray(sp.x(rng, 8), dtype=float) * float(rng.choice([30, 1e3, 1e5]))
        with np.errstate(all="ignore"):
            want = np.asarray(sp.ref(x, sp.p), dtype=float)
            if not np.all(np.isfinite(want)):
                return
            with mon.guarded("faraway:" + sp.klass, spec=sp.name):
                got = np.asarray(getattr(m, method)(x, p), dtype=float)
                if method == "result":
                    mon.close(got, want, "faraway:" + sp.klass, rtol=1e-6, atol=1e-6 * (1 + np.max(np.abs(want))), spec=sp.name, p=p, x=x)
                else:
                    mon.expect(np.all(np.isfinite(got)), "faraway:" + sp.klass, "%s" % got.reshape(-1)[:10], spec=sp.name, p=p, x=x)
        mon.count("faraway")
        mon.state("faraway", sp.name)
    return fn
