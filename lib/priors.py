"""Random priors, each with a reference distribution (scipy.stats)."""
import math
import numpy as np
from scipy import stats
import BayesicFitting as bf

KINDS = ["Uniform", "Jeffreys", "Gauss", "Cauchy", "Laplace", "Exponential"]
HOW = ["ctor", "later", "attributes", "twice", "copy", "model", "scale-after", "unset"]


class Ref(object):
    """ reference : distribution function, density; truncated to limits """

    def __init__(self, kind, center, scale, lo, hi):
        self.kind, self.center, self.scale = kind, center, scale
        self.dom = {"Jeffreys": (0.0, math.inf), "Exponential": (0.0, math.inf)}.get(kind, (-math.inf, math.inf))
        self.lo = self.dom[0] if lo is None else lo
        self.hi = self.dom[1] if hi is None else hi
        self.proper = kind not in ("Uniform", "Jeffreys") or (math.isfinite(self.lo) and math.isfinite(self.hi)
                                                             and (kind == "Uniform" or self.lo > 0))
        self.limited = (self.lo > self.dom[0], self.hi < self.dom[1])
        if not self.proper:
            return
        d = {"Uniform": lambda: stats.uniform(self.lo, self.hi - self.lo),
             "Jeffreys": lambda: stats.loguniform(self.lo, self.hi),
             "Gauss": lambda: stats.norm(center, scale),
             "Cauchy": lambda: stats.cauchy(center, scale),
             "Laplace": lambda: stats.laplace(center, scale),
             "Exponential": lambda: stats.expon(0, scale)}[kind]()
        self.d = d
        self.fl, self.fh = float(d.cdf(self.lo)), float(d.cdf(self.hi))
        self.mass = self.fh - self.fl

    def cdf(self, x):
        return (self.d.cdf(x) - self.fl) / self.mass

    def ppf(self, u):
        return self.d.ppf(self.fl + np.asarray(u) * self.mass)

    def pdf(self, x):
        x = np.asarray(x, dtype=float)
        return np.where((x >= self.lo) & (x <= self.hi), self.d.pdf(x) / self.mass, 0.0)

    def logpdf(self, x):
        return self.d.logpdf(x) - math.log(self.mass)

    def dlog(self, x):
        """ derivative of the log of the density """
        z = (x - self.center) / self.scale
        return {"Uniform": lambda: 0.0, "Jeffreys": lambda: -1.0 / x, "Gauss": lambda: -z / self.scale,
                "Cauchy": lambda: -2 * z / self.scale / (1 + z * z), "Laplace": lambda: -np.sign(z) / self.scale,
                "Exponential": lambda: -1.0 / self.scale}[self.kind]()

    def integral(self):
        """ total of the unnormalised prior """
        if self.kind == "Uniform":
            return self.hi - self.lo
        if self.kind == "Jeffreys":
            return math.log(self.hi / self.lo)
        return 1.0


def limits_for(rng, kind, center, scale, form=None):
    """ random limits; None for those that are absent """
    form = int(rng.integers(4)) if form is None else form      # 0: none 1: low 2: high 3: both
    if kind in ("Uniform", "Jeffreys"):
        form = 3
    if kind == "Uniform":
        lo = float(rng.uniform(-50, 50)) if rng.random() < 0.7 else float(rng.integers(-5, 5))
        return lo, lo + float(10 ** rng.uniform(-2, 3))
    if kind == "Jeffreys":
        lo = float(10 ** rng.uniform(-4, 2))
        return lo, lo * float(10 ** rng.uniform(0.05, 4))
    while True:
        if kind == "Exponential":
            a, b = np.sort(rng.uniform(0.05, 4.0, 2)) * scale
        else:
            a, b = np.sort(rng.uniform(-2.5, 2.5, 2)) * scale + center
        if b - a > 0.1 * scale:
            break
    if rng.random() < 0.15 and form in (1, 2):
        a = b = center + (0.0 if kind != "Exponential" else scale)
    return (float(a) if form & 1 else None), (float(b) if form & 2 else None)


def construct(kind, center, scale, limits=None, **kw):
    if kind == "Uniform":
        return bf.UniformPrior(limits=limits, **kw)
    if kind == "Jeffreys":
        return bf.JeffreysPrior(limits=limits, **kw)
    if kind == "Exponential":
        if limits is None:
            return bf.ExponentialPrior(scale=scale)
        p = bf.ExponentialPrior(scale=scale) if limits[1] is None else bf.ExponentialPrior(scale=scale, hilimit=limits[1])
        if limits[0] is not None:
            p.setLimits(limits)
        return p
    return {"Gauss": bf.GaussPrior, "Cauchy": bf.CauchyPrior, "Laplace": bf.LaplacePrior}[kind](
        center=center, scale=scale, limits=limits, **kw)


def random_prior(rng, kind=None, how=None):
    """ returns prior, reference, description, way it was made """
    kind = str(rng.choice(KINDS)) if kind is None else kind
    how = str(rng.choice(HOW)) if how is None else how
    center = float(rng.uniform(-5, 5)) if rng.random() < 0.8 else 0.0
    scale = float(10 ** rng.uniform(-1.5, 2)) if rng.random() < 0.9 else 1.0
    if kind == "Exponential":
        center = 0.0
    lo, hi = limits_for(rng, kind, center, scale)
    lim = None if lo is None and hi is None else [lo, hi]
    inner = how
    copied = how == "copy"
    if copied:
        inner = str(rng.choice(["ctor", "later", "attributes", "twice", "scale-after"]))
    scaled = kind not in ("Uniform", "Jeffreys")
    if inner == "ctor" or (inner == "scale-after" and not scaled):
        p = construct(kind, center, scale, lim)
    elif inner == "later":
        p = construct(kind, center, scale)
        if lim is not None:
            p.setLimits(lim)
    elif inner == "attributes":
        if scaled:
            p = construct(kind, center, 1.7 * scale)
            kw = {"scale": scale}
        else:
            p = construct(kind, center, scale)
            kw = {}
        if lim is not None:
            kw["limits"] = lim
        p.setAttributes(**kw)
    elif inner == "twice":
        l2 = limits_for(rng, kind, center, scale, 3)
        p = construct(kind, center, scale, list(l2))
        p.setLimits(lim)
    elif inner == "scale-after":
        c0 = center if kind == "Exponential" or rng.random() < 0.5 else center + float(rng.uniform(-1, 1)) * scale
        p = construct(kind, c0, scale if c0 != center else 1.3 * scale, lim)
        if c0 != center:
            p.center = center
        else:
            p.scale = scale
    elif inner == "unset":
        l2 = limits_for(rng, kind, center, scale, 3)
        p = construct(kind, center, scale, list(l2))
        p.unsetLimits()
        if kind in ("Uniform", "Jeffreys"):
            p.setLimits(lim)
        else:
            lo = hi = None
    elif inner == "model":
        m = bf.PolynomialModel(0)
        p = construct(kind, center, scale)
        if lim is None:
            m.setPrior(0, prior=p)
        else:
            m.setPrior(0, prior=p, limits=lim)
        p = m.getPrior(0)
    if copied:
        p = p.copy()
    ref = Ref(kind, center, scale, lo, hi)
    text = "%s(center=%.3g,scale=%.3g,limits=%s) by %s%s" % (kind, center, scale, lim, how, ":" + inner if copied else "")
    return p, ref, text, how


def random_circular(rng):
    """ returns prior, reference over one period, description """
    kind = str(rng.choice(["Uniform", "Gauss", "Cauchy", "Laplace", "CircularUniform"]))
    center = float(rng.uniform(-5, 5))
    scale = float(10 ** rng.uniform(-1, 1))
    period = scale * float(rng.uniform(0.5, 5))
    form = str(rng.choice(["period", "limits", "limits-later"]))
    if form == "limits-later" and kind not in ("Uniform", "CircularUniform"):
        form = "limits"
    lo, hi = center - period / 2, center + period / 2
    if kind in ("Uniform", "CircularUniform"):
        cls = bf.UniformPrior if kind == "Uniform" else bf.CircularUniformPrior
        if form == "period":
            p = cls(circular=period)
            lo, hi = 0.0, period
        elif form == "limits":
            p = cls(circular=True, limits=[lo, hi])
        else:
            p = cls(circular=True, limits=[lo - 1.3, hi + 2.1]) if rng.random() < 0.5 else cls(circular=period + 1.0)
            p.setLimits([lo, hi])
        ref = Ref("Uniform", 0, 1, lo, hi)
    else:
        if form == "limits" and rng.random() < 0.4:
            # the center follows from the limits when it is not given
            kw = {}
        else:
            kw = {"center": center}
        cls = {"Gauss": bf.GaussPrior, "Cauchy": bf.CauchyPrior, "Laplace": bf.LaplacePrior}[kind]
        if form == "period":
            p = cls(scale=scale, circular=period, **kw)
        else:
            p = cls(scale=scale, circular=True, limits=[lo, hi], **kw)
        ref = Ref(kind, center, scale, lo, hi)
    copied = rng.random() < 0.4
    if copied:
        p = p.copy()
    return p, ref, "circular %s(center=%.3g,scale=%.3g,%s, period=%.3g)%s" % (kind, center, scale, form, period,
                                                                            " copied" if copied else ""), kind + "/" + form
