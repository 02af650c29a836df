"""Random nested sampling problems; observers of what the engines do."""
import math
import numpy as np
import BayesicFitting as bf
import errdis

ENGINES = {"galilean": bf.GalileanEngine, "chord": bf.ChordEngine, "gibbs": bf.GibbsEngine, "step": bf.StepEngine}
try:
    from BayesicFitting import RandomEngine
except ImportError:
    from BayesicFitting.source.RandomEngine import RandomEngine
ALL = dict(ENGINES, random=RandomEngine)
# parameters of the models in errdis that have to be positive
POSITIVE = {"gauss+poly": [2], "sine": [], "arctan": [], "gauss": [2], "exp": [0], "gauss+const": [0, 2, 3], "logistic": [],
            "orbit": [0, 1, 2], "poly*exp": []}


class Run(object):
    pass


def bounds(rng, p, positive, narrow=False):
    w = float(rng.uniform(0.3, 0.8) if narrow else rng.uniform(0.8, 4.0))
    if positive:
        return p / (1 + w), p * (1 + w)
    c = p + w * float(rng.uniform(-0.6, 0.6))
    return c - w, c + w


def set_priors(rng, name, m, p, uniform=False):
    """ a prior for every parameter; returns [(kind, lo, hi, text)] """
    spec = []
    for k in range(len(p)):
        pos = k in POSITIVE.get(name, [])
        lo, hi = bounds(rng, float(p[k]), pos, narrow=name in ("orbit", "gauss+const", "exp"))
        if name == "orbit":
            if k == 0:
                lo, hi = 0.02, 0.9
            elif k in (3, 5, 6):
                lo, hi = max(0.0, lo), min(2 * math.pi, hi)       # phases: the residuals are corrected for one turn
        lo0, hi0 = lo, hi
        form = 0 if uniform or name == "orbit" else int(rng.choice([0, 0, 0, 1, 2, 3, 4, 5]))
        if form in (3, 4) and not pos:
            form = 1
        if pos and form in (1, 2):
            form = 0
        if form == 0:
            pr = bf.UniformPrior(limits=[lo, hi])
        elif form == 1:
            pr, lo, hi = bf.GaussPrior(center=0.5 * (lo + hi), scale=0.5 * (hi - lo)), -math.inf, math.inf
        elif form == 2:
            pr, lo, hi = bf.GaussPrior(center=lo, scale=hi - lo, limits=[lo, None]), lo, math.inf
        elif form == 3:
            pr = bf.JeffreysPrior(limits=[lo, hi])
        elif form == 4:
            pr, lo, hi = bf.ExponentialPrior(scale=hi), 0.0, math.inf
        else:
            pr = bf.LaplacePrior(center=0.5 * (lo + hi), scale=0.5 * (hi - lo), limits=[lo, hi])
        m.setPrior(k, prior=pr)
        spec.append((form, lo, hi, lo0, hi0))
    return spec


def prior_draw(rng, v, n):
    """ n draws from the prior of specification v, made without the package """
    form, lo, hi, a, b = v
    if form == 0:
        return rng.uniform(a, b, n)
    if form == 1:
        return rng.normal(0.5 * (a + b), 0.5 * (b - a), n)
    if form == 2:
        return a + np.abs(rng.normal(0, b - a, n))          # a gauss centered on its own low limit
    if form == 3:
        return np.exp(rng.uniform(np.log(a), np.log(b), n))
    if form == 4:
        return rng.exponential(b, n)
    u = rng.uniform(-1, 1, n)                               # laplace, limited at two scales from the center
    return 0.5 * (a + b) - np.sign(u) * 0.5 * (b - a) * np.log(1 - np.abs(u) * (1 - math.exp(-1)))


def hyper_draw(rng, r, n):
    """ Jeffreys for scales and uniform for power and fraction """
    out = []
    for k in range(r.nhyp):
        kk = r.npars + k
        if k not in r.free:
            out.append(np.full(n, r.start[k]))
        elif (r.kind == "exponential" and k == 1):
            out.append(np.exp(rng.uniform(np.log(r.lo[kk]), np.log(r.hi[kk]), n)))
        elif r.kind == "mixed" and k == r.nhyp - 1:
            out.append(rng.uniform(r.lo[kk], r.hi[kk], n))
        else:
            out.append(np.exp(rng.uniform(np.log(r.lo[kk]), np.log(r.hi[kk]), n)))
    return out


def make(rng, kind=None, small=False, uniform=False, nofree=False):
    """ a random problem with an error distribution and priors
    r.problem, r.errdis, r.ref( allpars ) -> log likelihood, r.box lower and upper per (hyper)parameter,
    r.free : indices of fitted hyperparameters counted from the start """
    if kind is None:
        kind = str(rng.choice(["gauss"] * 6 + ["laplace", "cauchy", "uniform", "exponential", "poisson", "bernoulli", "mixed",
                                               "gauss2d"]))
    fit = (not nofree) and rng.random() < 0.5 and kind not in ("poisson", "bernoulli")
    forms = {}
    if kind in ("laplace", "cauchy", "uniform", "exponential", "mixed") and fit:
        forms["accuracy"] = 0                    # documented: accuracies and a variable scale exclude each other
    if kind == "mixed":
        forms["mixed"] = [str(rng.choice(["gauss", "laplace", "cauchy"])) for k in range(2)]
    while True:
        s = errdis.make(rng, kind, forms)
        if kind == "gauss2d" and len(s.y) > 8:
            continue
        if small and s.model.npars > 3:
            continue
        break
    r = Run()
    r.kind, r.s, r.problem, r.model = kind, s, s.problem, s.model
    r.name = s.form[1] if kind != "mixed" else s.form[1]
    nm = s.model.npars
    r.nm, r.npars, r.nhyp = nm, s.npars, s.nhyp
    spec = set_priors(rng, r.name, s.model, s.params[:nm], uniform=uniform)
    lo = [v[1] for v in spec] + [-math.inf] * (s.npars - nm)
    hi = [v[2] for v in spec] + [math.inf] * (s.npars - nm)
    r.spec = spec
    r.forms = tuple(v[0] for v in spec)
    scale = float(np.exp(rng.uniform(-0.7, 0.9)))
    if kind == "uniform":
        scale = 60.0
    lim = [float(scale * rng.uniform(0.05, 0.5)), float(scale * rng.uniform(2, 20))]
    r.free = []
    if kind == "exponential":
        power = float(rng.uniform(1.05, 4))
        if fit:
            lims = [[lim[0], 0.6], [lim[1], 4.5]]
            r.errdis = bf.ExponentialErrorDistribution(scale=scale, power=power, limits=lims)
            r.free = [0, 1]
            lo += lims[0]; hi += lims[1]
        else:
            r.errdis = bf.ExponentialErrorDistribution(scale=scale, power=power)
            lo += [scale, power]; hi += [scale, power]
        r.start = [scale, power]
    elif kind == "mixed":
        f = float(rng.uniform(0.1, 0.9))
        s2 = 3 * scale
        cl = [errdis.CLASS[k] for k in s.kinds]
        if fit:
            lim2 = [2 * v for v in lim]
            fl = [0.05, 0.95]
            r.errdis = bf.MixedErrorDistribution(cl[0](scale=scale, limits=lim), cl[1](scale=s2, limits=lim2), fraction=f, limits=fl)
            r.free = [0, 1, 2]
            lo += [lim[0], lim2[0], fl[0]]; hi += [lim[1], lim2[1], fl[1]]
        else:
            r.errdis = bf.MixedErrorDistribution(cl[0](scale=scale), cl[1](scale=s2), fraction=f)
            lo += [scale, s2, f]; hi += [scale, s2, f]
        r.start = [scale, s2, f]
    elif s.nhyp == 0:
        r.errdis = errdis.CLASS[kind]()
        r.start = []
    else:
        hasacc = s.problem.hasAccuracy
        if fit:
            r.errdis = errdis.CLASS[kind](scale=scale, limits=lim)
            r.free = [0]
            lo += [lim[0]]; hi += [lim[1]]
            r.start = [scale]
        else:
            r.errdis = errdis.CLASS[kind](scale=scale)
            r.start = [0.0 if hasacc else scale]          # documented: with accuracies the (model) scale is fixed at 0
            lo += r.start; hi += r.start
    if s.problem.hasAccuracy and s.nhyp and 0 not in r.free:
        lo[s.npars] = hi[s.npars] = r.start[0] = 0.0       # with accuracies the (model) scale is fixed at 0
    r.lo, r.hi = np.array(lo, dtype=float), np.array(hi, dtype=float)
    r.fixed = {s.npars + k: r.start[k] for k in range(s.nhyp) if k not in r.free}
    r.ref = lambda q: float(np.sum(s.ref(np.asarray(q, dtype=float))))
    r.text = "%s, priors %s, free hyperparameters %s" % (s.text, list(r.forms), r.free)
    r.fitIndex = [k for k in range(s.npars)] + [k - s.nhyp for k in r.free]
    return r


def valid(mon, r, q, logL, tag, kept=None, low=None, **wit):
    """ the state of a walker or sample : in the domain, stored likelihood, unfitted values """
    q = np.asarray(q, dtype=float)
    if not mon.expect(len(q) == r.npars + r.nhyp, "length:" + tag, "%d parameters instead of %d" % (len(q), r.npars + r.nhyp), **wit):
        return False
    ok = mon.expect(bool(np.all(np.isfinite(q))), "finite:" + tag, "parameters %s" % q, **wit)
    if not ok:
        return False
    kept = kept or {}
    z = np.array([k not in kept for k in range(len(q))])
    tol = 1e-9 * (1 + np.abs(q))
    ok &= mon.expect(bool(np.all(((q >= r.lo - tol) & (q <= r.hi + tol))[z])), "domain:" + tag,
                     "outside its prior: %s not in %s %s" % (q, r.lo, r.hi), problem=r.text, **wit)
    want = r.ref(q)
    ok &= mon.close(logL, want, "likelihood:" + tag, rtol=1e-8, atol=1e-7, detail="stored log likelihood", problem=r.text, pars=q, **wit)
    fx = dict(r.fixed)
    fx.update(kept)
    for k in fx:
        ok &= mon.close(q[k], fx[k], "unfitted:" + tag, rtol=1e-12, detail="parameter %d is not fitted" % k, problem=r.text, **wit)
    if low is not None:
        ok &= mon.expect(logL >= low, "constraint:" + tag, "log likelihood %.10g below the constraint %.10g" % (logL, low),
                         problem=r.text, **wit)
    return ok


def snapshot(walkers):
    return [(id(w), w.id, np.array(w.allpars, dtype=float), float(w.logL), list(w.fitIndex)) for w in walkers]


def same(a, b):
    return a[1] == b[1] and len(a[2]) == len(b[2]) and bool(np.all(a[2] == b[2])) and a[3] == b[3] and a[4] == b[4]


def observed(cls, callback):
    """ the engine class with an observer around execute """
    class Observed(cls):
        def execute(self, kw, lowLhood, *args, **kwargs):
            before = snapshot(self.walkers)
            moves = super().execute(kw, lowLhood, *args, **kwargs)
            callback(self, int(kw), float(lowLhood), before, snapshot(self.walkers), moves, kwargs)
            return moves
    Observed.__name__ = cls.__name__
    return Observed
