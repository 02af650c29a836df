"""C01  Every built-in model returns the documented function of x and the parameters."""
import warnings
import numpy as np
import BayesicFitting as bf
import zoo
import wrap
from wrapcase import wrapped
import util
from harness import Case

RULE = ("distinct = (model configuration, nr of data points, container) for which the value "
        "returned by the real model was compared with an independent formula")
ASSUMPTIONS = ["parameters inside the documented domain of each model",
               "reference formulas are written from the documentation with numpy/scipy.special/scipy.interpolate",
               "tolerances: 1e-9 .. 1e-6 relative to the size of the function values"]
REQUIRE = {"whole": 100, "values": 20000, "pointwise": 200, "begins": 60, "parameter-count": 200}


def one(entry):
    def fn(mon, rng, idx):
        sp = entry(rng)
        fixed = getattr(sp, "defaultfix", {})
        p = zoo.freeparams(sp, fixed)
        with mon.guarded("construct:" + sp.klass, spec=sp.name):
            m = sp.make()
            mon.expect(m.npars == len(p), "nparams:" + sp.klass, spec=sp.name, got=m.npars, want=len(p))
            mon.expect(m.ndim == sp.ndim and m.ndout == sp.ndout, "dims:" + sp.klass, spec=sp.name)
            mon.count("parameter-count")
        for n in (1, int(rng.integers(2, 5)), int(rng.integers(20, 60))):
            x = sp.x(rng, n)
            if n > 1 and rng.random() < 0.5:
                x = x[rng.permutation(n)]
            want = sp.ref(x, sp.p)
            scale = 1.0 + np.max(np.abs(want))
            ok = np.ones(n, dtype=bool)
            if sp.kinks is not None:
                ok = sp.kinks(x, sp.p) > 1e-7
            cont = ["array", "call", "list", "copy"][int(rng.integers(4))]
            with mon.guarded("result:" + sp.klass, spec=sp.name, n=n):
                if cont == "call":
                    m.parameters = p.copy()
                    got = m(x)
                elif cont == "list":
                    got = m.result(x.tolist(), p.copy())
                elif cont == "copy":
                    got = m.copy().result(x, p.copy())
                else:
                    got = m.result(x, p.copy())
                got = np.asarray(got, dtype=float)
                d = got[ok] - want[ok] if got.shape == want.shape else np.array([np.inf])
                if sp.klass.startswith("StellarOrbit") and "sph=True" in sp.name and got.shape == want.shape:
                    d[:, 1] = util.angdiff(d[:, 1])
                tol = max(sp.rtol, 1e-9) * scale
                mon.expect(got.shape == want.shape and np.all(np.abs(d) <= tol), "value:" + sp.klass,
                           "max difference %s, scale %s" % (np.max(np.abs(d)) if d.size else 0, scale),
                           spec=sp.name, p=sp.p, x=x, got=got, want=want)
                mon.count("values", n)
                mon.state(sp.name, n, cont)
                if n > 4:
                    # the value at a point does not depend on which other points are asked for
                    k = int(rng.integers(n))
                    g1 = np.asarray(m.result(x[k:k + 1], p.copy()), dtype=float)
                    mon.close(g1[0], got[k], "pointwise:" + sp.klass, rtol=0, atol=max(sp.rtol, 1e-9) * scale,
                              spec=sp.name, p=sp.p, x=x[k:k + 1])
                    mon.count("pointwise")
        mon.sample("%s compared at 3 sizes" % sp.name, p=sp.p)
    return fn


def begin():
    kn = np.linspace(0, 1, 4)
    pi = np.pi
    yield "Arctan", bf.ArctanModel, {}, [2 / pi, 0, 1]
    yield "Etalon", bf.EtalonModel, {}, [1, 1, 1, 0]
    yield "EtalonDrift", bf.EtalonDriftModel, {}, [1, 1, 1, 0, 0]
    yield "Exp", bf.ExpModel, {}, [1, -1]
    yield "Exp(decay)", bf.ExpModel, dict(decay=True), [1, 1]
    yield "FreeShape", bf.FreeShapeModel, dict(npix=5), [0] * 5
    yield "Gauss", bf.GaussModel, {}, [1, 0, 1]
    yield "Logistic", bf.LogisticModel, {}, [1, 0, 1]
    yield "Lorentz", bf.LorentzModel, {}, [1 / pi, 0, 1]
    yield "Pade", bf.PadeModel, dict(num=2, den=1), [0] * 4
    yield "Pade", bf.PadeModel, dict(num=1, den=3), [0] * 5
    yield "PowerLaw", bf.PowerLawModel, {}, [1, 0, 1]
    yield "PseudoVoigt", bf.PseudoVoigtModel, {}, [1, 0, 1, 0.5]
    yield "RadialVelocity", bf.RadialVelocityModel, {}, [0, 1, 1, 0, 0]
    yield "Sinc", bf.SincModel, {}, [1, 0, 1]
    yield "Sine", bf.SineModel, {}, [1, 1, 1]
    yield "Sine(phase)", bf.SineModel, dict(phase=True), [1, 1, 0]
    yield "SineDrift", bf.SineDriftModel, {}, [1, 1, 1, 0]
    yield "SoftMax", bf.SoftMaxModel, dict(ndim=2, ndout=3), [1] * 6
    yield "SoftMax(offset)", bf.SoftMaxModel, dict(ndim=2, ndout=3, offset=True), [1] * 6 + [0] * 3
    yield "StellarOrbit", bf.StellarOrbitModel, {}, [0, 1, 1, 0, 0, 0, 0]
    yield "Voigt", bf.VoigtModel, {}, [1, 0, 1, 1]
    yield "DecisionTree", bf.DecisionTreeModel, {}, [0]
    yield "Polynomial", bf.PolynomialModel, dict(degree=3), [0] * 4
    yield "Chebyshev", bf.ChebyshevPolynomialModel, dict(degree=3), [0] * 4
    yield "Splines", bf.SplinesModel, dict(knots=kn), [0] * 6
    yield "BSplines", bf.BSplinesModel, dict(knots=kn), [0] * 6
    for k in (bf.Gauss, bf.Lorentz, bf.Biweight, bf.Tricube, bf.CosSquare, bf.Cosine, bf.Parabola, bf.Triangle,
              bf.Uniform, bf.Huber, bf.Sinc, bf.Triweight):
        yield "Kernel", bf.KernelModel, dict(kernel=k()), None
    for n in range(7):
        yield "Kernel", bf.KernelModel, dict(kernel=bf.Tophat(n)), None


BEGIN = list(begin())


def begins(mon, rng, idx):
    """ the parameters a model starts with, whatever was done to earlier ones """
    from scipy.integrate import quad
    name, cls, kw, want = BEGIN[idx % len(BEGIN)]
    with mon.guarded("begin:" + name):
        first = cls(**kw)
        if want is not None:
            mon.close(first.parameters, want, "begin:" + name, rtol=1e-12, atol=1e-12)
        elif np.isfinite(kw["kernel"].integral):
            # a kernel model of which the integral is 1
            p = np.asarray(first.parameters, dtype=float)
            mon.close(p[1:], [0, 1], "begin:" + name, atol=1e-12)
            mon.close(p[0] * kw["kernel"].integral, 1.0, "begin-integral:" + name, rtol=1e-8, kernel=str(kw["kernel"]))
            if not kw["kernel"].name().startswith(("Sinc", "Lorentz")):
                r = min(float(kw["kernel"].range), 40.0)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tot = sum(quad(lambda u: float(first.result(np.array([u]), first.parameters)[0]), a, b, limit=200)[0]
                              for a, b in zip(np.linspace(-r, r, 13)[:-1], np.linspace(-r, r, 13)[1:]))
                mon.close(tot, 1.0, "begin-integral:" + name, rtol=1e-5, kernel=str(kw["kernel"]))
        keep = np.array(first.parameters, dtype=float)
        first.parameters[:] = rng.uniform(1, 2, first.npars)        # in place
        if first.ndim == 1 and first.ndout == 1 and rng.random() < 0.5:
            first += bf.PolynomialModel(1)
        second = cls(**kw)
        mon.close(second.parameters, keep, "begin-again:" + name, rtol=1e-14)
        mon.expect(second.npars == len(keep), "begin-again:" + name)
        mon.count("begins")
        mon.state("begin", name, str(sorted(kw)))


CASES = [Case(e.__name__, one(e), quick=40 if e not in (zoo.kernel2d, zoo.kernelmodel) else 120, thorough=600,
              chunk=20) for e in zoo.ALL]
CASES.append(Case("begins", begins, quick=2 * len(BEGIN), thorough=6 * len(BEGIN), chunk=10))
CASES.append(Case("whole", zoo.whole("value", "result"), quick=280, thorough=4000, chunk=20))
CASES.append(Case("faraway", zoo.faraway("value", "result"), quick=120, thorough=1500, chunk=20))
CASES += [Case("wrap-" + e.__name__, wrapped(e), quick=60, thorough=600, chunk=20) for e in wrap.WRAP]
