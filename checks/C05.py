"""C05  Fixing a parameter with a constant or a model is substitution."""
import numpy as np
import BayesicFitting as bf
import zoo
import util
import expr
from harness import Case

RULE = ("distinct = (model, which parameters are fixed, by what kind) whose value, partials, derivative and names were "
        "compared with the substituted formula")
ASSUMPTIONS = ["points within 5e-3 of a kink are left out of derivative comparisons",
               "models put in place of a parameter stay close to the value of that parameter, in its domain"]
REQUIRE = {"const": 400, "model": 200, "negative-index": 50, "all-fixed": 20, "in-compound": 40, "copies": 80}


def poly(k, v, rng):
    s = zoo.Spec("Polynomial(1)", lambda **kw: bf.PolynomialModel(1, **kw), lambda x, p: p[0] + p[1] * x,
                 [v, 0.03 * v], None)
    return s


def wave(k, v, rng):
    def mk(**kw):
        m = bf.PolynomialModel(0)
        m += bf.SineModel()
        m.parameters = [v, 0.3, 0.02 * v, 0.03 * v]
        return m
    return zoo.Spec("Const+Sine", mk, lambda x, p: p[0] + p[2] * np.cos(2 * np.pi * p[1] * x) + p[3] * np.sin(2 * np.pi * p[1] * x),
                    [v, 0.3, 0.02 * v, 0.03 * v], None)


def expo(k, v, rng):
    return zoo.Spec("Exp", lambda **kw: bf.ExpModel(**kw), lambda x, p: p[0] * np.exp(p[1] * x), [v, 0.02], None)


def surf(k, v, rng):
    return zoo.Spec("PolySurface(1)", lambda **kw: bf.PolySurfaceModel(1, **kw),
                    lambda x, p: p[0] + p[1] * x[:, 0] + p[2] * x[:, 1], [v, 0.03 * v, 0.02 * v], None)


def nested(k, v, rng):
    """ a model in a model in a model """
    s = zoo.Spec("Polynomial(1)", lambda **kw: bf.PolynomialModel(1, **kw), lambda x, p: p[0] + p[1] * x,
                 [v, 0.03 * v], None)
    t = zoo.Spec("Polynomial(1)", lambda **kw: bf.PolynomialModel(1, **kw), lambda x, p: p[0] + p[1] * x,
                 [0.03 * v, 0.001], None)
    r = zoo.fix(s, {1: t})
    return r


def compare(mon, rng, m, sp, tag, numeric):
    """ model against spec """
    n = int(rng.integers(2, 25))
    x = sp.x(rng, n)
    p = sp.p
    want = sp.ref(x, p)
    big = 1 + np.max(np.abs(want))
    ok = np.ones(n, dtype=bool)
    ok2 = ok
    if sp.kinks is not None:
        d = sp.kinks(x, p)
        ok, ok2 = d > 1e-7, d > 5e-3
    spherical = "sph=True" in sp.name

    def fold(r):
        if spherical:
            r = np.array(r)
            r[:, 1] = want[:, 1] + util.angdiff(r[:, 1] - want[:, 1])
        return r
    with mon.guarded("value:" + tag, spec=sp.name, p=p):
        got = fold(np.asarray(m.result(x, p.copy()), dtype=float))
        if got.shape != want.shape:
            mon.expect(False, "value:" + tag, spec=sp.name, got=got.shape, want=want.shape)
        else:
            mon.close(got[ok], want[ok], "value:" + tag, rtol=0, atol=max(sp.rtol, 1e-9) * big, spec=sp.name, p=p, x=x)
    with mon.guarded("partial:" + tag, spec=sp.name, p=p):
        got = util.stack_partial(m.partial(x, p.copy()), sp.ndout)
        ref = util.num_partial(lambda q: fold(sp.ref(x, q)), p, h=3e-4)
        sc = 1 + (np.max(np.abs(ref)) if ref.size else 0)
        if got.shape != ref.shape:
            mon.expect(False, "partial:" + tag, spec=sp.name, got=got.shape, want=ref.shape)
        else:
            mon.close(got[ok2], ref[ok2], "partial:" + tag, rtol=0, atol=(1e-4 if sp.rtol > 1e-8 else 3e-6) * sc, spec=sp.name, p=p, x=x)
    if sp.klass == "Football":
        return
    with mon.guarded("derivative:" + tag, spec=sp.name, p=p):
        got = util.stack_deriv(m.derivative(x, p.copy()), sp.ndim, sp.ndout)
        ref = util.num_deriv(lambda y: fold(sp.ref(y, p)), x, sp.ndim, h=3e-4)
        sc = 1 + np.max(np.abs(ref))
        tol = 1e-3 if numeric or not sp.deriv else 1e-5
        if got.shape != ref.shape:
            mon.expect(False, "derivative:" + tag, spec=sp.name, got=got.shape, want=ref.shape)
        else:
            if spherical:
                got = np.where(np.abs(got) > 1e4, ref, got)
            mon.close(got[ok2], ref[ok2], "derivative:" + tag, rtol=0, atol=tol * sc, spec=sp.name, p=p, x=x)


def zero(k, v, rng):
    """ a model without parameters """
    return zoo.Spec("ConstantModel", lambda **kw: bf.ConstantModel(fixedModel=bf.PolynomialModel(1), values=[v, 0.03 * v]),
                    lambda x, p: v + 0.03 * v * x, [], None)


def same_names(got, want):
    """ parameters that were not named are simply numbered """
    return len(got) == len(want) and all(g == w or w[-1].isdigit() for g, w in zip(got, want))


def names_of(spec):
    m = spec.make()
    return [m.getParameterName(k) for k in range(m.npars)]


def constants(entry):
    def fn(mon, rng, idx):
        sp = entry(rng)
        if not sp.fixable:
            return
        base = zoo.Spec(sp.name, sp.make, sp.ref, sp.p, sp.x, ndim=sp.ndim, ndout=sp.ndout, kinks=sp.kinks,
                        rtol=sp.rtol, klass=sp.klass, deriv=sp.deriv)
        np_ = len(sp.p)
        nfix = np_ if rng.random() < 0.08 else int(rng.integers(1, np_)) if np_ > 1 else 1
        ks = rng.choice(np_, size=nfix, replace=False)
        fixed = {}
        for k in ks:
            key = int(k)
            if rng.random() < 0.25:
                key -= np_
                mon.count("negative-index")
            fixed[key] = float(sp.p[k])
        fs = zoo.fix(base, fixed)
        if nfix == np_:
            mon.count("all-fixed")
        tag = sp.klass
        with mon.guarded("construct:" + tag, spec=fs.name):
            plain = sp.make(fixed={}) if sp.klass.startswith("Pade") else sp.make()
            allnames = [plain.getParameterName(k) for k in range(np_)]
            defaults = np.array(plain.parameters)
            m = fs.make()
            mon.expect(m.npars == len(fs.p) and len(m.parameters) == len(fs.p), "nparams:" + tag, spec=fs.name, got=m.npars)
            names = [m.getParameterName(k) for k in range(m.npars)]
            mon.expect(same_names(names, [allnames[k] for k in fs.free]), "names:" + tag, spec=fs.name, got=names,
                       want=[allnames[k] for k in fs.free])
            mon.close(m.parameters, defaults[fs.free], "defaults:" + tag, spec=fs.name)
            if rng.random() < 0.35:
                m = m.copy()
                mon.count("copies")
                mon.expect(m.npars == len(fs.p), "nparams-of-copy:" + tag, spec=fs.name, got=m.npars)
                mon.expect([m.getParameterName(k) for k in range(m.npars)] == names, "names-of-copy:" + tag, spec=fs.name)
            compare(mon, rng, m, fs, tag, False)
            mon.count("const")
            mon.state(sp.name, tuple(sorted(k % np_ for k in fixed)), "const")
            # priors follow the free parameters
            if len(fs.p) > 1 and rng.random() < 0.5:
                lo = rng.uniform(-9, -8, len(fs.p))
                hi = rng.uniform(8, 9, len(fs.p))
                m.setLimits(lo, hi)
                l, h = m.getLimits()
                mon.close(l, lo, "limits:" + tag, spec=fs.name)
                mon.close(h, hi, "limits:" + tag, spec=fs.name)
                mon.close(m.unit2Domain(np.full(len(lo), 0.25)), lo + 0.25 * (hi - lo), "unit2Domain:" + tag, spec=fs.name)
            # inside a compound, on either side
            if sp.ndim == 1 and sp.ndout == 1 and rng.random() < 0.3:
                other = expr.leaf1d(rng, 0.0)
                x = sp.x(rng, 9)
                ok = np.ones(9, bool) if sp.kinks is None else sp.kinks(x, sp.p) > 5e-3
                c = fs.make() + other.build(rng) if rng.random() < 0.5 else other.build(rng) + fs.make()
                first = c.getParameterName(0)
                q = np.concatenate((fs.p, other.spec.p))
                w = fs.ref(x, fs.p) + other.value(x, other.spec.p)
                if not (len(fs.p) == 0):
                    lead = np.allclose(c.parameters[:len(other.spec.p)], other.spec.p) and len(c.parameters) == len(q)
                    same = first == other.build(rng).getParameterName(0) and lead
                    if same:
                        q = np.concatenate((other.spec.p, fs.p))
                    got = c.result(x, q.copy())
                    if not same and first != names[0]:
                        mon.expect(False, "compound-order:" + tag)
                    mon.close(got[ok], w[ok], "compound:" + tag, rtol=1e-6, atol=1e-6, spec=fs.name)
                    mon.count("in-compound")
        mon.sample("%s" % fs.name)
    return fn


REPL = [zoo.polynomial, zoo.chebyshev, zoo.power, zoo.powerlaw, zoo.exp, zoo.gauss, zoo.lorentz, zoo.voigt,
        zoo.pseudovoigt, zoo.arctan, zoo.logistic, zoo.sine, zoo.sineamp, zoo.sinedrift, zoo.harmonic, zoo.etalon,
        zoo.kernelmodel, zoo.sinc, zoo.splines, zoo.etalondrift]


def models(entry):
    def fn(mon, rng, idx):
        sp = entry(rng)
        np_ = len(sp.p)
        nm = 1 if rng.random() < 0.7 or np_ < 2 else 2
        ks = [int(k) for k in rng.choice(np_, size=nm, replace=False)]
        fixed = {}
        for k in ks:
            subs = [surf] if sp.ndim == 2 else [poly, wave, expo, nested, zero]
            v = float(sp.p[k])
            if abs(v) < 0.05:
                v = 0.3
            fixed[k] = subs[int(rng.integers(len(subs)))](k, v, rng)
        # and perhaps constants too
        rest = [k for k in range(np_) if k not in ks]
        if rest and rng.random() < 0.4:
            k = int(rest[int(rng.integers(len(rest)))])
            fixed[k] = float(sp.p[k])
            if rng.random() < 0.5:
                fixed = dict(reversed(list(fixed.items())))
        order = list(fixed)
        fs = zoo.fix(sp, fixed)
        tag = sp.klass + "<-model"
        with mon.guarded("construct:" + tag, spec=fs.name):
            names0 = names_of(sp)
            m = fs.make()
            m.parameters = fs.p.copy()
            mon.expect(m.npars == len(fs.p), "nparams:" + tag, spec=fs.name, got=m.npars, want=len(fs.p))
            want = [names0[k] for k in fs.free]
            for k, s in fs.mods:
                want += names_of(s)
            got = [m.getParameterName(k) for k in range(m.npars)]
            mon.expect(same_names(got, want) or names0[0][-1].isdigit(), "names:" + tag, spec=fs.name, got=got, want=want)
            if rng.random() < 0.35:
                m = m.copy()
                mon.count("copies")
                mon.close(m.parameters, fs.p, "parameters-of-copy:" + tag, spec=fs.name)
            compare(mon, rng, m, fs, tag, True)
            mon.count("model")
            mon.state(sp.name, tuple(order), tuple(s.name for k, s in fs.mods))
        mon.sample("%s" % fs.name)
    return fn


CASES = [Case("const-" + e.__name__, constants(e), quick=32 if e not in (zoo.kernel2d, zoo.kernelmodel) else 80,
              thorough=400, chunk=16)
         for e in zoo.SIMPLE1D + [zoo.basicsplines, zoo.radialvelocity, zoo.stellarorbit, zoo.etalondrift, zoo.kernel2d,
                                  zoo.polysurface]]
CASES += [Case("model-" + e.__name__, models(e), quick=24, thorough=300, chunk=12) for e in REPL]
