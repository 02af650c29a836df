"""C36  The units of the parameters are consistent with those of the input and the output."""
import warnings
import numpy as np
from astropy import units
import BayesicFitting as bf
import zoo
from harness import Case

RULE = "distinct = (model, options, plain / fixed / sum / copy, dimensions)"
ASSUMPTIONS = ["radians are dimensionless; PowerModel and PowerLawModel divide x by one unit of x, as documented",
               "members of a sum carry their own units (units are set on each before they are added)"]
REQUIRE = {"units": 1500, "scaled results": 400, "fixed": 100, "sums": 60, "products": 30, "integrals": 100}

XU = [units.m, units.s]
YU = units.kg


def kn(rng, n=None):
    return zoo.knots_for(rng, n or int(rng.integers(2, 6)))


def U(rng, lo, hi, n=None):
    return rng.uniform(lo, hi, n)


# every entry : rng -> ( make( scales of x ), parameters, x, number of the dimensions )
def entries():
    E = {}

    def e(name):
        def f(g):
            E[name] = g
            return g
        return f

    def simple(cls, np_, lo=-2.0, hi=2.0, x=(-2.0, 2.0), **kw):
        def g(rng):
            return (lambda a: cls(**kw)), U(rng, 0.3, 1.5, np_), U(rng, x[0], x[1], 12)
        return g

    E["Gauss"] = simple(bf.GaussModel, 3)
    E["Lorentz"] = simple(bf.LorentzModel, 3)
    E["Voigt"] = simple(bf.VoigtModel, 4)
    E["Arctan"] = simple(bf.ArctanModel, 3)
    E["Logistic"] = simple(bf.LogisticModel, 3)
    E["Sine"] = simple(bf.SineModel, 3)
    E["SinePhase"] = simple(bf.SineModel, 3, phase=True)
    E["SineDrift"] = simple(bf.SineDriftModel, 4)
    E["Etalon"] = simple(bf.EtalonModel, 4)
    E["Sinc"] = simple(bf.SincModel, 3)
    E["Exp"] = simple(bf.ExpModel, 2)
    E["ExpDecay"] = simple(bf.ExpModel, 2, decay=True)
    E["PseudoVoigt"] = simple(bf.PseudoVoigtModel, 4)

    @e("Polynomial")
    def _(rng):
        d = int(rng.integers(0, 5))
        return (lambda a: bf.PolynomialModel(d)), U(rng, -2, 2, d + 1), U(rng, -2, 2, 12)

    @e("PolynomialDynamic")
    def _(rng):
        d = int(rng.integers(0, 4))
        return (lambda a: bf.PolynomialDynamicModel(d)), U(rng, -2, 2, d + 1), U(rng, -2, 2, 12)

    @e("Constant")
    def _(rng):
        return (lambda a: bf.ConstantModel(values=0.0)), U(rng, -2, 2, 0), U(rng, -2, 2, 12)

    @e("SineAmp")
    def _(rng):
        f = U(rng, 0.1, 2)
        return (lambda a: bf.SineAmpModel(f / a[0])), U(rng, -2, 2, 2), U(rng, -2, 2, 12)

    @e("Harmonic")
    def _(rng):
        o, f = int(rng.integers(1, 4)), U(rng, 0.5, 2)
        return (lambda a: bf.HarmonicModel(o, period=f * a[0])), U(rng, -2, 2, 2 * o), U(rng, -2, 2, 12)

    @e("HarmonicDynamic")
    def _(rng):
        o, f = int(rng.integers(1, 4)), U(rng, 0.5, 2)
        return (lambda a: bf.HarmonicDynamicModel(o, period=f * a[0])), U(rng, -2, 2, 2 * o), U(rng, -2, 2, 12)

    @e("Pade")
    def _(rng):
        n, d = int(rng.integers(0, 4)), int(rng.integers(1, 4))
        fx = {n + 1: 1.0}
        return (lambda a: bf.PadeModel(n, d, fixed=dict(fx))), np.append(U(rng, -2, 2, n + 1), U(rng, 0.1, 0.6, d)), U(rng, 0.1, 2, 12)

    @e("Kernel")
    def _(rng):
        nm = str(rng.choice(sorted(zoo.KERNELS)))
        return (lambda a: bf.KernelModel(kernel=zoo.KERNELS[nm][0]())), U(rng, 0.4, 1.5, 3), U(rng, -2, 2, 12)

    @e("Splines")
    def _(rng):
        o, k = int(rng.integers(0, 5)), kn(rng)
        return (lambda a: bf.SplinesModel(knots=k * a[0], order=o)), U(rng, -1, 1, len(k) + o - 1), U(rng, -3, 3, 12)

    @e("SplinesDynamic")
    def _(rng):
        o, k = int(rng.integers(1, 4)), kn(rng)
        return (lambda a: bf.SplinesDynamicModel(knots=k * a[0], order=o)), U(rng, -1, 1, len(k) + o - 1), U(rng, -3, 3, 12)

    @e("BasicSplines")
    def _(rng):
        o, k = int(rng.integers(0, 4)), kn(rng)
        return (lambda a: bf.BasicSplinesModel(knots=k * a[0], order=o)), U(rng, -1, 1, len(k) + o - 1), U(rng, -2.9, 2.9, 12)

    @e("BSplines")
    def _(rng):
        o, k = int(rng.integers(1, 4)), kn(rng)
        return (lambda a: bf.BSplinesModel(knots=k * a[0], order=o)), U(rng, -1, 1, len(k) + o - 1), U(rng, -2.9, 2.9, 12)

    @e("SineSpline")
    def _(rng):
        o, k, f = int(rng.integers(1, 4)), kn(rng), U(rng, 0.1, 1)
        return (lambda a: bf.SineSplineModel(f / a[0], k * a[0], order=o)), U(rng, -1, 1, 2 * (len(k) + o - 1)), U(rng, -3, 3, 12)

    @e("SineSplineDrift")
    def _(rng):
        o, k, d = int(rng.integers(1, 4)), kn(rng), int(rng.integers(0, 3))
        return ((lambda a: bf.SineSplineDriftModel(k * a[0], order=o, degree=d)),
                np.append(U(rng, -0.3, 0.3, d + 1), U(rng, -1, 1, 2 * (len(k) + o - 1))), U(rng, -3, 3, 12))

    @e("FreeShape")
    def _(rng):
        n, c = int(rng.integers(3, 8)), int(rng.integers(0, 4))
        return (lambda a: bf.FreeShapeModel(n, nconvolve=c, xlo=-1.0 * a[0], xhi=2.0 * a[0])), U(rng, 0, 2, n), U(rng, -1, 2, 12)

    @e("RadialVelocity")
    def _(rng):
        return (lambda a: bf.RadialVelocityModel()), [U(rng, 0.1, 0.7), U(rng, 0.5, 3), U(rng, 1, 4), U(rng, 0, 6), U(rng, 0, 6)], U(rng, 0, 6, 12)

    @e("StellarOrbit")
    def _(rng):
        return ((lambda a: bf.StellarOrbitModel(spherical=False)), [U(rng, 0.1, 0.7), U(rng, 0.5, 3), U(rng, 1, 4), U(rng, 0, 6), U(rng, 0.1, 1.4),
                U(rng, 0, 3), U(rng, 0, 6)], U(rng, 0, 6, 12))

    @e("DecisionTree")
    def _(rng):
        return (lambda a: bf.DecisionTreeModel(ndim=1, depth=2, kdim=[0, 0, 0])), U(rng, -2, 2, 4), U(rng, 0, 1, 12)

    @e("SoftMax")
    def _(rng):
        nd, no, off = int(rng.integers(1, 3)), int(rng.integers(1, 4)), bool(rng.integers(2))
        x = U(rng, -2, 2, 12) if nd == 1 else U(rng, -2, 2, (12, nd))
        return (lambda a: bf.SoftMaxModel(ndim=nd, ndout=no, offset=off, normed=True)), U(rng, -1, 1, nd * no + (no if off else 0)), x

    @e("EtalonDrift")
    def _(rng):
        return (lambda a: bf.EtalonDriftModel()), U(rng, 0.3, 1.3, 5), U(rng, -2, 2, (12, 2))

    @e("Kernel2d")
    def _(rng):
        nm, s = str(rng.choice(sorted(zoo.KERNELS))), 2
        return (lambda a: bf.Kernel2dModel(kernel=zoo.KERNELS[nm][0](), shape=s)), U(rng, 0.4, 1.5, 3 + s), U(rng, -2, 2, (12, 2))

    @e("PolySurface")
    def _(rng):
        d = int(rng.integers(0, 5))
        return (lambda a: bf.PolySurfaceModel(d)), U(rng, -1, 1, (d + 1) * (d + 2) // 2), U(rng, -2, 2, (12, 2))

    @e("PolySineAmp")
    def _(rng):
        d, f = int(rng.integers(0, 4)), U(rng, 0.1, 1)
        return (lambda a: bf.PolySineAmpModel(d, f / a[0])), U(rng, -1, 1, 2 * d + 2), U(rng, -2, 2, (12, 2))

    @e("SurfaceSplines")
    def _(rng):
        o = [int(rng.integers(1, 6)) for _ in range(2)]
        k = [kn(rng, int(rng.integers(2, 5))) for _ in range(2)]
        return ((lambda a: bf.SurfaceSplinesModel([k[0] * a[0], k[1] * a[1]], order=o)),
                U(rng, -1, 1, (len(k[0]) + o[0] - 1) * (len(k[1]) + o[1] - 1)), U(rng, -2, 2, (12, 2)))
    return E


ENT = entries()
NAMES = sorted(ENT)
ONE = ["Gauss", "Lorentz", "Voigt", "Arctan", "Logistic", "Sine", "SinePhase", "SineDrift", "Etalon", "Exp", "PseudoVoigt", "Polynomial",
       "Splines", "BSplines", "Harmonic", "Kernel", "SineSplineDrift", "FreeShape"]


def chk(mon, cond, what, witness):
    return mon.expect(bool(cond), what.replace("/", " ") + "/" + str(witness.get("model")).split("(")[0].split(":")[0], "", **witness)


def setunits(m, ndim, fraction=False, yu=YU):
    m.xUnit = XU[0] if ndim == 1 else [XU[k] for k in range(ndim)]
    m.yUnit = yu
    return m


def exponents(u):
    """ powers of m, s, kg ; radians do not count """
    try:
        d = units.Unit(u).decompose()
    except Exception:
        return None
    out = [0.0, 0.0, 0.0]
    for b, p in zip(d.bases, d.powers):
        nm = b.to_string()
        if nm == "rad":
            continue
        if nm not in ("m", "s", "kg"):
            return None
        out[["m", "s", "kg"].index(nm)] = float(p)
    return out if abs(d.scale - 1) < 1e-12 else None


def scaledtest(mon, name, make, p, x, ndim, model, kind, dimless=False):
    """ measure x and y in other units and transform the parameters according to their units """
    rng_a = [1.7, 0.6]
    b = 1.0 if dimless else 2.3
    p = np.asarray(p, dtype=float)
    if len(p) == 0:
        return
    q = p.copy()
    us = []
    for k in range(len(p)):
        u = model.getParameterUnit(k)
        ex = exponents(u)
        us.append(str(u))
        mon.count("units")
        if not chk(mon, ex is not None, "the unit of a parameter is a unit", {"model": name, "kind": kind, "parameter": k, "unit": str(u)}):
            return
        q[k] *= rng_a[0] ** ex[0] * rng_a[1] ** ex[1] * b ** ex[2]
    m1 = make([1.0, 1.0])
    m2 = make(rng_a)
    x2 = x * rng_a[0] if ndim == 1 else x * np.array(rng_a[:ndim])
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        y1 = np.asarray(m1.result(x, p.copy()), dtype=float) * b
        y2 = np.asarray(m2.result(x2, q.copy()), dtype=float)
    mon.count("scaled results")
    mon.close(y2, y1, "scaled/" + (kind if kind in ("sum", "bracket") else name.split("(")[0] ), rtol=1e-6, atol=1e-7 * (1 + np.max(np.abs(y1))),
              detail="%s: the result in other units of x and y, with the parameters converted by their units" % name,
              model=name, kind=kind, units=us, parameters=p, transformed=q)


def names(mon, name, m):
    """ every parameter has a name of its own """
    nm = [m.getParameterName(k) for k in range(m.npars)]
    mon.count("names", len(nm))
    chk(mon, len(set(nm)) == len(nm), "the parameters of a model have different names", {"model": name, "names": nm})


def case_model(mon, rng, idx):
    name = NAMES[idx % len(NAMES)]
    make, p, x = ENT[name](rng)
    ndim = 1 if x.ndim == 1 else x.shape[1]
    dimless = name == "SoftMax"
    m = setunits(make([1.0, 1.0]), ndim, yu=units.Unit(1.0) if dimless else YU)
    kind = "plain"
    if rng.random() < 0.3:
        m = m.copy()
        kind = "copy"
    mon.state(name, kind, len(p))
    scaledtest(mon, name, make, p, x, ndim, m, kind, dimless)
    names(mon, name, m)
    u = exponents(m.getIntegralUnit())
    mon.count("integrals")
    want = [1.0, 1.0 if ndim > 1 else 0.0, 0.0 if dimless else 1.0]
    chk(mon, u == want, "the unit of the integral", {"model": name, "exponents": u, "expected": want})


FIX = ["Gauss", "Lorentz", "Voigt", "Arctan", "Logistic", "Sine", "SinePhase", "SineDrift", "Etalon", "Exp", "PseudoVoigt", "Polynomial", "Kernel",
       "EtalonDrift", "Kernel2d", "PolySurface", "Splines", "Harmonic", "RadialVelocity"]


def case_fixed(mon, rng, idx):
    """ some parameters fixed : the units of the others, and of the models that replace a parameter """
    name = FIX[idx % len(FIX)]
    while True:
        make, p, x = ENT[name](rng)
        p = np.asarray(p, dtype=float)
        if len(p) > 1:
            break
    ndim = 1 if x.ndim == 1 else x.shape[1]
    full = setunits(make([1.0, 1.0]), ndim)
    fix = sorted(int(k) for k in rng.choice(len(p), int(rng.integers(1, len(p))), replace=False))
    kw = {k: float(p[k]) for k in fix}
    cls, args = full.__class__, {}
    repl = None
    if ndim == 1 and rng.random() < 0.4:
        repl = fix[int(rng.integers(len(fix)))]
        pm = bf.PolynomialModel(1)
        u = full.getParameterUnit(repl)
        pm.xUnit, pm.yUnit = XU[0], u
        kw[repl] = pm

    m = buildfixed(full, name, kw)
    if m is None:
        return
    setunits(m, ndim)
    if rng.random() < 0.3:
        m = m.copy()
    names(mon, name, m) if repl is None else None
    free = [k for k in range(len(p)) if k not in fix]
    mon.state(name, tuple(fix), repl)
    for j, k in enumerate(free):
        mon.count("fixed")
        mon.count("units")
        chk(mon, exponents(m.getParameterUnit(j)) == exponents(full.getParameterUnit(k)), "the unit of a parameter when others are fixed",
                  {"model": name, "fixed": fix, "free parameter": j, "of all": k, "unit": m.getParameterUnit(j), "expected": full.getParameterUnit(k)})
    if repl is not None:
        e = exponents(full.getParameterUnit(repl))
        for j in range(2):
            w = list(e)
            w[0] -= j
            u = m.getParameterUnit(len(free) + j)
            mon.count("fixed")
            chk(mon, exponents(u) == w, "the unit of a parameter of the model that replaces a parameter",
                      {"model": name, "fixed": fix, "replaced": repl, "parameter": len(free) + j, "unit": u, "expected": w})


def buildfixed(full, name, kw):
    c = full.__class__
    if name == "Kernel":
        return c(kernel=full.kernel, fixed=kw)
    if name == "Kernel2d":
        return c(kernel=full.kernel, shape=len(full.parameters) - 3, fixed=kw)
    if name == "SinePhase":
        return c(phase=True, fixed=kw)
    if name == "Polynomial":
        return c(full.npmax - 1, fixed=kw)
    if name == "PolySurface":
        return c(full.degree, fixed=kw)
    if name == "Splines":
        return c(knots=full.knots, order=full.order, fixed=kw)
    if name == "Harmonic":
        return c(full.order, period=full.period, fixed=kw)
    return c(fixed=kw)


def case_sum(mon, rng, idx):
    """ a sum of models : every member has its units ; also in brackets, repeated and combined """
    n = int(rng.integers(2, 4))
    members = []
    for k in range(n):
        name = ONE[int(rng.integers(len(ONE)))]
        make, p, x = ENT[name](rng)
        members.append((name, make, np.asarray(p, dtype=float)))
    x = U(rng, -0.9, 1.9, 12)
    bracket = bool(rng.random() < 0.3)

    def make(a):
        ms = [setunits(mk(a), 1) for _, mk, _ in members]
        if bracket:
            h = ms[1]
            for q in ms[2:]:
                h = h + q
            return setunits(ms[0] + bf.BracketModel(h), 1)
        h = ms[0]
        for q in ms[1:]:
            h = h + q if rng0 else h - q
        return h
    rng0 = bool(rng.random() < 0.6)
    p = np.concatenate([q for _, _, q in members])
    mon.count("sums")
    mon.state("sum", n, bracket, tuple(nm for nm, _, _ in members))
    m = make([1.0, 1.0])
    if rng.random() < 0.3:
        m = m.copy()
    scaledtest(mon, "+".join(nm for nm, _, _ in members), make, p, x, 1, m, "bracket" if bracket else "sum")
    chk(mon, exponents(m.getIntegralUnit()) == [1.0, 0.0, 1.0], "the unit of the integral of a sum", {"model": str(m)})
    try:
        m.getParameterUnit(len(p))
        chk(mon, False, "a parameter beyond the last one has no unit", {"model": str(m), "parameter": len(p)})
    except IndexError:
        chk(mon, True, "a parameter beyond the last one has no unit", {})


def case_product(mon, rng, idx):
    """ models that contain others """
    mode = ["product", "repeating", "combi"][idx % 3]
    if mode == "product":
        nms = [ONE[int(rng.integers(len(ONE)))] for _ in range(2)]
        it = [ENT[nm](rng) for nm in nms]

        def make(a):
            return bf.ProductModel([it[0][0](a), it[1][0](a[1:])])
        p = np.concatenate([np.asarray(q, dtype=float) for _, q, _ in it])
        x = U(rng, -0.9, 1.9, (12, 2))
        ndim, name = 2, "Product(%s,%s)" % tuple(nms)
    else:
        nm = ["Gauss", "Sine", "Exp", "Arctan", "Logistic"][int(rng.integers(5))]
        mk, p0, x = ENT[nm](rng)
        r = int(rng.integers(1, 4))
        ndim, name = 1, "%s(%s,%d)" % (mode, nm, r)
        if mode == "repeating":
            def make(a):
                return bf.RepeatingModel(r, mk(a), minComp=1)
            p = np.concatenate([np.asarray(p0, dtype=float) * (1 + 0.1 * k) for k in range(r)])
        else:
            r = max(r, 2)
            j = int(rng.integers(len(p0)))
            rel = ["add", "mul"][int(rng.integers(2))]

            def make(a):
                arg = [0.0] * r if rel == "add" else [1.0 + 0.2 * k for k in range(r)]
                kw = {("addCombi" if rel == "add" else "mulCombi"): {j: arg}}
                return bf.CombiModel(mk(a), r, **kw)
            npb = make([1.0]).npbase
            p = U(rng, 0.4, 1.4, npb)
    mon.count("products")
    mon.state(name)
    m = setunits(make([1.0, 1.0]), ndim)
    if rng.random() < 0.3:
        m = m.copy()
    names(mon, name, m)
    scaledtest(mon, name, make, p, x, ndim, m, mode)


CASES = [Case("model", case_model, quick=10 * len(NAMES), thorough=60 * len(NAMES), limit=30, chunk=20),
         Case("fixed", case_fixed, quick=120, thorough=1500, limit=30, chunk=20),
         Case("sum", case_sum, quick=80, thorough=800, limit=30, chunk=20),
         Case("product", case_product, quick=60, thorough=800, limit=30, chunk=20)]
