"""C06  A copied model is equal to, and independent of, the original."""
import copy as pycopy
import numpy as np
import BayesicFitting as bf
import zoo
import wrap
import util
import expr
from harness import Case

RULE = ("distinct = (model, kind of configuration, modification, side that was modified) for which the state of both sides "
        "was compared before and after")
ASSUMPTIONS = ["models given away to appendModel (+=) are consumed by it, as documented",
               "the observable state is: value, partials, derivative, parameters, names, limits, priors and mapping from the unit range"]
REQUIRE = {"copy-equal": 400, "modified": 1500, "operators": 100, "isolated": 30, "constants": 15}


def state(m, x):
    """ everything that can be observed of a model """
    s = {}
    p = np.array(m.parameters, dtype=float)
    s["npars"] = m.npars
    s["ndim"] = (m.ndim, m.ndout, m.lastndout)
    s["parameters"] = p.copy()
    s["result"] = np.array(m.result(x, p.copy()), dtype=float)
    pt = m.partial(x, p.copy())
    s["partial"] = util.stack_partial(pt, m.lastndout).copy()
    s["names"] = [m.getParameterName(k) for k in range(m.npars)]
    s["stdevs"] = None if m.stdevs is None else np.array(m.stdevs, dtype=float)
    s["chain"] = m.chainLength()
    s["text"] = str(m)
    s["haslimits"] = bool(m.hasLimits())
    pri = bool(m.hasPriors(isBound=False)) and m.npars > 0
    s["haspriors"] = pri
    if pri:
        s["priors"] = [describe(m.getPrior(k)) for k in range(m.npars)]
        if all(m.getPrior(k).isBound() for k in range(m.npars)):
            s["u2d"] = np.array([m.unit2Domain(np.full(m.npars, u)) for u in (0.1, 0.4, 0.85)])
    return s


def describe(pr):
    d = [type(pr).__name__, pr.lowLimit, pr.highLimit]
    for a in ("center", "scale", "circular"):
        if hasattr(pr, a):
            try:
                d.append((a, float(getattr(pr, a))))
            except (TypeError, ValueError):
                d.append((a, str(getattr(pr, a))))
    return d


def equal(a, b):
    """ name of the first difference or None """
    for k in a:
        if k not in b:
            return k
        u, v = a[k], b[k]
        if isinstance(u, np.ndarray):
            if u.shape != np.shape(v) or not np.allclose(u, v, rtol=1e-12, atol=1e-300, equal_nan=True):
                return k
        elif u != v:
            return k
    for k in b:
        if k not in a:
            return k
    return None


def mods_for(m, rng, sp):
    """ the modifications that are possible """
    l = ["assign", "inplace", "stdevs", "limits", "prior", "append"] if m.npars else ["append"]
    if m.npars and m.hasPriors(isBound=False):
        l += ["prior-limits", "prior-replace"]
    if constants(m):
        l += ["constant"] * 2
    if m.isDynamic():
        l += ["grow", "shrink"]
        # new parameters are drawn from the prior (or zero)
        if not m.hasPriors() and getattr(sp, "klass", "") in ("SplinesDynamic", "Repeating"):
            l.remove("grow")
    if getattr(sp, "klass", "") == "SplinesDynamic":
        if not m.hasPriors():
            l.remove("shrink")
        l += ["vary"]
    return l


def constants(m):
    """ the constant members (without a table) in the chain """
    l = []
    while m is not None:
        if isinstance(m, bf.ConstantModel) and m.fixedModel is not None:
            l.append(m)
        m = m._next
    return l


def modify(m, what, rng):
    n = m.npars
    if what == "constant":
        c = constants(m)[0]
        c.values = [float(v) * 0.9 + 0.05 for v in c.fixedModel.parameters]
    if what == "assign":
        m.parameters = np.array(m.parameters) * 0.97 + 0.01
    elif what == "inplace":
        m.parameters[int(rng.integers(n))] += 0.013
    elif what == "stdevs":
        if m.stdevs is None or rng.random() < 0.5:
            m.stdevs = rng.uniform(0.1, 1, n)
        else:
            m.stdevs[0] += 0.5
    elif what == "limits":
        lo = rng.uniform(-9, -8, n)
        hi = rng.uniform(8, 9, n)
        try:
            m.setLimits(lo, hi)
        except IndexError:              # repeated models have priors for one of them only
            m.setLimits(lo[:1], hi[:1])
    elif what == "prior":
        # priors have to be set in sequence
        k = int(rng.integers(n)) if m.hasPriors(isBound=False) else 0
        pr = bf.UniformPrior(limits=[-11.0, 12.0])
        try:
            m.setPrior(k, prior=pr)
        except IndexError:              # fewer priors than parameters: documented
            m.setPrior(0, prior=pr)
    elif what == "prior-limits":
        pr = m.getPrior(int(rng.integers(n)))
        lo = -3.0 if not isinstance(pr, (bf.JeffreysPrior, bf.ExponentialPrior)) else 0.03
        pr.setLimits(limits=[lo, 4.0])
    elif what == "prior-replace":
        try:
            m.setPrior(int(rng.integers(n)), prior=bf.GaussPrior(center=0.3, scale=2.0))
        except IndexError:
            m.setPrior(0, prior=bf.GaussPrior(center=0.3, scale=2.0))
    elif what == "append":
        m += (bf.PolynomialModel(1) if m.ndim == 1 else bf.PolySurfaceModel(1)) if m.lastndout == 1 and m.ndim < 3 else soft(m)
    elif what == "grow":
        if getattr(m, "npbase", 0) < 40:
            m.grow(offset=0, rng=np.random.RandomState(int(rng.integers(1 << 30))) if m.hasPriors() else None)
    elif what == "shrink":
        m.shrink(offset=0, rng=np.random.RandomState(int(rng.integers(1 << 30))))
    elif what == "vary":
        m.vary(rng=np.random.RandomState(int(rng.integers(1 << 30))))


def soft(m):
    return bf.SoftMaxModel(ndim=m.ndim, ndout=m.lastndout)


def battery(mon, rng, m, sp, tag):
    """ m : freshly built model with parameters """
    n = int(rng.integers(3, 9))
    x = sp.x(rng, n)
    lim = False
    if m.npars and rng.random() < 0.6 and not m.isDynamic() and sp.klass != "Repeating":
        q = rng.random()
        if q < 0.5:
            m.setLimits(rng.uniform(-20, -15, m.npars), rng.uniform(15, 20, m.npars))
        elif q < 0.8:
            for k in range(m.npars):
                m.setPrior(k, prior=[bf.UniformPrior(limits=[-20., 20.]), bf.GaussPrior(scale=4.0, center=1.0),
                                     bf.LaplacePrior(scale=3.0), bf.CauchyPrior(scale=2.0)][int(rng.integers(4))])
        else:
            m.setLimits(-25.0, 25.0)
        lim = True
    elif (m.isDynamic() or sp.klass == "Repeating") and rng.random() < 0.5:
        (m.model if sp.klass == "Repeating" else m).setLimits([-9.0], [9.0])
        lim = True
    if rng.random() < 0.3 and m.npars:
        m.stdevs = rng.uniform(0.1, 1, m.npars)
    s0 = state(m, x)
    c = m.copy()
    s1 = state(c, x)
    d = equal(s0, s1)
    mon.expect(equal(s0, state(m, x)) is None, "original-changed-by-copy:" + tag, spec=sp.name, what=equal(s0, state(m, x)))
    mon.expect(d is None, "copy-differs:%s" % tag, "in %s" % d, spec=sp.name, limits=lim, what=d,
               orig=s0.get(d), copy=s1.get(d))
    mon.count("copy-equal")
    if d is not None:
        return
    sides = [("copy", c, m), ("original", m, c)]
    for rnd in range(4):
        name, a, b = sides[int(rng.integers(2))]
        l = mods_for(a, rng, sp)
        what = str(rng.choice(l))
        before = state(b, x)
        wasa = state(a, x)
        modify(a, what, rng)
        after = state(b, x)
        d = equal(before, after)
        mon.expect(d is None, "%s-of-%s-seen-in-other:%s" % (what, name, tag), "in %s" % d, spec=sp.name,
                   before=before.get(d), after=after.get(d))
        mon.count("modified")
        mon.state(sp.klass, tag, what, name, lim)
        if d is not None:
            return
        if what == "constant":
            mon.count("constants")
        if what == "inplace":
            mon.expect(equal(wasa, state(a, x)) is not None, "modification-has-no-effect:" + tag, spec=sp.name)
        # a copy of the modified one is equal to it again
        if rng.random() < 0.5:
            sa = state(a, x)
            d = equal(sa, state(a.copy(), x))
            mon.expect(d is None, "copy-after-%s-differs:%s" % (what, tag), "in %s" % d, spec=sp.name, what=d)
            if d is not None:
                return


def simple(entry, tag=None):
    def fn(mon, rng, idx):
        sp = entry(rng)
        t = tag or sp.klass
        with mon.guarded("error:" + t, spec=sp.name):
            m = sp.make()
            if len(sp.p) == m.npars and m.npars:
                m.parameters = sp.p.copy()
            battery(mon, rng, m, sp, t)
        mon.sample(sp.name)
    return fn


REPL = ["Polynomial", "Power", "PowerLaw", "Exp", "Gauss", "Lorentz", "Voigt", "Arctan", "Logistic", "Sine", "SineAmp",
        "SineDrift", "Harmonic", "Etalon", "Kernel", "Sinc", "Splines"]


def fixed(mon, rng, idx):
    sp = zoo.ALL[int(rng.integers(len(zoo.ALL)))](rng)
    if not sp.fixable or len(sp.p) < 2:
        sp = zoo.gauss(rng)
    k = int(rng.integers(len(sp.p)))
    if sp.ndim == 1 and sp.replaceable and sp.klass in REPL and rng.random() < 0.5:
        v = float(sp.p[k]) or 0.3
        sub = zoo.Spec("Polynomial(1)", lambda **kw: bf.PolynomialModel(1, **kw), lambda x, p: p[0] + p[1] * x, [v, 0.03 * v], None)
        fs = zoo.fix(sp, {k: sub})
        tag = "fixed-model"
    else:
        fs = zoo.fix(sp, {k: float(sp.p[k])})
        tag = "fixed-const"
    with mon.guarded("error:" + tag, spec=fs.name):
        m = fs.make()
        m.parameters = fs.p.copy()
        battery(mon, rng, m, fs, tag)
    mon.sample(fs.name)


def compound(kind):
    def fn(mon, rng, idx):
        if kind == "1d":
            t = expr.tree1d(rng, int(rng.integers(2, 6)))
            x, nd = zoo.x1(), 1
        elif kind == "2d":
            t = expr.tree2d(rng, int(rng.integers(2, 4)))
            x, nd = zoo.x2(), 2
        else:
            t = expr.netpipe(rng) if rng.random() < 0.5 else expr.netsum(rng)
            nd = t.ndim
            x = (lambda r, n: r.uniform(-2, 2, (n, nd))) if nd > 1 else zoo.x1()
        sp = zoo.Spec(t.text(), None, t.value, t.pars(), x, ndim=nd, klass="compound")
        with mon.guarded("error:compound-" + kind, spec=sp.name):
            m = t.build(rng)
            battery(mon, rng, m, sp, "compound-" + kind)
        mon.sample(sp.name)
    return fn


def operators(mon, rng, idx):
    """ a op b leaves a and b alone, now and later """
    two = rng.random() < 0.25
    mk = expr.tree2d if two else expr.tree1d
    ta, tb = mk(rng, int(rng.integers(1, 4))), mk(rng, int(rng.integers(1, 4)))
    x = zoo.x2()(rng, 6) if two else zoo.x1()(rng, 6)
    op = str(rng.choice(["+", "-", "*", "/"] if two else ["+", "-", "*", "/", "|"]))
    text = "%s %s %s" % (ta.text(), op, tb.text())
    with mon.guarded("error:operator", spec=text):
        a, b = ta.build(rng), tb.build(rng)
        for m in (a, b):
            if rng.random() < 0.6:
                m.setLimits(rng.uniform(-20, -15, m.npars), rng.uniform(15, 20, m.npars))
        sa, sb = state(a, x), state(b, x)
        c = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "|": lambda: a | b}[op]()
        mon.expect(equal(sa, state(a, x)) is None, "operator-changes-left", "in %s" % equal(sa, state(a, x)), spec=text)
        mon.expect(equal(sb, state(b, x)) is None, "operator-changes-right", "in %s" % equal(sb, state(b, x)), spec=text)
        mon.count("operators")
        sc = state(c, x)
        for m, nm in ((a, "left"), (b, "right")):
            what = str(rng.choice(mods_for(m, rng, None)))
            modify(m, what, rng)
            d = equal(sc, state(c, x))
            mon.expect(d is None, "%s-of-%s-operand-seen-in-expression" % (what, nm), "in %s" % d, spec=text,
                       before=sc.get(d), after=state(c, x).get(d))
            mon.state("operator", op, what, nm)
        sa, sb = state(a, x), state(b, x)
        for rnd in range(2):
            what = str(rng.choice(mods_for(c, rng, None)))
            modify(c, what, rng)
            for m, s, nm in ((a, sa, "left"), (b, sb, "right")):
                d = equal(s, state(m, x))
                mon.expect(d is None, "%s-of-expression-seen-in-%s" % (what, nm), "in %s" % d, spec=text)
    mon.sample(text)


def isolate(mon, rng, idx):
    """ an isolated model is an independent copy of one of the chain """
    n = int(rng.integers(2, 5))
    leaves = [expr.leaf1d(rng, 0.2) for k in range(n)]
    x = zoo.x1()(rng, 6)
    with mon.guarded("error:isolate"):
        m = leaves[0].build()
        for l in leaves[1:]:
            m += l.build()
        s = state(m, x)
        k = int(rng.integers(n))
        i = m.isolateModel(k)
        l = leaves[k]
        mon.close(i.parameters, l.pars(), "isolate-parameters", spec=l.text())
        mon.expect(i.npars == l.np and i.chainLength() == 1, "isolate-size", got=i.npars, want=l.np)
        mon.close(i.result(x, np.array(l.pars())), l.build().result(x, np.array(l.pars())), "isolate-value", spec=l.text())
        mon.expect(equal(s, state(m, x)) is None, "isolate-changes-chain", spec=l.text())
        what = str(rng.choice(mods_for(i, rng, None)))
        modify(i, what, rng)
        d = equal(s, state(m, x))
        mon.expect(d is None, "%s-of-isolated-seen-in-chain" % what, "in %s" % d, spec=l.text())
        mon.count("isolated")
        mon.state("isolate", n, k, what)


def repeated_copy(mon, rng, idx):
    """ copies of copies do not lose anything """
    r = rng.random()
    if r < 0.3:
        sp = wrap.pick(rng, wrap.WRAP)(rng)
    elif r < 0.6:
        sp = zoo.ALL[int(rng.integers(len(zoo.ALL)))](rng)
    else:
        t = expr.tree1d(rng, int(rng.integers(2, 5)))
        sp = zoo.Spec(t.text(), lambda: t.build(rng), t.value, t.pars(), zoo.x1(), klass="compound")
    with mon.guarded("error:copies:" + sp.klass, spec=sp.name):
        m = sp.make()
        if len(sp.p) == m.npars and m.npars:
            m.parameters = sp.p.copy()
        x = sp.x(rng, 5)
        s = state(m, x)
        c = m
        for k in range(3):
            c = c.copy()
            d = equal(s, state(c, x))
            mon.expect(d is None, "copy-of-copy-differs:" + sp.klass, "in %s" % d, spec=sp.name, depth=k + 1,
                       orig=s.get(d), copy=state(c, x).get(d))
            if d is not None:
                break


CASES = [Case("zoo-" + e.__name__, simple(e), quick=8, thorough=120, chunk=8) for e in zoo.ALL]
CASES += [Case("wrap-" + e.__name__, simple(e), quick=16, thorough=200, chunk=8) for e in wrap.WRAP]
CASES += [Case("dyn-" + e.__name__, simple(e), quick=16, thorough=200, chunk=8) for e in wrap.DYN]
CASES += [Case("fixed", fixed, quick=120, thorough=1200, chunk=10),
          Case("compound-1d", compound("1d"), quick=100, thorough=1200, chunk=10),
          Case("compound-2d", compound("2d"), quick=40, thorough=500, chunk=10),
          Case("compound-net", compound("net"), quick=40, thorough=500, chunk=10),
          Case("operators", operators, quick=120, thorough=1500, chunk=10),
          Case("isolate", isolate, quick=40, thorough=600, chunk=10),
          Case("repeated-copy", repeated_copy, quick=60, thorough=600, chunk=10)]
