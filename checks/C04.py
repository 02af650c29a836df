"""C04  Compound models are the arithmetic of their constituents."""
import numpy as np
import BayesicFitting as bf
import expr
import zoo
import util
from harness import Case

RULE = ("distinct = shape of the expression (models, operators, bracket structure) for which value, partials, "
        "derivative and bookkeeping were compared with an independent evaluation of the same expression")
ASSUMPTIONS = ["expressions whose reference is not finite or too steep to differentiate numerically are only checked "
               "on their value, where that is finite", "expressions of at most 7 models"]
REQUIRE = {"values": 3000, "partials": 3000, "derivatives": 2000, "bookkeeping": 300, "brackets": 100, "pipes": 80,
           "prior-maps": 100}


def xin(e, rng, n):
    if e.ndim == 1:
        return np.sort(rng.uniform(-0.95, 0.95, n))
    return rng.uniform(-0.95, 0.95, (n, e.ndim))


def evaluate(mon, rng, e, tag):
    shape = e.shape()
    n = int(rng.integers(2, 14))
    x = xin(e, rng, n)
    p = np.array(e.pars())
    with np.errstate(all="ignore"):
        want = np.asarray(e.value(x, p), dtype=float)
        fin = np.isfinite(want)
        rows = fin if want.ndim == 1 else np.all(fin, axis=1)
    with mon.guarded("build:" + tag, expr=e.text()):
        m = e.build(rng)
        mon.expect(m.npars == len(p) and m.npchain == len(p), "nparams:" + tag, expr=e.text(), got=m.npars, want=len(p))
        mon.close(m.parameters, p, "parameters:" + tag, expr=e.text())
        if rng.random() < 0.3:
            m = m.copy()
            mon.close(m.parameters, p, "parameters-of-copy:" + tag, expr=e.text())
        mon.count("built")
    if m is None:
        return None
    big = 1 + np.max(np.abs(want[rows])) if rows.any() else 1.0
    with mon.guarded("value:" + tag, expr=e.text()):
        got = np.asarray(m.result(x, p.copy()), dtype=float)
        if got.shape == want.shape:
            # condition of the expression: what does a relative change of 1e-9 in the input do
            with np.errstate(all="ignore"):
                w2 = np.asarray(e.value(x * (1 + 1e-10), p * (1 + 1e-10)), dtype=float)
                tol = 1e-9 * (1 + np.abs(want)) + 30 * np.abs(w2 - want)
            good = np.abs(got - want) <= tol
            sel = np.isfinite(want) & np.isfinite(tol) & (np.abs(want) < 1e8)
            mon.expect(np.all(good[sel]), "value:" + tag, expr=e.text(), p=p, x=x, got=got, want=want)
            mon.count("values", int(np.sum(sel)))
        else:
            mon.expect(False, "value-shape:" + tag, expr=e.text(), got=got.shape, want=want.shape)
        if rng.random() < 0.5:
            mon.close(m(x), got, "call:" + tag, rtol=1e-12, expr=e.text())
    if not rows.any() or big > 1e4:
        mon.count("steep")
        return m
    mon.state(shape)
    if "|" in shape:
        mon.count("pipes")
    if "{" in shape:
        mon.count("brackets")

    with np.errstate(all="ignore"):
        ref, ok = util.gate(lambda h: util.num_partial(lambda q: e.value(x, q), p, h=h), p, big)
        well = util.wellposed(e.value, x, p)
        ok &= well.reshape((-1,) + (1,) * (ok.ndim - 1))
    with mon.guarded("partial:" + tag, expr=e.text()):
        got = util.stack_partial(m.partial(x, p.copy()), e.ndout)
        if got.shape != ref.shape:
            mon.expect(False, "partial-shape:" + tag, expr=e.text(), got=got.shape, want=ref.shape)
        else:
            sc = np.max(np.abs(ref[ok])) if ok.any() else 0.0
            mon.close(got[ok], ref[ok], "partial:" + tag, rtol=1e-5, atol=3e-6 * (1 + sc), expr=e.text(), p=p, x=x)
            mon.count("partials", int(ok.sum()))
        if rng.random() < 0.3:
            num = util.stack_partial(m.strictNumericPartial(x, p.copy()), e.ndout)
            if num.shape != ref.shape:
                mon.expect(False, "numeric-partial-shape:" + tag, expr=e.text(), got=num.shape, want=ref.shape)
            else:
                mon.close(num[ok], ref[ok], "numeric-partial:" + tag, rtol=1e-3, atol=1e-3 * (1 + sc), expr=e.text(), p=p, x=x)

    with np.errstate(all="ignore"):
        ref, ok = util.gate(lambda h: util.num_deriv(lambda y: e.value(y, p), x, e.ndim, h=h), x, big)
        ok &= well.reshape((-1,) + (1,) * (ok.ndim - 1))
    with mon.guarded("derivative:" + tag, expr=e.text()):
        got = util.stack_deriv(m.derivative(x, p.copy()), e.ndim, e.ndout)
        if got.shape != ref.shape:
            mon.expect(False, "derivative-shape:" + tag, expr=e.text(), got=got.shape, want=ref.shape)
        else:
            sc = np.max(np.abs(ref[ok])) if ok.any() else 0.0
            num = any(getattr(l.spec, "mods", None) for l in e.leaves())     # numeric by design
            mon.close(got[ok], ref[ok], "derivative:" + tag, rtol=1e-3 if num else 1e-5,
                      atol=(1e-3 if num else 3e-6) * (1 + sc), expr=e.text(), p=p, x=x)
            mon.count("derivatives", int(ok.sum()))
    mon.sample("%s over %d points" % (e.text(), n))
    return m


def arith(mon, rng, idx):
    e = expr.tree1d(rng, int(rng.integers(2, 8)), pipes=False)
    evaluate(mon, rng, e, "arith")


def pipes(mon, rng, idx):
    e = expr.tree1d(rng, int(rng.integers(2, 6)), pipes=True)
    evaluate(mon, rng, e, "pipe" if "|" in e.text() else "arith")


def twod(mon, rng, idx):
    e = expr.tree2d(rng, int(rng.integers(2, 5)))
    evaluate(mon, rng, e, "2d")


def nets(mon, rng, idx):
    e = expr.netpipe(rng)
    evaluate(mon, rng, e, "net")


def sums(mon, rng, idx):
    e = expr.netsum(rng)
    evaluate(mon, rng, e, "multi-output")


def mkprior(rng):
    k = int(rng.integers(5))
    if k == 0:
        lo = float(rng.uniform(-3, 0)); hi = lo + float(rng.uniform(1, 4))
        return bf.UniformPrior(limits=[lo, hi])
    if k == 1:
        lo = float(rng.uniform(0.1, 1)); hi = lo * float(rng.uniform(2, 10))
        return bf.JeffreysPrior(limits=[lo, hi])
    if k == 2:
        return bf.GaussPrior(center=float(rng.uniform(-2, 2)), scale=float(rng.uniform(0.3, 3)))
    if k == 3:
        return bf.CauchyPrior(center=float(rng.uniform(-2, 2)), scale=float(rng.uniform(0.3, 3)))
    return bf.ExponentialPrior(scale=float(rng.uniform(0.3, 3)))


def sig(pr):
    return (type(pr).__name__, round(float(pr.unit2Domain(0.3)), 10), round(float(pr.unit2Domain(0.8)), 10))


def build_with_priors(e, rng, prs):
    """ builds the expression after priors were attached to the leaves; returns ( model, list of priors, names ) """
    if isinstance(e, expr.Leaf):
        m = e.build(rng)
        names = [m.getParameterName(k) for k in range(e.np)]
        npri = e.np if rng.random() < 0.7 else int(rng.integers(1, e.np + 1)) if e.np else 0
        mine = []
        for k in range(npri):
            pr = mkprior(rng)
            m.setPrior(k, pr)
            mine.append(pr)
        while len(mine) < e.np:
            mine.append(mine[-1])           # the last one is repeated
        return m, mine, names
    a, pa, na = build_with_priors(e.left, rng, prs)
    b, pb, nb = build_with_priors(e.right, rng, prs)
    if rng.random() < 0.5:
        m = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "|": lambda: a | b}[e.op]()
    else:
        m = a
        {"+": a.addModel, "-": a.subtractModel, "*": a.multiplyModel, "/": a.divideModel, "|": a.pipeModel}[e.op](b)
    return m, pa + pb, na + nb


def bookkeeping(mon, rng, idx):
    e = expr.tree1d(rng, int(rng.integers(2, 6)), pipes=True)
    with mon.guarded("priors", expr=e.text()):
        m, pri, names = build_with_priors(e, rng, None)
        if rng.random() < 0.4:
            m = m.copy()
        npar = len(pri)
        mon.count("bookkeeping")
        mon.expect(m.npars == npar, "names-length", expr=e.text())
        got = [m.getParameterName(k) for k in range(npar)]
        mon.expect(got == names, "parameter-names", expr=e.text(), got=got, want=names)
        want = [sig(q) for q in pri]
        got = [sig(m.getPrior(k)) for k in range(npar)]
        mon.expect(got == want, "priors", expr=e.text(), got=got, want=want)
        lo, hi = m.getLimits()
        mon.expect(len(lo) == npar and list(lo) == [q.lowLimit for q in pri] and list(hi) == [q.highLimit for q in pri],
                   "limits", expr=e.text(), got=[lo, hi])
        bound = all(q.isBound() for q in pri)
        mon.expect(bool(m.hasPriors()) == bound and m.hasPriors(isBound=False), "has-priors", expr=e.text(),
                   got=[m.hasPriors(), m.hasPriors(isBound=False)], want=bound)
        mon.expect(bool(m.hasLimits()) == all(q.hasLimits() for q in pri), "has-limits", expr=e.text())
        fi = np.sort(rng.choice(npar, size=int(rng.integers(1, npar + 1)), replace=False))
        mon.expect(bool(m.hasLimits(fitindex=fi)) == all(pri[k].hasLimits() for k in fi), "has-limits-fitindex",
                   expr=e.text(), fitindex=fi, priors=[str(q) for q in pri])
        u = rng.uniform(0.01, 0.99, npar)
        d = np.array([q.unit2Domain(v) for q, v in zip(pri, u)])
        mon.close(m.unit2Domain(u), d, "unit2Domain", rtol=1e-12, expr=e.text())
        mon.close(m.domain2Unit(d), u, "domain2Unit", rtol=1e-6, atol=1e-9, expr=e.text())
        mon.close(m.partialDomain2Unit(d), [q.partialDomain2Unit(v) for q, v in zip(pri, d)], "partialDomain2Unit",
                  rtol=1e-12, expr=e.text())
        k = int(rng.integers(npar))
        mon.close(m.unit2Domain(u[k], kpar=k), d[k], "unit2Domain-kpar", rtol=1e-12, expr=e.text())
        mon.close(m.domain2Unit(d[k], kpar=k), u[k], "domain2Unit-kpar", rtol=1e-6, atol=1e-9, expr=e.text())
        mon.count("prior-maps")
        mon.state("priors", e.shape())


def constituents(mon, rng, idx):
    """ isolateModel gives back the parts, chainLength counts them """
    n = int(rng.integers(2, 6))
    parts = [expr.leaf1d(rng, 0.0) if rng.random() < 0.6 else
             expr.Op(str(rng.choice(["+", "-", "*"])), expr.leaf1d(rng, 0.0), expr.leaf1d(rng, 0.0)) for _ in range(n)]
    parts[0] = expr.leaf1d(rng, 0.0)
    with mon.guarded("isolate"):
        m = parts[0].build(rng)
        for q in parts[1:]:
            op = rng.integers(4)
            [m.addModel, m.subtractModel, m.multiplyModel, m.divideModel][op](q.build(rng))
        mon.expect(m.chainLength() == n, "chain-length", got=m.chainLength(), want=n)
        before = util.freeze(m.parameters)
        x = xin(parts[0], rng, 7)
        val = m.result(x, m.parameters)
        for k, q in enumerate(parts):
            s = m.isolateModel(k)
            pq = np.array(q.pars())
            mon.close(s.parameters, pq, "isolated-parameters", part=q.text())
            mon.close(s.result(x, s.parameters), q.value(x, pq), "isolated-value", rtol=1e-9, atol=1e-9, part=q.text())
            mon.expect(s.npars == len(pq) and s.chainLength() == 1, "isolated-size", part=q.text())
        mon.expect(util.freeze(m.parameters) == before, "isolate-changes-source")
        mon.close(m.result(x, m.parameters), val, "isolate-changes-source", rtol=1e-14)
        mon.state("isolate", n)


def setting(mon, rng, idx):
    """ limits and priors set on the compound end at the right place """
    e = expr.tree1d(rng, int(rng.integers(2, 6)), pipes=False)
    with mon.guarded("set-limits", expr=e.text()):
        m = e.build(rng)
        npar = m.npars
        if npar == 0:
            return
        kind = idx % 4
        lo = rng.uniform(-3, -1, npar)
        hi = rng.uniform(1, 3, npar)
        if kind == 0:
            m.setLimits(lowLimits=lo, highLimits=hi)
            l, h = m.getLimits()
            mon.close(l, lo, "set-limits", expr=e.text())
            mon.close(h, hi, "set-limits", expr=e.text())
            mon.expect(m.hasLimits(), "set-limits-has", expr=e.text())
        elif kind == 1:
            m.setLimits(lowLimits=lo)
            l, h = m.getLimits()
            mon.close(l, lo, "set-low-limits", expr=e.text())
        elif kind == 2:
            m.setLimits(highLimits=hi)
            l, h = m.getLimits()
            mon.close(h, hi, "set-high-limits", expr=e.text())
        else:
            prs = [mkprior(rng) for _ in range(npar)]
            for k in range(npar):
                m.setPrior(k, prs[k])
            want = [sig(q) for q in prs]
            mon.expect([sig(m.getPrior(k)) for k in range(npar)] == want, "set-priors", expr=e.text())
            k = int(rng.integers(npar))
            new = mkprior(rng)
            m.setPrior(k, new)
            want[k] = sig(new)
            mon.expect([sig(m.getPrior(j)) for j in range(npar)] == want, "replace-prior", expr=e.text(), k=k,
                       got=[sig(m.getPrior(j)) for j in range(npar)], want=want)
        for bad in (npar, npar + 3):
            try:
                m.getParameterName(bad)
                mon.expect(False, "index-beyond", expr=e.text(), k=bad)
            except IndexError:
                mon.expect(True, "index-beyond")
        mon.state("set", kind, e.shape())


CASES = [Case("arith", arith, 240, 3000, chunk=30),
         Case("pipes", pipes, 240, 3000, chunk=30),
         Case("twod", twod, 120, 1200, chunk=15),
         Case("nets", nets, 160, 1600, chunk=20),
         Case("sums", sums, 48, 480, chunk=12),
         Case("bookkeeping", bookkeeping, 320, 3200, chunk=40),
         Case("constituents", constituents, 80, 800, chunk=20),
         Case("setting", setting, 120, 1200, chunk=30)]
