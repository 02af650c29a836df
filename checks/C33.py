"""C33  Wrapper models equal what they wrap."""
import numpy as np
import BayesicFitting as bf
import zoo
import wrap
from harness import Case
from wrapcase import wrapped

RULE = "distinct = (kind of wrapper, wrapped model, relations) whose value, partials, derivative and parameters were compared"
ASSUMPTIONS = ["astropy models are represented by six analytic models"]
REQUIRE = {"constant": 20, "combi": 60, "repeating": 60, "astropy": 20, "user": 20, "bracket": 20, "fixed": 10, "compound": 40}


def relations(mon, rng, idx):
    """ names and priors of combined parameters are those of the wrapped model """
    sp = wrap.combi(rng)
    m = sp.make()
    s = sp.inner
    names = [s.make().getParameterName(k) for k in range(len(s.p))]
    for k in range(m.npars):
        # first expanded parameter with this index
        e = sp.index.index(k)
        base = names[e % len(s.p)]
        with mon.guarded("name:Combi", spec=sp.name):
            got = m.getParameterName(k)
            mon.expect(got.startswith(base), "name:Combi", spec=sp.name, got=got, want=base)
    inner = s.make()
    lo = -10.0 - np.arange(len(s.p))
    inner.setLimits(lo, -lo)
    with mon.guarded("prior:Combi", spec=sp.name):
        a = bf.CombiModel(inner, sp.nrep, **({} if not sp.tied else {"addCombi": {k: [0.0] * sp.nrep for k in sp.tied}}))
        got = [a.getPrior(k).lowLimit for k in range(a.npars)]
        want = [lo[sp.index.index(k) % len(s.p)] for k in range(a.npars)]
        mon.close(got, want, "prior:Combi", spec=sp.name)
    mon.state("names", sp.name)
    mon.count("relations")


def tables(mon, rng, idx):
    n = int(rng.integers(1, 30))
    x = rng.normal(size=n)
    t = rng.normal(size=n)
    m = bf.ConstantModel(table=t.copy())
    mon.close(m.result(x, np.zeros(0)), t, "table")
    mon.expect(np.asarray(m.partial(x, np.zeros(0))).shape == (n, 0), "table")
    mon.close(m.derivative(x, np.zeros(0)), np.zeros(n), "table")
    o = zoo.polynomial(rng)
    c = m + o.make()
    mon.close(c.result(x, o.p.copy()), t + o.ref(x, o.p), "table")
    mon.close((o.make() * m).result(x, o.p.copy()), t * o.ref(x, o.p), "table")
    mon.count("table")


CASES = [Case("wrap-" + e.__name__, wrapped(e), quick=120, thorough=1500, chunk=20) for e in wrap.WRAP]
CASES += [Case("relations", relations, quick=60, thorough=600, chunk=20), Case("tables", tables, quick=10, thorough=100, chunk=10)]
