"""C02  The partial derivatives to the parameters are those of the result."""
import numpy as np
import zoo
import wrap
from wrapcase import wrapped
import util
from harness import Case

RULE = ("distinct = (model configuration, entry point) whose partials were compared with a 5-point "
        "derivative of an independent formula")
ASSUMPTIONS = ["points closer than 5e-3 to a kink of the function (knots, kernel edges) are left out",
               "tolerance 2e-6 relative to the size of the partials (numeric partials: 2e-4)"]
REQUIRE = {"whole": 100, "partials": 20000, "numeric-partials": 1000}


def hstep(sp):
    """ orbits of high eccentricity turn within a small fraction of their period """
    return 3e-4 if sp.rtol < 1e-8 else 3e-5


def one(entry):
    def fn(mon, rng, idx):
        sp = entry(rng)
        fixed = getattr(sp, "defaultfix", {})
        p = zoo.freeparams(sp, fixed)
        free = [k for k in range(len(sp.p)) if k not in fixed]
        n = int(rng.integers(1, 40))
        x = sp.x(rng, n)
        ok = np.ones(n, dtype=bool)
        if sp.kinks is not None:
            ok = sp.kinks(x, sp.p) > 5e-3
        spherical = "sph=True" in sp.name
        ref = util.num_partial(lambda q: sp.ref(x, q), sp.p, h=hstep(sp))[..., free]
        if spherical:
            # angle: take the difference modulo 2 pi
            q0 = sp.ref(x, sp.p)
            def f(q):
                r = sp.ref(x, q)
                r[:, 1] = q0[:, 1] + util.angdiff(r[:, 1] - q0[:, 1])
                return r
            ref = util.num_partial(f, sp.p, h=hstep(sp))
        scale = 1.0 + (np.max(np.abs(ref)) if ref.size else 0.0)
        with mon.guarded("partial:" + sp.klass, spec=sp.name, p=sp.p):
            m = sp.make()
            if rng.random() < 0.3:
                m = m.copy()
            how = int(rng.integers(3))
            if how == 0 and n > 1:
                x = x.copy()
            got = util.stack_partial(m.partial(x, p.copy()), sp.ndout)
            g, r = (got[ok], ref[ok]) if got.shape == ref.shape else (got, ref)
            tol = 2e-6 * scale if sp.rtol < 1e-8 else 1e-5 * scale
            mon.close(g, r, "partial:" + sp.klass, rtol=0, atol=tol, spec=sp.name, p=sp.p, x=x)
            mon.count("partials", g.size)
            mon.state(sp.name, n)
        # the numeric alternatives tell the same
        if rng.random() < 0.5:
            with mon.guarded("numeric-partial:" + sp.klass, spec=sp.name, p=sp.p):
                nump = [m.strictNumericPartial]
                if sp.ndout == 1:
                    nump += [m.numPartial]
                for f in nump:
                    num = util.stack_partial(f(x, p.copy()), sp.ndout)
                    if spherical:
                        num[np.abs(num) > 1e4] = got[np.abs(num) > 1e4]
                    g, r = (num[ok], ref[ok]) if num.shape == ref.shape else (num, ref)
                    mon.close(g, r, "numeric-partial:" + sp.klass, rtol=0, atol=2e-4 * scale, spec=sp.name, p=sp.p, x=x)
                    mon.count("numeric-partials", g.size)
        mon.sample("partials of %s at %d points" % (sp.name, n))
    return fn


CASES = [Case(e.__name__, one(e), quick=60 if e not in (zoo.kernel2d, zoo.kernelmodel) else 160, thorough=800,
              chunk=20) for e in zoo.ALL]
CASES.append(Case("whole", zoo.whole("value", "partial"), quick=280, thorough=4000, chunk=20))
CASES.append(Case("faraway", zoo.faraway("value", "partial"), quick=120, thorough=1500, chunk=20))
CASES += [Case("wrap-" + e.__name__, wrapped(e), quick=60, thorough=600, chunk=20) for e in wrap.WRAP]
