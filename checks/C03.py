"""C03  The derivative to the input x is that of the result."""
import numpy as np
import zoo
import wrap
from wrapcase import wrapped
import util
from harness import Case

RULE = "distinct = model configuration whose df/dx was compared with a 5-point derivative of an independent formula"
ASSUMPTIONS = ["points closer than 5e-3 to a kink of the function (knots, kernel edges) are left out",
               "tolerance 2e-6 relative to the size of the derivatives (numeric fall back: 1e-4)"]
REQUIRE = {"whole": 100, "derivatives": 15000, "numeric-derivatives": 1000}


def hstep(sp):
    """ orbits of high eccentricity turn within a small fraction of their period """
    return 3e-4 if sp.rtol < 1e-8 else 3e-5


def one(entry):
    def fn(mon, rng, idx):
        sp = entry(rng)
        fixed = getattr(sp, "defaultfix", {})
        p = zoo.freeparams(sp, fixed)
        n = int(rng.integers(1, 40))
        x = sp.x(rng, n)
        ok = np.ones(n, dtype=bool)
        if sp.kinks is not None:
            ok = sp.kinks(x, sp.p) > 5e-3
        spherical = "sph=True" in sp.name
        def f(y):
            r = sp.ref(y, sp.p)
            if spherical:
                q0 = sp.ref(x, sp.p)
                r[:, 1] = q0[:, 1] + util.angdiff(r[:, 1] - q0[:, 1])
            return r
        ref = util.num_deriv(f, x, sp.ndim, h=hstep(sp))
        scale = 1.0 + np.max(np.abs(ref))
        numeric = not sp.deriv
        with mon.guarded("derivative:" + sp.klass, spec=sp.name, p=sp.p):
            m = sp.make()
            if rng.random() < 0.3:
                m = m.copy()
            got = util.stack_deriv(m.derivative(x, p.copy()), sp.ndim, sp.ndout)
            g, r = (got[ok], ref[ok]) if got.shape == ref.shape else (got, ref)
            tol = (1e-4 if numeric else 2e-6 if sp.rtol < 1e-8 else 1e-5) * scale
            mon.close(g, r, "derivative:" + sp.klass, rtol=0, atol=tol, spec=sp.name, p=sp.p, x=x)
            mon.count("derivatives", g.size)
            mon.state(sp.name, n)
        if rng.random() < 0.5:
            with mon.guarded("numeric-derivative:" + sp.klass, spec=sp.name, p=sp.p):
                for fun in (m.numDerivative, m.strictNumericDerivative):
                    num = util.stack_deriv(fun(x, p.copy()), sp.ndim, sp.ndout)
                    if spherical:
                        num[np.abs(num) > 1e4] = ref[np.abs(num) > 1e4]
                    g, r = (num[ok], ref[ok]) if num.shape == ref.shape else (num, ref)
                    mon.close(g, r, "numeric-derivative:" + sp.klass, rtol=0, atol=2e-4 * scale, spec=sp.name, p=sp.p, x=x)
                    mon.count("numeric-derivatives", g.size)
        mon.sample("df/dx of %s at %d points" % (sp.name, n))
    return fn


# Football works on pairs of team numbers: there is no derivative to its input
CASES = [Case(e.__name__, one(e), quick=60 if e not in (zoo.kernel2d, zoo.kernelmodel) else 160, thorough=800,
              chunk=20) for e in zoo.ALL if e is not zoo.football]


def centre(mon, rng, idx):
    """ 2-d kernels which are smooth at the centre have a vanishing gradient there """
    name = ["Gauss", "Lorentz", "Biweight", "Triweight", "CosSquare", "Cosine", "Parabola", "Sinc", "Tophat2",
            "Tophat3", "Tophat4", "Tophat5", "Tophat6", "Tricube"][idx % 14]
    shape = 1 + (idx // 14) % 3
    sp = zoo.kernel2d(rng, name, shape)
    x = sp.x(rng, 5)
    x[2] = sp.p[1:3]
    m = sp.make()
    df = np.asarray(m.derivative(x, sp.p.copy()))
    mon.close(df[2], [0.0, 0.0], "derivative-at-centre:Kernel2d", atol=1e-9, spec=sp.name)
    pt = np.asarray(m.partial(x, sp.p.copy()))
    want = np.zeros(len(sp.p))
    want[0] = 1.0
    mon.close(pt[2], want, "partial-at-centre:Kernel2d", atol=1e-9, spec=sp.name)
    mon.state(sp.name, "centre")


CASES.append(Case("centre", centre, quick=42, thorough=420, chunk=21))
CASES.append(Case("whole", zoo.whole("value", "derivative"), quick=280, thorough=4000, chunk=20))
CASES.append(Case("faraway", zoo.faraway("value", "derivative"), quick=120, thorough=1500, chunk=20))
CASES += [Case("wrap-" + e.__name__, wrapped(e), quick=60, thorough=600, chunk=20) for e in wrap.WRAP]
