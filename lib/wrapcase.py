"""Comparison of wrapper models with what they wrap."""
import numpy as np
import zoo
import util
import wrap


def compare(mon, rng, m, sp, tag):
    n = int(rng.integers(1, 25))
    x = sp.x(rng, n)
    p = np.array(sp.p, dtype=float)
    want = sp.ref(x, p)
    ok = np.ones(n, bool)
    if sp.kinks is not None:
        ok = sp.kinks(x, p) > 5e-3
    well = util.wellposed(sp.ref, x, p)
    if not well.all():
        x = x[well]
        n = len(x)
        if n == 0:
            return
        want, ok = want[well], ok[well]
    big = 1 + np.max(np.abs(want))
    with mon.guarded("value:" + tag, spec=sp.name):
        got = np.asarray(m.result(x, p.copy())) + np.zeros(n)
        mon.close(got, want, "value:" + tag, rtol=0, atol=max(sp.rtol, 1e-9) * big, spec=sp.name, p=p, x=x)
    with mon.guarded("partial:" + tag, spec=sp.name):
        got = np.asarray(m.partial(x, p.copy()))
        with np.errstate(all="ignore"):
            ref, g = util.gate(lambda h: util.num_partial(lambda q: sp.ref(x, q), p, h=h), p, 1)
        g &= ok.reshape(-1, 1)
        num = tag.startswith("User")
        mon.expect(got.shape == ref.shape, "partial-shape:" + tag, spec=sp.name, got=got.shape, want=ref.shape)
        if got.shape == ref.shape:
            sc = 1 + (np.max(np.abs(ref[g])) if g.any() else 0)
            mon.close(got[g], ref[g], "partial:" + tag, rtol=0, atol=(1e-4 if num else 3e-6) * sc, spec=sp.name, p=p, x=x)
    with mon.guarded("derivative:" + tag, spec=sp.name):
        got = np.asarray(m.derivative(x, p.copy()))
        with np.errstate(all="ignore"):
            ref, g = util.gate(lambda h: util.num_deriv(lambda y: sp.ref(y, p), x, sp.ndim, h=h), x, 1)
        g &= ok if g.ndim == 1 else ok.reshape(-1, 1)
        if got.shape != ref.shape and got.ndim < ref.ndim and sp.klass == "Constant":
            ref, g = ref[:, 0], g[:, 0]
        mon.expect(got.shape == ref.shape, "derivative-shape:" + tag, spec=sp.name, got=got.shape, want=ref.shape)
        if got.shape == ref.shape:
            sc = 1 + (np.max(np.abs(ref[g])) if g.any() else 0)
            mon.close(got[g], ref[g], "derivative:" + tag, rtol=0, atol=1e-4 * sc, spec=sp.name, p=p, x=x)


def wrapped(entry):
    def fn(mon, rng, idx):
        sp = entry(rng)
        tag = sp.klass
        if sp.fixable and rng.random() < 0.3 and len(sp.p) > 1:
            k = int(rng.integers(len(sp.p)))
            sp = zoo.fix(sp, {k: float(sp.p[k])})
            tag += "[fixed]"
            mon.count("fixed")
        m = sp.make()
        mon.expect(m.npars == len(sp.p), "nparams:" + tag, spec=sp.name, got=m.npars, want=len(sp.p))
        mon.expect(m.ndim == sp.ndim, "ndim:" + tag, spec=sp.name)
        if m.npars != len(sp.p):
            return
        compare(mon, rng, m, sp, tag)
        m.parameters = sp.p
        x = sp.x(rng, 7)
        x = x[util.wellposed(sp.ref, x, np.asarray(sp.p, dtype=float))]
        if len(x) == 0:
            return
        mon.close(np.asarray(m(x)) + np.zeros(len(x)), sp.ref(x, sp.p), "call:" + tag, rtol=1e-6, atol=1e-6 * (1 + np.max(np.abs(sp.ref(x, sp.p)))), spec=sp.name)
        if sp.ndim == 1 and rng.random() < 0.5:
            # in a compound
            o = zoo.polynomial(rng)
            q = np.concatenate((o.p, sp.p))
            c = o.make() + m
            w = o.ref(x, o.p) + sp.ref(x, sp.p)
            mon.close(c.result(x, q), w, "compound:" + tag, rtol=1e-6, atol=1e-6 * (1 + np.max(np.abs(w))), spec=sp.name)
            c = m * o.make()
            q = np.concatenate((sp.p, o.p))
            w = o.ref(x, o.p) * sp.ref(x, sp.p)
            mon.close(c.result(x, q), w, "compound:" + tag, rtol=1e-6, atol=1e-6 * (1 + np.max(np.abs(w))), spec=sp.name)
            mon.count("compound")
        mon.count(entry.__name__)
        mon.state(sp.name)
        mon.sample(sp.name)
    return fn
