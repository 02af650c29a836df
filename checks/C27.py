"""C27  Kernels are even, normalised and have the documented width and range."""
import math
import numpy as np
from scipy import integrate
import BayesicFitting as bf
import kern
from harness import Case

RULE = "distinct = (kernel, aspect, size and form of the input)"
ASSUMPTIONS = ["Sinc is sin( pi x ) / ( pi x ), the form to which its integral and width belong",
               "at a discontinuity any value between both sides is accepted"]
REQUIRE = {"kernels": 38, "inputs": 3000, "integrals": 17, "models": 30}

NAMES = [n for n in kern.DEF]


def make(name):
    if name.startswith("Tophat"):
        return bf.Tophat(int(name[6:]))
    return getattr(bf, name)()


def define(name):
    f, I, r = kern.DEF[name]
    if name == "Sinc":
        return lambda x: np.sinc(x)
    return f


def edges(name):
    """ where it or its slope is not continuous """
    if name in ("Gauss", "Lorentz", "Sinc"):
        return []
    if name == "Huber":
        return [1.0]
    r = make(name).range
    e = [r]
    if name == "Triangle" or name == "Tophat1":
        e.append(0.0)
    if name.startswith("Tophat"):
        n = int(name[6:])
        e += [r - k for k in range(1, n + 1) if r - k >= 0]
    return e


def static(mon, rng, idx):
    """ attributes against what the function really does """
    name = NAMES[idx % len(NAMES)]
    k = make(name)
    r = k.range
    mon.count("kernels")
    mon.state(name, "static")
    mon.expect(k.isBound() == math.isfinite(r), "bound", "%s isBound %s with range %s" % (name, k.isBound(), r), kernel=name)
    mon.expect(isinstance(k.name(), str) and k.name().startswith(name[:6]), "name", k.name())

    def f(x):
        return float(np.asarray(k.result(x)).reshape(-1)[0])

    mon.close(f(0.0), 1.0, "centre", detail=name, rtol=1e-9, kernel=name)
    # full width at half maximum, from the function itself
    if name in ("Uniform", "Tophat0"):
        w = r
    else:
        lo, hi = 0.0, (r if math.isfinite(r) else 5.0)
        grid = np.linspace(lo, hi, 4001)
        v = np.asarray(k.result(grid), dtype=float).reshape(-1)
        j = int(np.argmax(v < 0.5))
        lo, hi = grid[j - 1], grid[j]
        for t in range(80):
            m = 0.5 * (lo + hi)
            if f(m) >= 0.5:
                lo = m
            else:
                hi = m
        w = lo
    mon.close(k.fwhm, 2 * w, "fwhm", detail=name, rtol=1e-6, kernel=name)
    # integral
    if name == "Huber":
        mon.expect(math.isinf(k.integral), "integral", "%s" % k.integral)
    elif name == "Sinc":
        n = 4000
        # average over the period of the tail: integral to N + corrections cos( pi N ) / ( pi^2 N )
        x = np.linspace(0, n, n * 40 + 1)
        s = 2 * integrate.simpson(np.asarray(k.result(x), dtype=float), x=x) + 2 * math.cos(math.pi * n) / (math.pi ** 2 * n)
        mon.close(k.integral, s, "integral", detail=name, rtol=1e-6)
    else:
        ed = sorted(set(edges(name)))
        if math.isfinite(r):
            pts = [-e for e in ed[::-1] if e > 0] + ed
            pts = sorted(set(pts + [0.0]))
            s = sum(integrate.quad(f, a + 1e-13, b - 1e-13, epsabs=1e-12, epsrel=1e-11)[0] for a, b in zip(pts[:-1], pts[1:]))
        else:
            s = integrate.quad(f, -math.inf, math.inf, epsabs=1e-12, epsrel=1e-10)[0]
        mon.close(k.integral, s, "integral", detail=name, rtol=1e-8, kernel=name)
    mon.count("integrals")
    # range is sharp: inside it is there, outside is nothing
    if math.isfinite(r):
        out = r + np.concatenate((np.geomspace(1e-12, 10, 50), [1e3, 1e9]))
        for x in (out, -out):
            mon.expect(not np.any(k.result(x)) and not np.any(k.partial(x)) and not np.any(k.resultsq(x * x)), "range", "%s is not zero beyond its range" % name, kernel=name)
        inn = r * np.linspace(0.0, 0.98, 60)
        mon.expect(np.all(np.asarray(k.result(inn)) > 0), "range", "%s is zero within its range" % name, kernel=name)
    else:
        mon.expect(np.any(np.asarray(k.result(np.array([25.3, 20.4]))) != 0) , "range", name)


def form(rng, x):
    h = int(rng.integers(0, 5))
    if h == 0:
        return x, "float"
    if h == 1:
        return np.round(x).astype(int), "int"
    if h == 2:
        return x.reshape(-1, 1)[:, 0], "view"
    if h == 3:
        return np.concatenate((x, x))[::2], "strided"
    return np.asfortranarray(x), "float"


def values(mon, rng, idx):
    """ value, square form and slope, everywhere, in every form """
    name = NAMES[idx % len(NAMES)]
    k = make(name)
    ref = define(name)
    r = k.range if math.isfinite(k.range) else 4.0
    for t in range(6):
        n = int(rng.integers(1, 40))
        x = rng.normal(size=n) * r * float(rng.choice([0.1, 0.5, 1.0, 3.0, 30.0]))
        if rng.random() < 0.4:
            e = np.array(edges(name) + [0.0])
            x[rng.integers(n)] = float(rng.choice(e)) * float(rng.choice([-1, 1]))
        x, how = form(rng, x)
        keep = np.array(x)
        xf = np.array(x, dtype=float)
        ed = np.array(edges(name))
        jump = np.zeros(len(xf), dtype=bool)
        if name in ("Uniform", "Tophat0"):
            jump = np.abs(np.abs(xf) - k.range) < 1e-9
        got = np.asarray(k.result(x), dtype=float)
        wit = dict(kernel=name, x=xf, form=how)
        if not mon.expect(got.shape == xf.shape, "shape", "%s" % (got.shape,), **wit):
            continue
        want = ref(xf)
        mon.close(got[~jump], want[~jump], "value/" + name, rtol=1e-9, atol=1e-9, **wit)
        mon.expect(np.all((got[jump] >= 0) & (got[jump] <= 1)), "value/" + name, "at the edge", **wit)
        mon.close(k.result(-x), got, "even", detail=name, rtol=1e-12, atol=1e-15, **wit)
        sq = np.asarray(k.resultsq(x * x), dtype=float)
        mon.close(sq[~jump], got[~jump], "square", detail=name, rtol=1e-7, atol=1e-7, **wit)
        d = np.asarray(k.partial(x), dtype=float)
        if mon.expect(d.shape == xf.shape, "shape-slope", "%s" % (d.shape,), **wit):
            near = jump.copy()
            for e in ed:
                near |= np.abs(np.abs(xf) - e) < 2e-3
            h = 1e-4
            num = (-ref(xf + 2 * h) + 8 * ref(xf + h) - 8 * ref(xf - h) + ref(xf - 2 * h)) / (12 * h)
            mon.close(d[~near], num[~near], "slope/" + name, rtol=1e-7, atol=1e-8, **wit)
            mon.close(k.partial(-x)[~near], -d[~near], "odd-slope", rtol=1e-12, atol=1e-15, **wit)
        mon.expect(np.array_equal(keep, x), "input", "the input is changed", **wit)
        # one at the time
        j = int(rng.integers(n))
        mon.close(np.asarray(k.result(x[j])).reshape(-1)[0], got[j], "scalar", detail=name, rtol=1e-12, atol=1e-15, **wit)
        mon.close(np.asarray(k.partial(x[j])).reshape(-1)[0], d[j], "scalar", detail=name, rtol=1e-12, atol=1e-15, **wit)
        mon.count("inputs", n)
        mon.state(name, "values", how, min(n, 3))
    mon.count("kernels")


def models(mon, rng, idx):
    """ kernel models are shifted and scaled kernels """
    name = NAMES[idx % len(NAMES)]
    k = make(name)
    ref = define(name)
    m = bf.KernelModel(kernel=k)
    p = np.array([rng.normal(), rng.normal(), np.exp(rng.normal())])
    x = p[1] + p[2] * rng.normal(size=30) * (k.range if math.isfinite(k.range) else 2.0)
    u = (x - p[1]) / p[2]
    near = np.zeros(len(x), dtype=bool)
    for e in edges(name):
        near |= np.abs(np.abs(u) - e) < 1e-3
    mon.close(m.result(x, p)[~near], p[0] * ref(u)[~near], "model/" + name, rtol=1e-9, atol=1e-12, kernel=name, p=p)
    if np.any(~near):
        # the integral scales
        if name not in ("Huber", "Sinc", "Lorentz") and math.isfinite(k.integral):
            r = (k.range if math.isfinite(k.range) else 12.0) * p[2]
            g = np.linspace(p[1] - r, p[1] + r, 40001)
            s = integrate.trapezoid(m.result(g, p), g)
            mon.close(s, p[0] * p[2] * k.integral, "model-integral/" + name, rtol=2e-4, kernel=name, p=p)
    mon.count("models")
    mon.state(name, "model")


CASES = [Case("static", static, quick=19, thorough=19, chunk=4),
         Case("values", values, quick=152, thorough=3000, chunk=10),
         Case("models", models, quick=38, thorough=400, chunk=10)]
