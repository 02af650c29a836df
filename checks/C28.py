"""C28  Numeric helpers are exact."""
import math
import re
import numpy as np
from scipy import special
import BayesicFitting as bf
from BayesicFitting.source import Tools
from BayesicFitting.source.LogFactorial import logFactorial
from BayesicFitting.source.OrthonormalBasis import OrthonormalBasis
from BayesicFitting.source.Formatter import formatter, fma
from BayesicFitting.source.HyperParameter import HyperParameter
from BayesicFitting.source.NoiseScale import NoiseScale
from harness import Case

RULE = "distinct = (helper, form of the arguments)"
ASSUMPTIONS = ["a basis is judged for vectors that are not (nearly) in the space already spanned",
               "numbers are printed in formats which separate the items"]
REQUIRE = {"layer partials": 2000, "factorials": 2000, "vectors": 300, "printed": 300, "averages": 200, "hyper": 100, "lists": 200}


def factorial(mon, rng, idx):
    top = int(rng.choice([10, 99, 101, 150, 1000, 10 ** 6, 10 ** 12]))
    k = rng.integers(0, top + 1, int(rng.integers(1, 30)))
    if rng.random() < 0.4:
        k[rng.integers(len(k))] = int(rng.choice([0, 1, 2, 98, 99, 100, 101]))
    how = str(rng.choice(["array", "list", "float", "2d", "int32", "fraction"]))
    arg = {"array": k, "list": k.tolist(), "float": k.astype(float), "2d": k.reshape(1, -1), "int32": k if top > 10 ** 9 else k.astype(np.int32),
           "fraction": k + 0.75 if top < 10 ** 9 else k}[how]
    want = special.gammaln(k + 1.0)
    got = np.asarray(logFactorial(arg), dtype=float)
    mon.expect(got.shape == np.asarray(arg).shape, "logfact-shape", "%s" % (got.shape,), how=how)
    mon.close(got.reshape(-1), want, "logfact", rtol=1e-10, atol=1e-12, k=k, how=how)
    j = int(rng.integers(len(k)))
    for one in (int(k[j]), k[j], float(k[j]), np.float64(k[j])):
        mon.close(logFactorial(one), want[j], "logfact-one", rtol=1e-10, atol=1e-12, k=int(k[j]))
    # n! = n (n-1)!
    n = k[k > 0]
    if len(n) and top < 10 ** 7:
        mon.close(np.asarray(logFactorial(n)) - np.asarray(logFactorial(n - 1)), np.log(n), "logfact-step", rtol=1e-8, atol=1e-7, k=n)
    mon.count("factorials", len(k))
    mon.state("factorial", top, how)


def basis(mon, rng, idx):
    d = int(rng.integers(1, 9))
    ob = OrthonormalBasis()
    span = []
    err = 0.0                          # of the orthogonality so far
    for t in range(int(rng.integers(1, 3 * d + 2))):
        reset = rng.random() < 0.1
        if reset or len(span) == d:
            span = []
            err = 0.0
        v = rng.normal(size=d) * float(np.exp(rng.normal(0, 3)))
        if span and rng.random() < 0.3:
            # with a large component along the others
            v = v + sum(rng.normal() * np.exp(rng.uniform(-2, 5)) * u for u in span)
        if rng.random() < 0.2:
            v = np.zeros(d)
            v[rng.integers(d)] = float(rng.choice([-1, 1, 5]))
        B = np.array(span).reshape(-1, d)
        res = v - B.T @ (B @ v)
        res = res - B.T @ (B @ res)
        q = np.linalg.norm(res) / np.linalg.norm(v)
        if q < 1e-6:
            continue
        how = str(rng.choice(["array", "list", "int"])) if np.all(v == np.round(v)) else str(rng.choice(["array", "list"]))
        arg = {"array": v, "list": v.tolist(), "int": v.astype(int)}[how]
        keep = np.array(arg)
        u = np.asarray(ob.normalise(arg, reset=reset))
        tol = 30 * (err + 1e-15) * math.sqrt(d) / q
        err = max(err, tol)
        if tol > 1e-6:
            return
        wit = dict(dim=d, vector=v, size=len(span))
        if not mon.expect(u.shape == (d,), "basis-shape", "%s" % (u.shape,), **wit):
            return
        mon.expect(np.array_equal(keep, np.asarray(arg)), "basis-input", "the vector is changed", **wit)
        mon.close(np.linalg.norm(u), 1.0, "basis-unit", rtol=1e-12, **wit)
        mon.close(B @ u, np.zeros(len(span)), "basis-orthogonal", atol=tol, **wit)
        mon.close(u, res / np.linalg.norm(res), "basis-direction", atol=tol, detail="not the part of the vector outside the basis", **wit)
        span.append(np.array(u))
        got = np.asarray(ob.basis)
        if mon.expect(got.shape == (len(span), d), "basis-size", "%s instead of %d" % (got.shape, len(span)), **wit):
            mon.close(got, np.array(span), "basis-kept", atol=0, rtol=0, **wit)
        mon.count("vectors")
        mon.state("basis", d, len(span), how, bool(reset))


def tree(a, mx, tail):
    """ what has to be displayed of a (nested) list """
    if isinstance(a, list):
        n = len(a)
        if mx is None or n <= mx:
            return [tree(v, mx, tail) for v in a]
        t = min(tail, n - mx)
        return [tree(v, mx, tail) for v in a[:mx]] + ([tree(v, mx, tail) for v in a[n - t:]] if t else [])
    return a


def flat(t):
    return [w for v in t for w in flat(v)] if isinstance(t, list) else [t]


def display(mon, rng, idx):
    nd = int(rng.integers(0, 4))
    shp = tuple(int(v) for v in rng.integers(1, [1, 14, 8, 5][nd], nd)) if nd else ()
    if nd and np.prod(shp) == 1:
        shp = (2,) * nd
    kind = str(rng.choice(["float", "int", "float32", "int32", "bool"]))
    a = rng.normal(size=shp) * 100 if kind.startswith("float") else rng.integers(-999, 999, shp) if kind.startswith("int") else rng.random(shp) < 0.5
    if kind in ("float32", "int32"):
        a = np.asarray(a).astype(kind)
    form = None
    digits = 3
    if kind.startswith("float") and rng.random() < 0.4:
        digits = int(rng.integers(1, 6))
        form = " %%12.%df" % digits
    mx = [None, -1, 1, 2, 5, 20][int(rng.integers(6))]
    tail = int(rng.choice([0, 0, 1, 2, 5]))
    ll = int(rng.choice([30, 60, 120]))
    ind = int(rng.choice([0, 0, 3]))
    arg = a if rng.random() < 0.6 or kind in ("float32", "int32") else np.asarray(a).tolist()
    kw = dict(format=form, linelength=ll, indent=ind, tail=tail)
    if mx is None and rng.random() < 0.5:
        s = fma(arg, **kw)
    else:
        s = formatter(arg, max=mx, **kw)
    wit = dict(text=s, shape=shp, kind=kind, max=mx, tail=tail)
    eff = 5 if mx == -1 else mx
    want = tree(np.asarray(a, dtype=float).tolist(), eff, tail)
    got = [float(v) for v in re.findall(r"-?\d+\.?\d*", s)]
    wf = flat(want)
    mon.expect(len(got) == len(wf), "display-count", "%d numbers instead of %d" % (len(got), len(wf)), **wit)
    if len(got) == len(wf):
        mon.close(got, wf, "display-values", atol=0.5001 * 10.0 ** -(digits if kind.startswith("float") else 6), rtol=1e-6 if kind == "float32" else 1e-12, **wit)
    if nd:
        mon.expect(s.count("[") == s.count("]"), "display-brackets", **wit)
        deep = m = 0
        for ch in s:
            m += (ch == "[") - (ch == "]")
            deep = max(deep, m)
        mon.expect(deep == nd or 1 in shp and deep <= nd, "display-depth", "%d instead of %d" % (deep, nd), **wit)
    if eff is not None and any(n > eff + tail for n in shp):
        mon.expect("..." in s, "display-dots", "items are left out silently", **wit)
    else:
        mon.expect("..." not in s, "display-dots", "nothing is left out", **wit)
    width = (len(form % 1) if form else 9) if kind != "bool" else 2
    for line in s.split("\n"):
        mon.expect(len(line) <= max(ll, width) + 2 * nd + ind + 4, "display-length", "%d > %d" % (len(line), ll), **wit)
    mon.count("printed")
    mon.state("display", nd, kind, mx, tail, ll)


def averages(mon, rng, idx):
    n = int(rng.integers(1, 40))
    w = None
    if rng.random() < 0.6:
        w = rng.uniform(0, 3, n) if rng.random() < 0.6 else rng.integers(0, 4, n)
        if np.sum(w) == 0:
            w[0] = 1
    ww = np.ones(n) if w is None else w
    if idx % 2:
        x = rng.normal(size=n) * 5
        if rng.random() < 0.3:
            x = np.round(x).astype(int)
        a, s = Tools.average(x, weights=w)
        c = np.sum(ww * x) / np.sum(ww)
        mon.close(a, c, "average", rtol=1e-12, atol=1e-12, x=x, w=w)
        mon.close(s, math.sqrt(np.sum(ww * (x - c) ** 2) / np.sum(ww)), "average-stdev", rtol=1e-9, atol=1e-12, x=x, w=w)
        if w is not None and w.dtype.kind == "i":
            # weight n is n times the same
            b, t = Tools.average(np.repeat(x, w))
            mon.close([a, s], [b, t], "average-weight", rtol=1e-9, atol=1e-9, x=x, w=w)
    else:
        lo = float(rng.normal() * 3)
        P = float(rng.choice([1.0, 2 * math.pi, 24.0, np.exp(rng.normal())]))
        c = float(rng.uniform(0, P))
        u = rng.uniform(-0.2, 0.2, n) * P
        x = lo + (c + u) % P
        a, s = Tools.average(x, weights=w, circular=[lo, lo + P])
        mon.expect(lo - 1e-9 <= a <= lo + P + 1e-9, "circular-domain", "%g not in [%g,%g]" % (a, lo, lo + P), x=x, w=w)
        # the resultant vector points to the average
        ph = 2 * math.pi * (x - lo) / P
        S, C = np.sum(ww * np.sin(ph)), np.sum(ww * np.cos(ph))
        want = (math.atan2(S, C) * P / (2 * math.pi)) % P
        d = (a - lo - want + P / 2) % P - P / 2
        mon.close(d / P, 0.0, "circular-average", atol=1e-9, x=x, w=w)
        r = (x - lo - want + P / 2) % P - P / 2
        mon.close(s, math.sqrt(np.sum(ww * r * r) / np.sum(ww)), "circular-stdev", rtol=1e-9, atol=1e-9 * P, x=x, w=w)
        # shifting the circle shifts nothing else
        b, t = Tools.average(lo + (x - lo + 0.37 * P) % P, weights=w, circular=[lo, lo + P])
        d = (b - a - 0.37 * P + P / 2) % P - P / 2
        mon.close([d / P, (t - s) / P], [0, 0], "circular-shift", atol=1e-9, x=x, w=w)
    mon.count("averages")
    mon.state("average", idx % 2, w is None, min(n, 3))


def lists(mon, rng, idx):
    n = int(rng.integers(1, 8))
    a = rng.normal(size=n).tolist()
    k = int(rng.integers(0, 12))
    mon.expect(Tools.getItem(a, k) == a[min(k, n - 1)], "getitem", k=k, n=n)
    mon.expect(Tools.getItem(3.5, k) == 3.5 and Tools.getItem(None, k) is None, "getitem-single")
    for src in (a, np.array(a), tuple(a)):
        g = Tools.makeNext(src, k if k < n else 0)
        k0 = k if k < n else 0
        got = [next(g) for j in range(n + 4)]
        mon.expect(got == [a[min(k0 + j, n - 1)] for j in range(n + 4)], "makenext", "%s" % got, n=n, k=k0)
    g = Tools.makeNext(2.5, 0)
    mon.expect([next(g) for j in range(5)] == [2.5] * 5, "makenext-single")
    v = float(rng.normal())
    want = next((j for j, q in enumerate(a) if q > v), None)
    try:
        got = Tools.firstIndex(a, condition=lambda q: q > v)
    except StopIteration:
        got = None
    mon.expect(got == want, "firstindex", "%s instead of %s" % (got, want))
    mon.expect(Tools.length(a) == n and Tools.length(None) == 0 and Tools.length(3.0) == 1 and Tools.length(np.array(a)) == n, "length")
    lo, hi, x = rng.normal(size=3)
    mon.expect(Tools.isBetween(lo, x, hi) == (min(lo, hi) <= x <= max(lo, hi)) and Tools.isBetween(lo, lo, hi) and Tools.isBetween(lo, hi, hi), "between")
    t = Tools.toArray(v)
    mon.expect(t.shape == (1,) and t[0] == v and Tools.toArray(a).tolist() == a and Tools.toArray(a, ndim=2).ndim == 2, "toarray")
    src = np.array(a)
    t = Tools.toArray(src)
    t[0] = 99.0
    mon.expect(src[0] == a[0], "toarray-copy")
    m = rng.normal(size=(4, 3))
    mon.expect(np.array_equal(Tools.getColumnData(m, 1), m[:, 1]), "column")
    z = float(rng.normal() * np.exp(rng.normal(0, 6)))
    nz = Tools.nicenumber(z)
    mon.expect(np.sign(nz) == np.sign(z) and abs(z) / 2.0000001 <= abs(nz) <= abs(z) * 1.0000001, "nicenumber", "%g -> %g" % (z, nz))
    if nz != 0:
        lead = abs(nz) / 10.0 ** math.floor(math.log10(abs(nz)) + 1e-9)
        mon.close(lead, round(lead), "nicenumber", detail="%g is not a round number" % nz, atol=1e-6)
    f = rng.integers(-50, 50, 9)
    mon.expect(np.array_equal(Tools.fix2int(f + rng.uniform(-1e-9, 1e-9, 9)), f), "fix2int")
    for item, cls, one, many in ((3, int, True, False), (np.int64(3), int, True, False), (3.5, int, False, False), (3, float, True, False),
                                 ([1, 2], int, True, True), ([1, 2.5], int, False, False), ([1, 2.5], float, True, True),
                                 (np.array([1.0, 2.0]), float, True, True), ("a", float, False, False)):
        mon.expect(tuple(bool(q) for q in Tools.isList(item, cls)) == (one, many), "islist", "%s %s gives %s" % (item, cls, Tools.isList(item, cls)))
    mon.count("lists")
    mon.state("lists", n, k)


def limited(P, lo, hi):
    p = P()
    p.setLimits([lo, hi])
    return p


def hyper(mon, rng, idx):
    """ a hyperparameter is its prior, with a value """
    lo, hi = sorted(np.exp(rng.normal(0, 1, 2)) * [1, 3])
    cls = [HyperParameter, NoiseScale][idx % 2]
    val = float(lo + 0.3 * (hi - lo))
    key = "hypar" if cls is HyperParameter else "scale"
    how = str(rng.choice(["none", "limits", "prior", "prior+limits", "prior with limits"]))
    P = {"U": bf.UniformPrior, "J": bf.JeffreysPrior, "G": bf.GaussPrior, "E": bf.ExponentialPrior}[str(rng.choice(list("UJGE")))]
    prior = limited(P, lo, hi) if how == "prior with limits" else P()
    fixed = bool(rng.integers(2))
    kw = {key: val}
    if how == "none":
        h = cls(isFixed=fixed, **kw)
        mon.expect(h.isFixed == fixed and h.prior is None, "hyper-fixed")
        for f in (h.unit2Domain, h.domain2Unit, h.partialDomain2Unit):
            try:
                f(0.5)
                mon.expect(False, "hyper-noprior", "no error without a prior")
            except ValueError:
                mon.expect(True, "hyper-noprior")
        want = None
    elif how == "limits":
        h = cls(limits=[lo, hi], isFixed=fixed, **kw)
        want = bf.JeffreysPrior(limits=[lo, hi])
        mon.expect(isinstance(h.prior, bf.JeffreysPrior), "hyper-default", "%s" % h.prior)
    elif how == "prior+limits":
        h = cls(prior=prior, limits=[lo, hi], **kw)
        want = limited(P, lo, hi)
    else:
        h = cls(prior=prior, **kw)
        want = limited(P, lo, hi) if how == "prior with limits" else P()
    wit = dict(how=how, prior=P.__name__, cls=cls.__name__, lo=lo, hi=hi)
    mon.close(h.hypar, val, "hyper-value", rtol=0, **wit)
    both = [h, h.copy()]
    for o in both:
        mon.close(o.hypar, val, "hyper-copy", rtol=0, **wit)
        if cls is NoiseScale:
            mon.close(o.scale, val, "hyper-scale", rtol=0, **wit)
        mon.expect(o.isFixed == h.isFixed, "hyper-copy", **wit)
        if want is not None:
            mon.expect(not o.isFixed, "hyper-free", **wit)
            mon.close(np.array(o.getLimits(), dtype=float), np.array(want.getLimits(), dtype=float), "hyper-limits", rtol=0, **wit)
            if want.isBound() or P in (bf.GaussPrior, bf.ExponentialPrior):
                mon.expect(o.isBound() == want.isBound(), "hyper-bound", **wit)
                for u in rng.uniform(0.01, 0.99, 4):
                    v = want.unit2Domain(u)
                    mon.close(o.unit2Domain(u), v, "hyper-map", rtol=1e-12, **wit)
                    mon.close(o.domain2Unit(v), want.domain2Unit(v), "hyper-map", rtol=1e-12, **wit)
                    mon.close(o.partialDomain2Unit(v), want.partialDomain2Unit(v), "hyper-density", rtol=1e-9, **wit)
    c = both[1]
    c.hypar = 17.0
    mon.close(h.hypar, val, "hyper-independent", rtol=0, **wit)
    if want is not None:
        c.setLimits([lo / 2, hi * 2])
        mon.close(np.array(h.getLimits(), dtype=float), np.array(want.getLimits(), dtype=float), "hyper-independent", rtol=0, **wit)
        mon.close(np.array(c.getLimits(), dtype=float), [lo / 2, hi * 2], "hyper-setlimits", rtol=0, **wit)
    mon.count("hyper")
    mon.state("hyper", cls.__name__, how, P.__name__)


TRANSFER = {"Identity": lambda z: z, "Arctan": np.arctan, "Logistic": lambda z: special.expit(z),
            "Heaviside": lambda z: (z >= 0) * 1.0, "Softmax": lambda z: special.softmax(z, axis=1)}


def layers(mon, rng, idx):
    """ connected layers of neurons: values, partials and derivatives along the chain """
    from BayesicFitting.source import NeuralNetUtilities as nn
    n = int(rng.integers(1, 8))
    nl = int(rng.integers(1, 4))
    size = [int(rng.integers(1, 5)) for _ in range(nl + 1)]
    parts, names = [], []
    for k in range(nl):
        bias = bool(rng.integers(2))
        con = (nn.ConnectWithBias if bias else nn.Connect)(ndim=size[k], ndout=size[k + 1])
        t = list(TRANSFER)[int(rng.integers(5))]
        tr = nn.Softmax(ndout=size[k + 1]) if t == "Softmax" else getattr(nn, t)()
        parts.append((con, tr, t, bias, size[k] * size[k + 1] + (size[k + 1] if bias else 0)))
        names.append("%s%d%s" % (t, size[k + 1], "b" if bias else ""))
    cut = np.cumsum([0] + [q[4] for q in parts])
    p = rng.normal(0, 1.5, cut[-1])
    x = rng.normal(0, 2, (n, size[0])) * (30 if rng.random() < 0.1 else 1)

    def forward(x, p):
        z, low = x, np.full(len(x), np.inf)
        for k, (con, tr, t, bias, m) in enumerate(parts):
            q = p[cut[k]:cut[k + 1]]
            nw = size[k] * size[k + 1]
            z = z @ q[:nw].reshape(size[k + 1], size[k]).T + (q[nw:] if bias else 0.0)
            if t == "Heaviside":
                low = np.minimum(low, np.min(np.abs(z), axis=1))
            z = TRANSFER[t](z)
        return z, low

    want, low = forward(x, p)
    tag = "+".join(q[2] for q in parts) if nl == 1 else "net"
    with mon.guarded("layers:" + tag, names=names, size=size):
        pk, xk = p.copy(), x.copy()
        z, dfdp, dfdx = x, None, None
        for k, (con, tr, t, bias, m) in enumerate(parts):
            q = p[cut[k]:cut[k + 1]]
            inp = z
            y = np.asarray(con.result(inp, q))
            own = np.asarray(con.partial(inp, q))
            mon.expect(own.shape == (size[k + 1], n, m), "layers-shape:" + tag, names=names, got=own.shape)
            if dfdp is None:
                drdp = own
            else:
                back = nn.BaseNeuralNetworkUtilities.pipe(con, con.derivative(inp, q), dfdp)
                drdp = np.concatenate((np.reshape(back, (size[k + 1], n, -1)), own), axis=2)
            z = np.asarray(tr.result(y, None))
            d = np.asarray(tr.derivative(y, None))
            dfdp = np.reshape(tr.pipe(d, drdp), (size[k + 1], n, -1))
        mon.close(z, want, "layers:" + tag, rtol=1e-10, atol=1e-12, names=names, size=size)
        mon.close(np.asarray(p), pk, "layers-untouched", rtol=0)
        mon.close(np.asarray(x), xk, "layers-untouched", rtol=0)
        if nl and parts[-1][2] == "Softmax":
            mon.close(np.sum(z, axis=1), np.ones(n), "layers-sum", rtol=1e-12)
        fine = low > 1e-2
        for j in range(len(p)):
            r = []
            for h in (1e-4, 3e-5):
                q1, q2 = p.copy(), p.copy()
                q1[j] -= h
                q2[j] += h
                r.append((forward(x, q2)[0] - forward(x, q1)[0]) / (2 * h))
            good = fine & np.all(np.abs(r[0] - r[1]) < 1e-5 * (1 + np.abs(r[1])), axis=1)
            mon.close(dfdp[:, good, j].T, r[1][good], "layers-partial:" + tag, rtol=1e-4, atol=1e-5, names=names, size=size, par=j)
        mon.count("layer partials", len(p) * n)
        mon.state("layers", *names)


CASES = [Case("layers", layers, quick=150, thorough=2500, chunk=25),
         Case("factorial", factorial, quick=200, thorough=3000, chunk=20),
         Case("basis", basis, quick=120, thorough=2000, chunk=20),
         Case("display", display, quick=400, thorough=6000, chunk=40),
         Case("averages", averages, quick=240, thorough=4000, chunk=40),
         Case("lists", lists, quick=240, thorough=3000, chunk=40),
         Case("hyper", hyper, quick=160, thorough=2000, chunk=20)]
