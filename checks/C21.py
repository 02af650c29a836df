"""C21  The same seed gives the same results."""
import math
import os
import random
import subprocess
import sys
import hashlib
import numpy as np
import BayesicFitting as bf
import nsrun
import fits
from harness import Case

RULE = "distinct = (algorithm, engines, problem, settings) run repeatedly with equal and different seeds"
ASSUMPTIONS = ["the global generators of numpy and python are brought into another state between the runs",
               "runs in new processes get other hash seeds"]
REQUIRE = {"sampler": 20, "dynamic": 8, "solver": 6, "amoeba": 20, "montecarlo": 20, "process": 2, "other seed differs": 40}


def disturb(k):
    """ whatever happens to be done elsewhere in the process """
    np.random.seed(1000 + 77 * k)
    np.random.rand(1 + k % 7)
    random.seed(9000 + 13 * k)
    random.random()
    if k % 2:
        m = bf.PolynomialModel(1)
        m.setLimits([-3, -3], [3, 3])
        ns = bf.NestedSampler(np.arange(5.), m, np.arange(5.) + 0.1, ensemble=10, verbose=0, seed=k)
        ns.maxIterations = 5
        ns.minimumIterations = 2
        ns.sample()
    if k % 3 == 0:
        bf.Fitter(np.arange(4.), bf.PolynomialModel(1)).fit(np.arange(4.) + 0.3)


def record(ns):
    S = ns.samples
    out = [np.array([ns.logZ, ns.info, ns.iteration], dtype=float)]
    for s in S:
        out.append(np.concatenate([[s.logL, s.logW, s.id, s.parent, s.start], np.asarray(s.allpars, dtype=float)]))
    return out


def equal(a, b):
    if len(a) != len(b):
        return "%d and %d items" % (len(a), len(b))
    for k, (u, v) in enumerate(zip(a, b)):
        u, v = np.asarray(u), np.asarray(v)
        if u.shape != v.shape or not np.array_equal(u, v, equal_nan=True):
            return "item %d of %d: %s and %s" % (k, len(a), u, v)
    return None


def thrice(mon, rng, idx, run, tag, always=True, **wit):
    """ run( seed ) -> list of arrays; same seed twice and another seed once """
    seed = int(rng.integers(1, 1 << 30))
    disturb(idx)
    a = run(seed)
    if a is None:
        return None
    disturb(idx + 1)
    g0, p0 = np.random.get_state()[1].copy(), random.getstate()
    b = run(seed)
    d = equal(a, b)
    mon.expect(d is None, "same/" + tag, "runs with the same seed differ in %s" % d, seed=seed, **wit)
    c = run(seed + 1)
    if c is not None:
        diff = equal(a, c) is not None
        if diff:
            mon.count("other seed differs")
        if always:
            mon.expect(diff, "other/" + tag, "runs with different seeds are identical", seed=seed, **wit)
    return a


def digest(a):
    h = hashlib.sha1()
    for u in a:
        h.update(np.ascontiguousarray(np.asarray(u, dtype=float)).tobytes())
    return h.hexdigest()


# ---------------------------------------------------------------- samplers

def sampler(sub, how):
    """ a function of the seed that makes everything anew from the number sub """
    def run(seed):
        rng = np.random.default_rng(sub)
        phantom = how == "phantom"
        r = nsrun.make(rng)
        names = list(nsrun.ENGINES)
        k = int(rng.integers(0, 4))
        eng = [None, ["galilean", "chord"], [names[int(rng.integers(4))]], [str(v) for v in rng.choice(names, 3, replace=False)]][k]
        kw = dict(problem=r.problem, distribution=r.errdis, ensemble=int(rng.integers(10, 25)), seed=seed, engines=eng, verbose=0)
        if phantom:
            cls = bf.PhantomSampler
            kw["step"] = int(rng.integers(4, 11))
        else:
            cls = bf.NestedSampler
            kw["discard"] = int(rng.choice([1, 1, 2, 3]))
        if rng.random() < 0.3:
            kw["rate"] = float(rng.uniform(0.5, 2.0))
        ns = cls(**kw)
        ns.maxIterations = 60
        ns.minimumIterations = 20
        run.text = "%s %s %s" % (cls.__name__, eng, r.text)
        run.state = (cls.__name__, str(eng), r.kind, r.name, r.forms)
        try:
            ns.sample()
        except RuntimeError as e:
            if "starting" in str(e):
                return None
            raise
        return record(ns)
    return run


def samplers(mon, rng, idx):
    sub = int(rng.integers(1 << 40))
    how = "phantom" if idx % 5 == 4 else "nested"
    run = sampler(sub, how)
    a = thrice(mon, rng, idx, run, how, sub=sub)
    if a is not None:
        mon.count("sampler")
        mon.state(*run.state)
        mon.sample(run.text, samples=len(a) - 1)


def dynrun(sub):
    def run(seed):
        rng = np.random.default_rng(sub)
        n = int(rng.integers(12, 25))
        x = np.sort(rng.uniform(0, 4, n))
        y = 1 + np.sin(1.7 * x) + 0.1 * rng.normal(size=n)
        form = int(rng.integers(0, 4))
        gp = [None, bf.ExponentialPrior(scale=2)][int(rng.integers(2))]
        if form == 0:
            m = bf.PolynomialDynamicModel(1, maxDegree=4, growPrior=gp)
            m.setLimits([-5], [5])
        elif form == 1:
            m = bf.HarmonicDynamicModel(1, maxOrder=4, period=4.0, growPrior=gp)
            m.setLimits([-5], [5])
        elif form == 2:
            g = bf.GaussModel()
            g.setLimits([-3, 0, 0.2], [3, 4, 2])
            m = bf.RepeatingModel(1, g, minComp=1, maxComp=3)
        else:
            m = bf.SplinesDynamicModel(knots=np.linspace(0, 4, 3), maxKnots=6)
            m.setLimits([-5], [5])
        d = bf.GaussErrorDistribution(scale=0.3, limits=[0.01, 3])
        ns = bf.NestedSampler(x, m, y, distribution=d, ensemble=int(rng.integers(10, 20)), seed=seed, verbose=0)
        ns.maxIterations = 60
        ns.minimumIterations = 20
        run.state = ("dynamic", form, gp is None)
        run.text = "%s" % m
        ns.sample()
        return record(ns)
    return run


def dynamic(mon, rng, idx):
    sub = int(rng.integers(1 << 40))
    run = dynrun(sub)
    a = thrice(mon, rng, idx, run, "dynamic", sub=sub)
    if a is not None:
        mon.count("dynamic")
        mon.state(*run.state)
        mon.sample(run.text, samples=len(a) - 1)


# ---------------------------------------------------------------- order problems

def ordrun(sub):
    def run(seed):
        rng = np.random.default_rng(sub)
        n = int(rng.integers(8, 14))
        x = rng.uniform(0, 10, (n, 2))
        names = ["move", "reverse", "switch", "loop", "near", "shuffle"]
        eng = None if rng.random() < 0.4 else [str(v) for v in rng.choice(names, int(rng.integers(1, 5)), replace=False)]
        ns = bf.NestedSolver(bf.SalesmanProblem(x), engines=eng, ensemble=int(rng.integers(10, 20)),
                             discard=int(rng.integers(1, 3)), seed=seed, verbose=0)
        ns.maxIterations = 60
        ns.minimumIterations = 20
        run.text = "%d nodes %s" % (n, eng)
        run.state = ("solver", n, str(eng))
        b = ns.solve()
        return [np.asarray(b.allpars)] + [np.asarray(s.allpars) for s in ns.samples] + [np.array([s.logL for s in ns.samples])]
    return run


def solver(mon, rng, idx):
    sub = int(rng.integers(1 << 40))
    run = ordrun(sub)
    a = thrice(mon, rng, idx, run, "solver", sub=sub)
    if a is not None:
        mon.count("solver")
        mon.state(*run.state)
        mon.sample(run.text, samples=len(a) - 2)


# ---------------------------------------------------------------- simplex, monte carlo

def amorun(sub):
    def run(seed):
        rng = np.random.default_rng(sub)
        nd = int(rng.integers(2, 5))
        c = rng.normal(size=nd)
        H = rng.normal(size=(nd, nd))
        H = H @ H.T + 0.3 * np.eye(nd)

        def func(p):
            d = np.asarray(p) - c
            return float(d @ H @ d + 0.4 * np.sum(np.cos(4 * d)))
        temp = [0, 1.0, 20.0][int(rng.integers(3))]
        run.text = "%d dimensions temperature %g" % (nd, temp)
        run.state = ("amoeba", nd, temp)
        trace = []

        def watched(p):
            v = func(p)
            trace.append(np.append(p, v))
            return v
        a = bf.AnnealingAmoeba(watched, c + rng.normal(0, 2, nd), size=1.0, seed=seed, temp=temp, maxiter=2000, verbose=0)
        try:
            f = a.minimize()
        except bf.ConvergenceError:
            f = math.nan
        return [np.asarray(a.xopt), np.array([a.fopt])] + trace
    return run


def amoeba(mon, rng, idx):
    sub = int(rng.integers(1 << 40))
    run = amorun(sub)
    a = thrice(mon, rng, idx, run, "amoeba", always=False, sub=sub)
    mon.count("amoeba")
    mon.state(*run.state)
    mon.sample(run.text, evaluations=len(a) - 2)


def amofit(mon, rng, idx):
    sub = int(rng.integers(1 << 40))

    def run(seed):
        q = np.random.default_rng(sub)
        x = np.linspace(-2, 2, 30)
        y = 3 * np.exp(-0.5 * ((x - 0.3) / 0.5)**2) + 0.1 * q.normal(size=30)
        m = bf.GaussModel()
        m.parameters = np.array([2.0, 0.0, 0.7])
        f = bf.AmoebaFitter(x, m)
        f.verbose = 0
        p = f.fit(y, temp=float(q.choice([0, 5.0])), maxiter=5000, seed=seed)
        return [p, np.array([f.chisq])]
    with mon.guarded("amoebafitter"):
        thrice(mon, rng, idx, run, "amoebafitter", always=False, sub=sub)
        mon.count("amoebafitter")
        mon.state("amoebafitter", idx % 2)


def montecarlo(mon, rng, idx):
    sub = int(rng.integers(1 << 40))

    def run(seed):
        q = np.random.default_rng(sub)
        d = int(q.integers(0, 4))
        x = np.sort(q.uniform(-1, 1, 20))
        y = q.normal(size=20)
        m = bf.PolynomialModel(d)
        f = bf.Fitter(x, m)
        f.fit(y)
        run.state = ("montecarlo", d, idx % 2)
        mc = bf.MonteCarlo(x, m, f.covariance, seed=seed, mcycles=int(q.integers(5, 30)))
        if idx % 2:
            return [mc.getError(), mc.getError(np.linspace(-1, 1, 7)), mc.randomVariant(x)]
        e = f.monteCarloError(monteCarlo=mc)
        e2 = f.monteCarloError()
        e3 = f.monteCarloError()
        mon.expect(np.array_equal(e2, e3), "same/default-montecarlo", "two default Monte Carlo errors differ", sub=sub)
        return [e]
    thrice(mon, rng, idx, run, "montecarlo", sub=sub)
    mon.count("montecarlo")
    mon.state(*run.state)


# ---------------------------------------------------------------- the engines themselves

def engines(mon, rng, idx):
    """ an engine with a seed makes the same moves on the same walkers """
    sub = int(rng.integers(1 << 40))
    name = list(nsrun.ENGINES)[idx % len(nsrun.ENGINES)]

    def run(seed):
        q = np.random.default_rng(sub)
        r = nsrun.make(q, kind="gauss")
        ns = bf.NestedSampler(problem=r.problem, distribution=r.errdis, ensemble=8, seed=4, verbose=0)
        ns.initSample()
        eng = nsrun.ENGINES[name](ns.walkers, r.errdis, seed=seed)
        eng.phantoms = ns.phantoms
        low = float(np.sort([w.logL for w in ns.walkers])[2])
        out = []
        for kw in range(8):
            if ns.walkers[kw].logL >= low:
                n = eng.execute(kw, low)
                out.append(np.append(np.asarray(ns.walkers[kw].allpars, dtype=float), [n, ns.walkers[kw].logL]))
        run.state = ("engine", name, r.name, r.forms)
        return out
    thrice(mon, rng, idx, run, "engine-" + name, sub=sub)
    mon.count("engines")
    mon.state(*run.state)


# ---------------------------------------------------------------- another process

def process(mon, rng, idx):
    """ the same in new processes, with other hash seeds """
    sub, seed = int(rng.integers(1 << 40)), int(rng.integers(1, 1 << 30))
    here = digest(all_of(sub, seed))
    code = "import sys; sys.path[:0] = %r\nimport warnings\nwarnings.simplefilter('ignore')\nimport C21\n" \
           "print('DIGEST', C21.digest(C21.all_of(%d, %d)))" % (
               [p for p in sys.path if p], sub, seed)
    for hs in ("0", "4711"):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        res = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r)\n" % os.path.dirname(os.path.abspath(__file__)) + code],
                             env=env, capture_output=True, text=True, timeout=300)
        got = [v.split()[1] for v in res.stdout.splitlines() if v.startswith("DIGEST")]
        if not mon.expect(len(got) == 1, "process/failed", "the run in another process fails: %s" % res.stderr[-300:], sub=sub, seed=seed):
            return
        mon.expect(got[0] == here, "process/same", "a run in another process with the same seed differs", sub=sub, seed=seed, hashseed=hs)
        mon.count("process")
    mon.state("process", sub)


def all_of(sub, seed):
    out = []
    for run in (sampler(sub, "nested"), sampler(sub + 1, "phantom"), dynrun(sub + 2), ordrun(sub + 3), amorun(sub + 4)):
        a = run(seed)
        out += a if a is not None else [np.zeros(1)]
    return out


CASES = [Case("samplers", samplers, quick=40, thorough=400, chunk=2), Case("dynamic", dynamic, quick=16, thorough=150, chunk=1),
         Case("solver", solver, quick=12, thorough=150, chunk=1), Case("amoeba", amoeba, quick=40, thorough=500, chunk=5),
         Case("amoebafitter", amofit, quick=16, thorough=100, chunk=2), Case("montecarlo", montecarlo, quick=40, thorough=500, chunk=10),
         Case("engines", engines, quick=16, thorough=200, chunk=2), Case("process", process, quick=2, thorough=20, chunk=1)]
