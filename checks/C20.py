"""C20  Every engine moves a walker validly."""
import math
import numpy as np
import BayesicFitting as bf
import nsrun
from harness import Case

RULE = "distinct = (engine, error distribution, model, priors, number of fitted hyperparameters, kept, append, any move made)"
ASSUMPTIONS = ["likelihoods are compared to scipy.stats densities with a relative tolerance of 1e-8",
               "a walker handed to an engine satisfies the constraint itself"]
REQUIRE = {"executes": 2000, "moves": 1000, "appended": 150, "kept": 50, "constrained": 1000, "starts": 1000}

NAMES = list(nsrun.ALL)


def build(mon, rng, r, nw, keep):
    pars = np.zeros(r.npars + r.nhyp)
    for k, v in r.fixed.items():
        pars[k] = v
    fi = [k for k in r.fitIndex]
    kept = {}
    for k in keep:
        kk = k if k >= 0 else len(pars) + k
        kept[kk] = float(rng.uniform(r.lo[kk] if np.isfinite(r.lo[kk]) else max(-3, r.hi[kk] - 3) if np.isfinite(r.hi[kk]) else -3,
                                     r.hi[kk] if np.isfinite(r.hi[kk]) else (r.lo[kk] + 3 if np.isfinite(r.lo[kk]) else 3)))
        pars[kk] = kept[kk]
        fi = [f for f in fi if f != (kk if kk < r.npars else kk - len(pars))]
    wl = bf.WalkerList(problem=r.problem, ensemble=nw, allpars=pars, fitIndex=np.array(fi))
    return wl, fi, kept


def engines(mon, rng, idx):
    name = NAMES[idx % len(NAMES)]
    r = nsrun.make(rng)
    nw = int(rng.integers(8, 25))
    keep = []
    if rng.random() < 0.3 and len(r.fitIndex) > 1:
        keep = [int(rng.choice([k for k in r.fitIndex if k < r.nm]))]
        mon.count("kept")
    wl, fi, kept = build(mon, rng, r, nw, keep)
    ph = bf.PhantomCollection()
    tag = "%s" % name
    start = bf.StartEngine(wl, r.errdis, seed=int(rng.integers(1 << 30)))
    start.phantoms = ph
    r.errdis.lowLhood = -math.inf
    for k in range(nw):
        try:
            start.execute(k, -math.inf)
        except RuntimeError:
            mon.count("no start")
            return
        nsrun.valid(mon, r, wl[k].allpars, wl[k].logL, "start", kept=kept)
        mon.expect(wl[k].id == k, "identity:start", "walker %d has id %d" % (k, wl[k].id))
        mon.count("starts")
    uf = [f for f in range(len(wl[0].allpars)) if f in fi or f - len(wl[0].allpars) in fi]
    for f in uf:
        mon.expect(len({float(w.allpars[f]) for w in wl}) == nw, "start-distinct", "parameter %d starts at equal values" % f,
                   problem=r.text)
    eng = nsrun.ALL[name](wl, r.errdis, phantoms=ph, seed=int(rng.integers(1 << 30)))
    if rng.random() < 0.3:
        eng = eng.copy()
        eng.phantoms = ph
    append = rng.random() < 0.25
    low = -math.inf
    for t in range(12):
        logs = np.array([w.logL for w in wl])
        if t >= 2 and rng.random() < 0.7:
            low = max(low, float(np.sort(logs)[int(rng.integers(0, len(wl) // 2))]))
            mon.count("constrained")
        elig = [k for k in range(len(wl)) if logs[k] >= low]
        kw = int(rng.choice(elig))
        lw = low if np.isfinite(low) else -1.7e308
        r.errdis.lowLhood = lw
        before = nsrun.snapshot(wl)
        moves = eng.execute(kw, lw, append=append, iteration=t)
        after = nsrun.snapshot(wl)
        mon.count("executes")
        wit = dict(problem=r.text, engine=name, append=append)
        old = len(before)
        if not append:
            mon.expect(len(after) == old, "number:" + tag, "%d walkers became %d" % (old, len(after)), **wit)
        for k in range(min(old, len(after))):
            if k != kw or append:
                mon.expect(nsrun.same(before[k], after[k]), "others:" + tag, "walker %d is altered when moving %d" % (k, kw), **wit)
        new = after[old:] if append else [after[kw]]
        if append:
            mon.count("appended", len(new))
            mon.expect((moves > 0) == (len(new) > 0), "moves:" + tag, "%s moves reported, %d walkers appended" % (moves, len(new)), **wit)
            ids = [w[1] for w in after]
            mon.expect(len(set(ids)) == len(ids), "identity:" + tag, "walkers have the same id: %s" % ids, **wit)
        for w in new:
            nsrun.valid(mon, r, w[2], w[3], tag, kept=kept, low=lw, engine=name)
            mon.expect(sorted(int(v) for v in w[4]) == sorted(fi), "fitindex:" + tag, "fitted indices %s, were %s" % (w[4], fi), **wit)
        if not append:
            moved = not np.array_equal(after[kw][2], before[kw][2])
            mon.expect(after[kw][1] == before[kw][1], "identity:" + tag, "walker %d becomes %d" % (before[kw][1], after[kw][1]), **wit)
            mon.expect((moves > 0) == moved, "moves:" + tag, "%s moves reported, walker %s" % (
                moves, "moved" if moved else "did not move"), **wit)
            if moved:
                mon.count("moves")
        else:
            mon.count("moves", len(new) > 0)
        # what the engine stored for the spread of the parameters is valid as well
        pl = ph.phantoms
        ls = [w.logL for w in pl]
        mon.expect(all(ls[i] <= ls[i + 1] for i in range(len(ls) - 1)), "phantoms-sorted", "phantoms are not sorted", **wit)
    mon.state(name, r.kind, r.name, r.forms, len(r.free), bool(keep), append, sum(eng.report[:3]) > 0)
    mon.sample("12 executions of %s" % name, problem=r.text, report=list(eng.report))


def fill(wl, ph, r, pts):
    for k, w in enumerate(wl):
        w.allpars = np.array(pts[k], dtype=float)
        w.logL = r.errdis.logLikelihood(r.problem, w.allpars)
        ph.storeItems(w)


def sweep(rng, name, wl, ph, r, low, nsweep):
    eng = nsrun.ALL[name](wl, r.errdis, phantoms=ph, seed=int(rng.integers(1 << 30)))
    r.errdis.lowLhood = low
    start = np.array([w.allpars for w in wl])
    for s in range(nsweep):
        for k in range(len(wl)):
            eng.execute(k, low)
    return start, np.array([w.allpars for w in wl])


LIMIT = {"galilean": 4.2, "step": 4.2}          # these engines are approximate: a few percent deviation is inherent


def judge(mon, name, d, n, what, how, **wit):
    """ d: largest distance between the distribution functions """
    z = d * math.sqrt(n)
    mon.expect(z < LIMIT.get(name, 3.0), "spread:" + how + "/" + name,
               "walkers are not spread over the available prior: KS %.2f / sqrt(%d) in %s" % (z, n, what), **wit)


def ellipsoid(mon, rng, idx):
    """ walkers spread evenly inside an ellipsoid stay so, and forget where they came from """
    name = NAMES[idx % len(NAMES)]
    npar = int(rng.integers(1, 4))
    n = 160
    x = np.sort(rng.uniform(-1, 1, 15))
    m = bf.PolynomialModel(npar - 1)
    tr = rng.normal(0, 1, npar)
    y = np.asarray(m.result(x, tr)) + rng.normal(0, 1, 15)
    D = np.stack([x ** k for k in range(npar)], axis=1)
    p0 = np.linalg.lstsq(D, y, rcond=None)[0]
    r = nsrun.Run()
    dl = float(rng.uniform(2, 30))
    r.C = np.linalg.cholesky(np.linalg.inv(D.T @ D) * 2 * dl)
    half = 1.5 * np.sqrt(np.sum(r.C ** 2, axis=1)) * np.exp(rng.uniform(0, 1.5, npar))
    m.setLimits(list(p0 - half), list(p0 + half))
    r.problem = bf.ClassicProblem(model=m, xdata=x, ydata=y)
    r.errdis = bf.GaussErrorDistribution(scale=1.0)
    low = float(r.errdis.logLikelihood(r.problem, np.append(p0, 1.0))) - dl
    z = rng.normal(0, 1, (n, npar))
    z *= (rng.random(n) ** (1 / npar) / np.sqrt(np.sum(z * z, axis=1)))[:, None] * 0.999999
    pts = np.concatenate((p0 + z @ r.C.T, np.ones((n, 1))), axis=1)
    wl = bf.WalkerList(problem=r.problem, ensemble=n, allpars=pts[0], fitIndex=np.arange(npar))
    ph = bf.PhantomCollection()
    fill(wl, ph, r, pts)
    a, b = sweep(rng, name, wl, ph, r, low, 4)
    Z = np.linalg.solve(r.C, (b[:, :npar] - p0).T)
    u = np.sqrt(np.sum(Z * Z, axis=0)) ** npar
    us = np.sort(u)
    d = max(np.max(np.abs(us - np.arange(n) / n)), np.max(np.abs(us - np.arange(1, n + 1) / n)))
    text = "polynomial with %d parameters, %.1f below the maximum" % (npar, dl)
    judge(mon, name, d, n, "distance to the center", "ellipsoid", problem=text)
    mz = np.mean(Z, axis=1) * math.sqrt(n * (npar + 2))
    mon.expect(np.all(np.abs(mz) < 6.5), "center:ellipsoid/" + name, "center of the walkers is %s sigma off" % mz, problem=text)
    Z0 = np.linalg.solve(r.C, (a[:, :npar] - p0).T)
    cc = np.mean([np.corrcoef(Z[k], Z0[k])[0, 1] for k in range(npar)])
    mon.expect(cc < 0.6, "memory:ellipsoid/" + name, "walkers stay near where they were: correlation %.2f" % cc, problem=text)
    mon.count("spread")
    mon.state("ellipsoid", name, npar, round(dl / 5))


def spread(mon, rng, idx):
    """ walkers drawn from the prior above some likelihood stay distributed as the prior is """
    from scipy import stats
    name = NAMES[idx % len(NAMES)]
    for t in range(50):
        r = nsrun.make(rng, kind=str(rng.choice(["gauss", "gauss", "gauss", "laplace", "cauchy", "poisson", "bernoulli", "exponential"])),
                       small=True)
        if r.nm + len(r.free) <= 3 and r.name != "orbit" and not r.s.multi:
            break
    else:
        return
    n, big = 160, 1500
    P = np.stack([nsrun.prior_draw(rng, v, big) for v in r.spec] + nsrun.hyper_draw(rng, r, big), axis=1)
    L = np.array([r.ref(q) for q in P])
    if not np.all(np.isfinite(L)):
        return
    low = float(np.quantile(L, rng.uniform(0.2, 0.75)))
    P = P[L >= low * (1 + 1e-12) if low > 0 else L >= low * (1 - 1e-12)]
    if len(P) < n + 200:
        return
    fit = [k for k in range(r.nm)] + [r.npars + k for k in r.free]
    wl = bf.WalkerList(problem=r.problem, ensemble=n, allpars=P[0], fitIndex=np.array(r.fitIndex))
    ph = bf.PhantomCollection()
    fill(wl, ph, r, P[:n])
    a, b = sweep(rng, name, wl, ph, r, low, 3)
    refs = P[n:]
    ne = n * len(refs) / (n + len(refs))
    for k in fit:
        judge(mon, name, stats.ks_2samp(b[:, k], refs[:, k]).statistic, ne, "parameter %d" % k, "prior", problem=r.text)
    l1, l2 = [r.ref(q) for q in b], [r.ref(q) for q in refs]
    judge(mon, name, stats.ks_2samp(l1, l2).statistic, ne, "log likelihood", "prior", problem=r.text)
    mon.count("spread")
    mon.state("spread", name, r.kind, r.name, r.forms, len(r.free))


CASES = [Case("ellipsoid", ellipsoid, quick=40, thorough=400), Case("spread", spread, quick=60, thorough=600),
         Case("engines", engines, quick=300, thorough=3000, chunk=5)]
