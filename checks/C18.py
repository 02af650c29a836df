"""C18  Sample weights, evidence and statistics add up."""
import math
import numpy as np
import BayesicFitting as bf
import nsrun
from harness import Case

RULE = "distinct = (source of the samples, sampler, error distribution, model, discard, maxsize, hyperparameters, repeated)"
ASSUMPTIONS = ["each discarded walker takes the share 1 - exp( -1 / n ) of the remaining prior volume, n being the number of walkers still in play",
               "a walker that is weeded out because of maxsize keeps counting in the evidence, not in the averages"]
REQUIRE = {"runs": 40, "lists": 100, "repeated": 10, "maxsize": 5, "discard>1": 10, "circular": 10, "dynamic": 10}


def wsum(w, v):
    return np.tensordot(w, v, axes=(0, 0))


def statistics(mon, S, hyper, tag, circ=None, x=None, model=None, **wit):
    """ all statistics of a list of samples, recomputed """
    lw = np.array([s.logW for s in S])
    w = np.exp(lw)
    mon.close(np.sum(w), 1.0, "weights-sum/" + tag, rtol=1e-9, detail="sum of the weights", **wit)
    mon.close(S.getWeightEvolution(), w, "weights/" + tag, rtol=1e-12, **wit)
    mon.close(S.getLogWeightEvolution(), lw, "weights/" + tag, rtol=1e-12, **wit)
    P = np.array([np.asarray(s.parameters, dtype=float) for s in S])
    av = wsum(w, P)
    sd = np.sqrt(np.maximum(wsum(w, P * P) - av * av, 0))
    tol = 1e-6 * (1e-9 + np.abs(P).max(axis=0))
    if circ:
        for k, (lo, hi) in circ.items():
            z = np.sum(w * np.exp(2j * math.pi * (P[:, k] - lo) / (hi - lo)))
            av[k] = lo + (np.angle(z) % (2 * math.pi)) * (hi - lo) / (2 * math.pi)
            d = (P[:, k] - av[k] + (hi - lo) / 2) % (hi - lo) - (hi - lo) / 2
            sd[k] = math.sqrt(np.sum(w * d * d))
            mon.count("circular")
    order = [("parameters", "stdevs"), ("stdevs", "parameters")][len(S) % 2]
    for a in order:
        mon.close(getattr(S, a), av if a == "parameters" else sd, a + "/" + tag, rtol=1e-6, atol=np.max(tol) if np.size(tol) else 0,
                  detail="weighted " + a, **wit)
    mon.close(S.standardDeviations, sd, "stdevs/" + tag, rtol=1e-6, atol=np.max(tol) if np.size(tol) else 0, **wit)
    if hyper:
        H = np.array([np.asarray(s.hyper, dtype=float) for s in S])
        ah = wsum(w, H)
        sh = np.sqrt(np.maximum(wsum(w, H * H) - ah * ah, 0))
        th = 1e-6 * np.abs(H).max()
        for a in [("hypars", "stdevHypars"), ("stdevHypars", "hypars")][len(S) % 2]:
            mon.close(getattr(S, a), ah if a == "hypars" else sh, a + "/" + tag, rtol=1e-6, atol=th, detail="weighted " + a, **wit)
        mon.close(S.scale, ah[0], "scale/" + tag, rtol=1e-6, atol=th, **wit)
        mon.close(S.stdevScale, sh[0], "scale/" + tag, rtol=1e-6, atol=th, **wit)
    k = int(np.argmax(w))
    mon.expect(w[S.modusIndex] >= w[k] * (1 - 1e-12), "modus/" + tag, "modus at %d, largest weight at %d" % (S.modusIndex, k), **wit)
    mon.close(S.modusParameters, P[S.modusIndex], "modus/" + tag, rtol=0, **wit)
    c = np.cumsum(w)
    km = int(S.medianIndex)
    mon.expect(c[km] >= 0.5 - 1e-9 and (km == 0 or c[km - 1] < 0.5 + 1e-9), "median/" + tag,
               "median at %d where the cumulative weight is %.6f" % (km, c[km]), **wit)
    mon.close(S.medianParameters, P[km], "median/" + tag, rtol=0, **wit)
    mon.close(S.maxLikelihoodParameters, P[-1], "maxlikelihood/" + tag, rtol=0, **wit)
    mon.close(S.getParameterEvolution(), P, "evolution/" + tag, rtol=0, **wit)
    if P.shape[1]:
        mon.close(S.getParameterEvolution(kpar=P.shape[1] - 1), P[:, -1], "evolution/" + tag, rtol=0, **wit)
    mon.close(S.getLogLikelihoodEvolution(), [s.logL for s in S], "evolution/" + tag, rtol=0, **wit)
    pe, we = S.getParAndWgtEvolution()
    mon.close(pe, P, "evolution/" + tag, rtol=0, **wit)
    mon.close(we, w, "evolution/" + tag, rtol=1e-12, **wit)
    if x is not None:
        R = np.array([np.asarray(model.result(x, p), dtype=float) for p in P])
        ar = wsum(w, R)
        sr = np.sqrt(np.maximum(wsum(w, R * R) - ar * ar, 0))
        big = 1e-6 * np.abs(R).max()
        mon.close(S.average(x), ar, "average/" + tag, rtol=1e-7, atol=big, detail="average result", **wit)
        mon.close(S.monteCarloError(x), sr, "error/" + tag, rtol=1e-5, atol=big, detail="error on the result", **wit)
    return w, P


def account(mon, S, n, worst, iters, tag, **wit):
    """ evidence, information and weights from the recorded likelihoods and the prior volume """
    logs = np.array([s.logL for s in S])
    order = [k for t in range(iters) for k in range(worst)] + list(range(n))
    if not mon.expect(len(order) == len(logs), "count/" + tag, "%d samples, %d expected" % (len(logs), len(order)), **wit):
        return None
    shr = 1.0 / (n - np.array(order))
    lx = np.concatenate(([0.0], -np.cumsum(shr)))
    lwid = lx[:-1] + np.log(-np.expm1(-shr))
    lw = lwid + logs
    m = lw.max()
    logz = m + math.log(np.sum(np.exp(lw - m)))
    w = np.exp(lw - logz)
    info = float(np.sum(w * logs)) - logz
    mon.close(np.array([s.logW for s in S]), lw - logz, "weights-volume/" + tag, rtol=1e-6, atol=1e-6,
              detail="log of the normalised weights", **wit)
    return logz, info


def run(mon, rng, idx):
    phantom = rng.random() < 0.12
    r = nsrun.make(rng, kind=None if rng.random() < 0.6 else "gauss")
    ens = int(rng.integers(10, 45))
    disc = 1 if phantom else int(rng.choice([1, 1, 2, 3, 4]))
    kw = dict(problem=r.problem, distribution=r.errdis, ensemble=ens, seed=int(rng.integers(1 << 30)), verbose=0)
    tag = "nested" if not phantom else "phantom"
    maxsize = None
    if rng.random() < 0.15:
        maxsize = int(rng.integers(ens + 5, 120))
        kw["maxsize"] = maxsize
        mon.count("maxsize")
    if phantom:
        kw["step"] = int(rng.integers(2, 11))
        disc = max(1, ens * kw["step"] // 100)
    else:
        kw["discard"] = disc
        if disc > 1:
            mon.count("discard>1")
    if rng.random() < 0.5:
        kw["engines"] = [["gibbs"], ["step"], ["chord"], ["gibbs", "chord"]][int(rng.integers(4))]
    ns = (bf.PhantomSampler if phantom else bf.NestedSampler)(**kw)
    ns.maxIterations = 220
    ns.minimumIterations = int(rng.integers(20, 100))
    nrun = 2 if rng.random() < 0.3 else 1
    for t in range(nrun):
        try:
            ev = ns.sample()
        except RuntimeError as e:
            if "starting" in str(e):
                mon.count("no start")
                return
            raise
        mon.count("runs")
        if t:
            mon.count("repeated")
        tg = tag + ("/again" if t else "")
        wit = dict(problem=r.text, ensemble=ens, discard=disc, maxsize=maxsize, run=t)
        S = ns.samples
        if maxsize is not None:
            mon.expect(len(S) <= maxsize, "maxsize/" + tag, "%d samples, at most %d" % (len(S), maxsize), **wit)
            full = ens + disc * ns.iteration
            mon.expect(len(S) == min(maxsize, full), "maxsize/" + tag, "%d samples of %d, at most %d" % (len(S), full, maxsize), **wit)
        else:
            res = account(mon, S, ens, disc, ns.iteration, tg, **wit)
            if res:
                mon.close(ns.logZ, res[0], "logZ/" + tg, rtol=1e-8, atol=1e-6, **wit)
                mon.close(ns.info, res[1], "information/" + tg, rtol=1e-5, atol=1e-5 * (1 + abs(res[0])), **wit)
        mon.close(ev, ns.logZ / math.log(10), "evidence/" + tg, rtol=1e-10, **wit)
        mon.close(ns.evidence, ev, "evidence/" + tg, rtol=1e-10, **wit)
        mon.close(S.logZ, ns.logZ, "samples-logZ/" + tg, rtol=1e-10, **wit)
        mon.close(S.evidence, ev, "samples-logZ/" + tg, rtol=1e-10, **wit)
        mon.close(S.info, ns.info, "samples-info/" + tg, rtol=1e-10, **wit)
        mon.close(ns.information, ns.info, "samples-info/" + tg, rtol=1e-10, **wit)
        mon.close(ns.logZprecision, math.sqrt(max(0, ns.info) / ens), "precision/" + tg, rtol=1e-8, **wit)
        mon.close(ns.precision, ns.logZprecision / math.log(10), "precision/" + tg, rtol=1e-8, **wit)
        x = r.problem.xdata
        w, P = statistics(mon, S, r.nhyp > 0, tg, x=x, model=r.model, **wit)
        mon.close(ns.parameters, S.parameters, "sampler/" + tg, rtol=1e-10, **wit)
        mon.close(ns.standardDeviations, S.stdevs, "sampler/" + tg, rtol=1e-10, **wit)
        mon.close(ns.stdevs, S.stdevs, "sampler/" + tg, rtol=1e-10, **wit)
        if r.nhyp:
            mon.close(ns.hypars, S.hypars, "sampler/" + tg, rtol=1e-10, **wit)
            mon.close(ns.stdevHypars, S.stdevHypars, "sampler/" + tg, rtol=1e-10, **wit)
            mon.close(ns.scale, S.hypars[0], "sampler/" + tg, rtol=1e-10, **wit)
        mon.close(ns.modelfit, S.average(x), "sampler/" + tg, rtol=1e-10, **wit)
        mon.close(ns.yfit, S.average(x), "sampler/" + tg, rtol=1e-10, **wit)
        mon.close(r.model.parameters, S.parameters, "model/" + tg, rtol=1e-10, detail="parameters of the model afterwards", **wit)
        mon.close(r.model.stdevs, S.stdevs, "model/" + tg, rtol=1e-10, **wit)
    mon.state("run", tag, r.kind, r.name, len(r.free), disc, maxsize is not None, nrun)
    mon.sample("run", problem=r.text, ensemble=ens, discard=disc, logZ=ns.logZ, info=ns.info)


def lists(mon, rng, idx):
    """ lists of weighted samples made by the user, altered in several ways """
    npar = int(rng.integers(1, 5))
    circ = {}
    m = bf.PolynomialModel(npar - 1)
    lims = []
    for k in range(npar):
        lo = float(rng.uniform(-3, 0))
        hi = lo + float(rng.uniform(1, 6))
        if rng.random() < 0.3:
            m.setPrior(k, prior=bf.UniformPrior(circular=True, limits=[lo, hi]))
            circ[k] = (lo, hi)
        else:
            m.setPrior(k, prior=bf.UniformPrior(limits=[lo, hi]))
        lims.append((lo, hi))
    n = int(rng.integers(2, 60))
    nh = int(rng.integers(0, 3))
    S = bf.SampleList(m, 0, ndata=10)
    ref = []

    def new():
        q = np.array([rng.uniform(*l) for l in lims])
        s = bf.Sample(int(rng.integers(0, 99)), -1, 0, m, parameters=q, fitIndex=np.arange(npar))
        s.logL = float(rng.normal(0, 5))
        s.logW = float(rng.normal(-3, 2))
        if nh:
            s.hyper = np.exp(rng.normal(0, 0.5, nh))
        return s
    for k in range(n):
        s = new()
        S.add(s)
        ref.append((q_of(s), s.logL, s.logW))
    for t in range(int(rng.integers(1, 4))):
        mon.expect(len(S) == len(ref), "list-length", "%d samples, not %d" % (len(S), len(ref)))
        ids = [s.id for s in S]
        S.normalize()
        lw = np.array([v[2] for v in ref])
        mx = lw.max()
        tot = mx + math.log(np.sum(np.exp(lw - mx)))
        ref = [(a, b, c - tot) for a, b, c in ref]
        mon.close([s.logW for s in S], [v[2] for v in ref], "list-normalize", rtol=1e-9, atol=1e-9)
        mon.close(np.array([s.parameters for s in S]), np.array([v[0] for v in ref]), "list-kept", rtol=0)
        x = rng.uniform(-1, 1, 4)
        # averages of circular parameters are those on the circle
        statistics(mon, S, nh > 0, "list", circ=circ, x=x, model=m, n=len(S))
        low, k = S.getLowLogL()
        mon.close(low, min(v[1] for v in ref), "list-lowest", rtol=0)
        mon.close(ref[k][1], low, "list-lowest", rtol=0)
        op = int(rng.integers(0, 4))
        if op == 0:
            s = new()
            S.add(s)
            ref.append((q_of(s), s.logL, s.logW))
        elif op == 1:
            a, b = int(rng.integers(len(S))), int(rng.integers(len(S)))
            S.copy(a, b)
            mon.expect([s.id for s in S] == ids, "list-identity", "ids %s become %s by copying" % (ids, [s.id for s in S]))
            ref[b] = ref[a]
            if a != b:
                S[b].parameters[0] += 0.0
                mon.expect(S[a] is not S[b] and not np.shares_memory(S[a].parameters, S[b].parameters), "list-shared", "copies share data")
        elif op == 2 and len(S) > 2:
            mx = int(rng.integers(1, len(S)))
            S.weed(maxsize=mx)
            while len(ref) > mx:
                ref.pop(0 if ref[0][2] < ref[-1][2] else -1)
            mon.expect(len(S) == mx, "list-weed", "%d samples after weeding to %d" % (len(S), mx))
        elif op == 3:
            k = int(rng.integers(len(S)))
            s = new()
            S.sample(k, s)
            ref[k] = (q_of(s), s.logL, s.logW)
    mon.count("lists")
    mon.state("list", npar, nh, len(circ), n // 10)


def q_of(s):
    return np.array(s.parameters, dtype=float)


def dynamic(mon, rng, idx):
    """ samples with different numbers of parameters """
    n = int(rng.integers(3, 20))
    m0 = bf.PolynomialDynamicModel(0)
    S = bf.SampleList(m0, 0, ndata=10)
    P, R, L = [], [], []
    x = rng.uniform(-1, 1, 5)
    for k in range(n):
        d = int(rng.integers(0, 4))
        m = bf.PolynomialDynamicModel(d)
        q = rng.normal(0, 1, d + 1)
        s = bf.Sample(k, -1, 0, m, parameters=q)
        s.logW = float(rng.normal(0, 1))
        s.hyper = np.array([float(rng.uniform(0.5, 2))])
        S.add(s)
        P.append(q)
        R.append(np.polynomial.polynomial.polyval(x, q))
        L.append(s.logW)
    S.normalize()
    w = np.exp(np.array(L) - np.max(L))
    w /= w.sum()
    R = np.array(R)
    mon.close([s.weight for s in S], w, "dynamic-weights", rtol=1e-9)
    ar = wsum(w, R)
    mon.close(S.average(x), ar, "dynamic-average", rtol=1e-8, atol=1e-10)
    mon.close(S.monteCarloError(x), np.sqrt(np.maximum(wsum(w, R * R) - ar * ar, 0)), "dynamic-error", rtol=1e-5, atol=1e-6)
    nm = max(len(q) for q in P)
    pad = np.array([np.append(q, np.zeros(nm - len(q))) for q in P])
    with mon.guarded("dynamic-evolution"):
        mon.close(S.getParameterEvolution(), pad, "dynamic-evolution", rtol=0)
        mon.close(S.getParameterEvolution(kpar=0), pad[:, 0], "dynamic-evolution", rtol=0)
        mon.close(S.getNumberOfParametersEvolution(), [len(q) for q in P], "dynamic-evolution", rtol=0)
        mon.close(S.getMaximumNumberOfParameters(), nm, "dynamic-evolution", rtol=0)
        mon.close(S.scale, wsum(w, np.array([s.hyper[0] for s in S])), "dynamic-scale", rtol=1e-8)
    mon.count("dynamic")
    mon.state("dynamic", n, nm)


CASES = [Case("run", run, quick=72, thorough=700), Case("lists", lists, quick=160, thorough=3000, chunk=10),
         Case("dynamic", dynamic, quick=30, thorough=600, chunk=10)]
