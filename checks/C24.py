"""C24  Order problems keep permutations and exact path lengths."""
import itertools
import math
import numpy as np
import BayesicFitting as bf
from BayesicFitting.source.WalkerList import WalkerList
from BayesicFitting.source.PhantomCollection import PhantomCollection
from harness import Case

RULE = "distinct = (distance, number of nodes, dimensions, weights, one way, scale given, engine or solver)"
ASSUMPTIONS = ["with weights each leg counts with the weight of the node it starts from, as documented in result()",
               "the default scale is the smallest distance between any two nodes"]
REQUIRE = {"costs": 100, "moves": 300, "stays": 100, "solved": 20, "optimum": 20}

NAMES = {"move": bf.MoveEngine, "reverse": bf.ReverseEngine, "switch": bf.SwitchEngine, "loop": bf.LoopEngine,
         "near": bf.NearEngine, "shuffle": bf.ShuffleEngine}
# largest number of connections that one action of the engine replaces
CHANGES = {"move": 3, "reverse": 2, "switch": 4, "loop": 2, "near": 3}


class Set(object):
    pass


def haversine(a, b):
    a, b = np.radians(a), np.radians(b)
    u = np.array([math.cos(a[1]) * math.cos(a[0]), math.cos(a[1]) * math.sin(a[0]), math.sin(a[1])])
    v = np.array([math.cos(b[1]) * math.cos(b[0]), math.cos(b[1]) * math.sin(b[0]), math.sin(b[1])])
    return math.atan2(np.linalg.norm(np.cross(u, v)), float(u @ v))


def squared(xdata, pars):
    """ a user defined distance """
    x = xdata[pars]
    return np.sum((x - np.roll(x, -1, axis=0)) ** 2, axis=1)


def make(rng, n=None, dist=None, plain=False):
    s = Set()
    s.n = int(rng.integers(3, 14)) if n is None else n
    s.dist = dist or str(rng.choice(["euclid", "euclid", "manh", "spher", "table", "user"]))
    s.ndim = 2 if s.dist == "spher" or plain else int(rng.integers(2, 5))
    if s.dist == "spher":
        x = np.stack((rng.uniform(-180, 180, s.n), rng.uniform(-85, 85, s.n)), axis=1)
    elif rng.random() < 0.25:
        x = rng.permutation(np.array(list(itertools.product(range(4), range(4)))))[:s.n].astype(float)
        if s.ndim > 2:
            x = np.concatenate((x, rng.integers(0, 3, (len(x), s.ndim - 2))), axis=1)
    else:
        x = rng.uniform(-10, 10, (s.n, s.ndim))
    s.n = len(x)
    s.x = x
    s.table = None
    if s.dist == "table":
        s.table = rng.uniform(0.5, 9, (s.n, s.n))
        if rng.random() < 0.5:
            s.table = 0.5 * (s.table + s.table.T)
        np.fill_diagonal(s.table, 0)
    D = np.zeros((s.n, s.n))
    for i in range(s.n):
        for j in range(s.n):
            if s.dist == "euclid":
                D[i, j] = math.dist(x[i], x[j])
            elif s.dist == "manh":
                D[i, j] = sum(abs(a - b) for a, b in zip(x[i], x[j]))
            elif s.dist == "spher":
                D[i, j] = haversine(x[i], x[j])
            elif s.dist == "table":
                D[i, j] = s.table[i, j]
            else:
                D[i, j] = sum((a - b) ** 2 for a, b in zip(x[i], x[j]))
    s.D = D
    s.weights = None if plain or rng.random() < 0.6 else rng.uniform(0.3, 3, s.n)
    s.oneway = (not plain) and bool(rng.random() < 0.3)
    s.scale = None if rng.random() < 0.5 else float(np.exp(rng.uniform(-1, 1)))
    kw = dict(weights=s.weights, distance=squared if s.dist == "user" else s.dist, scale=s.scale, oneway=s.oneway)
    if s.table is not None:
        kw["table"] = s.table
    s.problem = bf.SalesmanProblem(x, **kw)
    md = min(D[i, j] for i in range(s.n) for j in range(s.n) if i != j)
    s.usescale = s.scale if s.scale is not None else (md if md > 1e-10 else 1.0)
    s.text = "%d nodes in %d dimensions, distance %s, scale %s%s%s" % (s.n, s.ndim, s.dist, s.scale,
             ", weights" if s.weights is not None else "", ", one way" if s.oneway else "")
    return s


def legs(s, order):
    r = np.array([s.D[order[k], order[(k + 1) % s.n]] for k in range(s.n)]) / s.usescale
    if s.oneway:
        r[-1] = 0
    return r if s.weights is None else r * s.weights[np.asarray(order)]


def permutation(mon, order, n, tag, **wit):
    o = np.asarray(order)
    return mon.expect(o.shape == (n,) and np.all(o == np.round(o)) and sorted(o.tolist()) == list(range(n)), "permutation:" + tag,
                      "%s is not a permutation of %d nodes" % (o, n), **wit)


def cost(mon, rng, idx):
    s = make(rng)
    p = s.problem
    wit = dict(problem=s.text, nodes=s.x)
    mon.close(p.scale, s.usescale, "scale/" + s.dist, rtol=1e-9, atol=1e-14, detail="scale of the distances", **wit)
    mon.expect(p.npars == s.n, "npars", "%d parameters for %d nodes" % (p.npars, s.n), **wit)
    ed = bf.DistanceCostFunction()
    for t in range(4):
        q = rng.permutation(s.n)
        prob = p if t % 2 == 0 else p.copy()
        mon.count("costs")
        want = legs(s, q)
        mon.close(prob.result(q), want, "legs/" + s.dist, rtol=1e-8, atol=1e-10, detail="distances along the order", order=q, **wit)
        mon.close(ed.logLikelihood(prob, q), -want.sum(), "cost/" + s.dist, rtol=1e-9, atol=1e-9, order=q, **wit)
        mon.close(np.sum(ed.logLdata(prob, q)), -want.sum(), "cost/" + s.dist, rtol=1e-9, atol=1e-9, order=q, **wit)
        mon.close(ed.logLikelihood_alt(prob, q), -want.sum(), "cost-alt/" + s.dist, rtol=1e-9, atol=1e-9, order=q, **wit)
        mon.close(ed.copy().logLikelihood(prob, q.tolist()), -want.sum(), "cost-copy/" + s.dist, rtol=1e-9, atol=1e-9, order=q, **wit)
    if not s.oneway and s.weights is None:
        k = int(rng.integers(s.n))
        mon.close(ed.logLikelihood(p, np.roll(q, k)), ed.logLikelihood(p, q), "cyclic/" + s.dist, rtol=1e-9, atol=1e-10, **wit)
        if s.dist != "table":
            mon.close(ed.logLikelihood(p, q[::-1]), ed.logLikelihood(p, q), "backward/" + s.dist, rtol=1e-9, atol=1e-10, **wit)
    if idx % 10 == 0:
        u = bf.SalesmanProblem(s.x, distance="unknown" if idx % 20 else 3)
        e = [math.dist(s.x[q[k]], s.x[q[(k + 1) % s.n]]) for k in range(s.n)]
        mon.close(u.result(q) * u.scale, e, "unknown", rtol=1e-9, detail="an unknown distance is taken as euclidic", **wit)
    mon.state(s.dist, s.n, s.ndim, s.weights is None, s.oneway, s.scale is None, "cost")
    mon.sample("total cost %.3f" % want.sum(), problem=s.text)


def edges(order):
    n = len(order)
    return {frozenset((int(order[k]), int(order[(k + 1) % n]))) for k in range(n)}


def moves(mon, rng, idx):
    plain = rng.random() < 0.5
    s = make(rng, n=int(rng.integers(4, 16)), plain=plain, dist="euclid" if plain else None)
    n = s.n
    nw = int(rng.integers(4, 12))
    wl = WalkerList(problem=s.problem, ensemble=nw, allpars=np.arange(n), fitIndex=np.arange(n))
    ed = bf.DistanceCostFunction()
    ref = lambda q: -float(legs(s, q).sum())
    ph = PhantomCollection()
    start = bf.StartOrderEngine(wl, ed, seed=int(rng.integers(1 << 30)), phantoms=ph)
    for k in range(nw):
        start.execute(k, -math.inf)
        if not permutation(mon, wl[k].allpars, n, "start", problem=s.text):
            return
        mon.close(wl[k].logL, ref(wl[k].allpars), "stored:start", rtol=1e-9, atol=1e-9, problem=s.text)
    if n > 5:
        mon.expect(len({tuple(w.allpars) for w in wl}) > 1, "random:start", "all %d walkers start at the same order" % nw, problem=s.text)
    order = list(rng.permutation(nw))
    if rng.random() < 0.7:
        wl.sort(key=lambda w: w.logL)            # identities are no longer the places in the list
    names = list(NAMES)
    if s.ndim != 2 or s.dist in ("spher",):
        names.remove("loop")
    engs = {k: NAMES[k](wl, ed, seed=int(rng.integers(1 << 30)), phantoms=ph) for k in names}
    once = rng.random() < 0.5
    for t in range(25):
        name = names[int(rng.integers(len(names)))]
        kw = int(rng.integers(nw))
        before = [(w.id, np.array(w.allpars), float(w.logL)) for w in wl]
        wold, aold = wl[kw], wl[kw].allpars
        low = before[kw][2] - float(rng.choice([0.0, 0.0, 1e-9, 2.0, 100.0])) * float(rng.random())
        eng = engs[name]
        got = eng.execute(kw, low, append=False, iteration=t) if rng.random() < 0.5 else eng.execute(kw, low)
        wit = dict(problem=s.text, engine=name, walker=kw, before=before[kw][1], after=wl[kw].allpars, low=low, moves=got)
        if not mon.expect(len(wl) == nw, "number:" + name, "%d walkers became %d" % (nw, len(wl)), **wit):
            return
        for k in range(nw):
            if k == kw:
                continue
            if not mon.expect(wl[k].id == before[k][0] and np.array_equal(wl[k].allpars, before[k][1]) and wl[k].logL == before[k][2],
                              "others:" + name, "walker %d was changed while walker %d was moved" % (k, kw), **wit):
                return
        w = wl[kw]
        if not permutation(mon, w.allpars, n, name, **wit):
            return
        mon.expect(w.id == before[kw][0], "identity:" + name, "identity %s became %s" % (before[kw][0], w.id), **wit)
        mon.close(w.logL, ref(w.allpars), "stored:" + name, rtol=1e-9, atol=1e-9, **wit)
        if got > 0:
            mon.count("moves")
            mon.expect(w is not wold or w.allpars is not aold, "reported:" + name, "%s moves are reported, but nothing was replaced" % got, **wit)
            mon.expect(w.logL >= low, "constraint:" + name, "log likelihood %.10g below %.10g" % (w.logL, low), **wit)
            if name in CHANGES:
                ch = len(edges(w.allpars) - edges(before[kw][1]))
                mon.expect(ch <= CHANGES[name], "action:" + name, "%d connections were replaced, at most %d expected" % (ch, CHANGES[name]), **wit)
            if name == "switch":
                mon.expect(np.sum(w.allpars != before[kw][1]) == 2, "action:switch", "not just two elements are exchanged", **wit)
            if name == "loop" and plain:
                mon.expect(w.logL >= before[kw][2] - 1e-9 * abs(w.logL), "action:loop", "uncrossing a loop made it longer", **wit)
        else:
            mon.count("stays")
            mon.expect(np.array_equal(w.allpars, before[kw][1]), "stay:" + name, "no moves reported but the order changed", **wit)
        mon.state(s.dist, n, s.ndim, s.weights is None, s.oneway, name, got > 0)
    if "near" in engs and not s.oneway and s.weights is None:
        # with no constraint: a node gets its nearest neighbour next to it
        kw = 0
        e = engs["near"]
        for t in range(5):
            old = np.array(wl[kw].allpars)
            if e.execute(kw, -math.inf) > 0 and edges(wl[kw].allpars) != edges(old):
                new = edges(wl[kw].allpars) - edges(old)
                ok = any(min(s.D[a, j] for j in range(n) if j != a) == s.D[a, b] for ed2 in new for a, b in
                         (tuple(ed2), tuple(ed2)[::-1]))
                mon.expect(ok, "nearest", "no node got its nearest neighbour next to it", problem=s.text, before=old, after=wl[kw].allpars)
                mon.count("nearest")


def solve(mon, rng, idx):
    n = int(rng.integers(4, 8))
    s = make(rng, n=n)
    names = ["move", "reverse", "switch", "loop", "near", "shuffle"]
    if s.ndim != 2:
        names.remove("loop")
    eng = None
    if s.ndim != 2 or rng.random() < 0.6:
        eng = ["move", "reverse", "switch"]
        eng += [str(v) for v in rng.choice(names, int(rng.integers(0, 3)), replace=False) if v not in eng]
    kw = {}
    ens = int(rng.integers(40, 80))
    disc = int(rng.choice([1, 1, 2, 4]))
    ns = bf.NestedSolver(s.problem, engines=eng, ensemble=ens, discard=disc, seed=int(rng.integers(1 << 30)), verbose=0)
    best = ns.solve()
    wit = dict(problem=s.text, engines=str(eng), ensemble=ens, discard=disc, result=best.allpars)
    mon.count("solved")
    if not permutation(mon, best.allpars, n, "solver", **wit):
        return
    mon.close(best.logL, -legs(s, best.allpars).sum(), "reported", rtol=1e-9, atol=1e-9, detail="cost of the solution", **wit)
    logs = []
    for q in ns.samples:
        permutation(mon, q.allpars, n, "samples", **wit)
        mon.close(q.logL, -legs(s, q.allpars).sum(), "sample-cost", rtol=1e-9, atol=1e-9, **wit)
        logs.append(q.logL)
    mon.expect(np.all(np.diff(logs) >= 0), "uphill", "the samples are not in order of cost", **wit)
    mon.expect(best.logL == max(logs), "best", "cost %.6g while %.6g was recorded" % (-best.logL, -max(logs)), **wit)
    opt = min(float(legs(s, np.array((0,) + q)).sum()) for q in itertools.permutations(range(1, n)))
    if s.oneway or s.weights is not None:
        opt = min(float(legs(s, np.array(q)).sum()) for q in itertools.permutations(range(n))) if n < 8 else opt
    if s.oneway:
        # a cut in the right place takes luck
        mon.expect(-best.logL <= 1.3 * opt, "optimum/oneway", "cost %.6g, the optimum is %.6g" % (-best.logL, opt), **wit)
        return
    mon.count("optimum")
    got = -best.logL
    for t in range(3):
        if got > opt + 1e-9 * (1 + opt):            # bad luck should not be repeated
            got = -bf.NestedSolver(s.problem, engines=eng, ensemble=ens + 40, seed=int(rng.integers(1 << 30)), verbose=0).solve().logL
    mon.expect(got <= opt + 1e-9 * (1 + opt), "optimum", "cost %.6g, the optimum is %.6g" % (got, opt), **wit)
    mon.state(s.dist, n, s.ndim, s.weights is None, s.oneway, str(eng), "solver")
    mon.sample("solved with cost %.3f" % -best.logL, problem=s.text, engines=str(eng))


CASES = [Case("cost", cost, quick=120, thorough=1500, chunk=20), Case("moves", moves, quick=120, thorough=2000, chunk=10),
         Case("solve", solve, quick=60, thorough=600, chunk=2)]
