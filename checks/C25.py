"""C25  Walker and sample collections copy, order and account exactly."""
import math
import numpy as np
import BayesicFitting as bf
import zoo
from harness import Case

RULE = "distinct = (collection, operation, number of members, number of parameters, dynamic)"
ASSUMPTIONS = ["walkers and samples are put in the collections through their public methods",
               "the extents reported by a phantom collection are those at the moment the likelihood limit was raised"]
REQUIRE = {"operations": 1500, "copied": 200, "inserted": 500, "cropped": 100, "extents": 60, "samples": 200, "dynamic": 200}


class Ref(object):
    """ what a walker has to contain """
    def __init__(self, wid, parent, start, logL, pars, fi, np_):
        self.id, self.parent, self.start, self.logL = wid, parent, start, logL
        self.pars, self.fi, self.np = np.array(pars), None if fi is None else list(fi), np_

    def same(self, other=None, **kw):
        r = Ref(self.id, self.parent, self.start, self.logL, self.pars, self.fi, self.np)
        for k in kw:
            setattr(r, k, kw[k])
        return r


def compare(mon, wl, ref, tag, **wit):
    if not mon.expect(len(wl) == len(ref), "length:" + tag, "%d walkers instead of %d" % (len(wl), len(ref)), **wit):
        return False
    for k, (w, r) in enumerate(zip(wl, ref)):
        mon.expect(w.id == r.id, "identity:" + tag, "walker %d has id %d instead of %d" % (k, w.id, r.id), **wit)
        mon.expect(w.parent == r.parent, "parent:" + tag, "walker %d has parent %d instead of %d" % (k, w.parent, r.parent), **wit)
        mon.expect(w.start == r.start, "start:" + tag, "%d instead of %d" % (w.start, r.start), **wit)
        mon.close(w.logL, r.logL, "likelihood:" + tag, rtol=0, **wit)
        mon.close(w.allpars, r.pars, "parameters:" + tag, rtol=0, **wit)
        mon.expect((None if w.fitIndex is None else list(w.fitIndex)) == r.fi, "fitindex:" + tag, "%s %s" % (w.fitIndex, r.fi), **wit)
        mon.close(w.parameters, r.pars[:r.np], "model-parameters:" + tag, rtol=0, **wit)
        hp = w.hypars
        mon.expect((hp is None) == (len(r.pars) == r.np), "hypars:" + tag, "%s" % hp, **wit)
        if hp is not None:
            mon.close(hp, r.pars[r.np:], "hypars:" + tag, rtol=0, **wit)
    return True


def walkers(mon, rng, idx):
    """ an ensemble through a history of operations, with a list of plain records as reference """
    dyn = idx % 2 == 1
    np_ = int(rng.integers(1, 5))
    nh = int(rng.integers(0, 3))
    m = bf.PolynomialDynamicModel(np_ - 1) if dyn else bf.PolynomialModel(np_ - 1)
    prob = bf.ClassicProblem(m, xdata=np.arange(5.0), ydata=np.arange(5.0))
    pars = rng.normal(size=np_ + nh)
    fi = np.array(sorted(rng.choice(np_, int(rng.integers(1, np_ + 1)), replace=False)))
    n = int(rng.integers(1, 9))
    wl = bf.WalkerList(problem=prob, ensemble=n, allpars=pars, fitIndex=fi)
    ref = [Ref(k, -1, 0, 0.0, pars, fi, np_) for k in range(n)]
    compare(mon, wl, ref, "made")
    for k in range(n):
        mon.expect(not np.shares_memory(wl[k].allpars, pars) and all(not np.shares_memory(wl[k].allpars, wl[j].allpars) for j in range(k)),
                   "shared:made", "walkers share their parameters")
        if dyn:
            mon.expect(all(wl[k].problem.model is not wl[j].problem.model for j in range(k)) and wl[k].problem.model is not m, "shared:model",
                       "walkers share a dynamic model")
    count = n
    for t in range(int(rng.integers(5, 25))):
        op = str(rng.choice(["copy", "set", "append", "change", "copyfrom", "add"]))
        wit = dict(operation=op, n=len(ref), dynamic=dyn)
        if op == "change":
            # another value in one walker shows nowhere else
            k = int(rng.integers(len(wl)))
            j = int(rng.integers(len(pars)))
            v = float(rng.normal())
            wl[k].allpars[j] = v
            wl[k].logL = float(rng.normal())
            ref[k].pars[j] = v
            ref[k].logL = wl[k].logL
        elif op == "copy" or op == "copyfrom":
            src = int(rng.integers(len(wl)))
            des = int(rng.integers(len(wl)))
            st = int(rng.integers(0, 99))
            if op == "copy":
                wl.copy(src, des, start=st)
                ref[des] = ref[src].same(id=ref[des].id, parent=src, start=st)
                mon.expect(wl[des] is not wl[src] or src == des, "shared:copy", "the copy is the same walker", **wit)
                if src != des:
                    mon.expect(not np.shares_memory(wl[des].allpars, wl[src].allpars), "shared:copy", "parameters are shared", **wit)
                    mon.expect(not dyn or wl[des].problem.model is not wl[src].problem.model, "shared:copy", "the dynamic model is shared", **wit)
            else:
                o = bf.WalkerList(problem=prob, ensemble=3, allpars=rng.normal(size=len(pars)), fitIndex=fi)
                s2 = int(rng.integers(3))
                wl.copy(s2, des, wlist=o, start=st)
                ref[des] = Ref(ref[des].id, s2, st, 0.0, o[s2].allpars, fi, np_)
                o[s2].allpars[0] = 1e9
            mon.count("copied")
        elif op in ("set", "append"):
            k = int(rng.integers(len(wl)))
            q = rng.normal(size=len(pars))
            w = bf.Walker(wl[k].id, prob, q, fi, logL=float(rng.normal()), parent=int(rng.integers(99)), start=int(rng.integers(99)))
            r = Ref(wl[k].id, w.parent, w.start, w.logL, q, fi, np_)
            q[:] = 7.0                     # walkers have a copy
            if op == "set":
                wl.setWalker(w, k)
                ref[k] = r
            else:
                wl.setWalker(w, len(wl))
                ref.append(r.same(id=count))
                count += 1
        else:
            k = int(rng.integers(len(wl)))
            a = int(rng.integers(1, 3))
            wl.addWalkers(wl[k], a)
            for j in range(a):
                ref.append(ref[k].same(id=count))
                count += 1
        mon.count("operations")
        if dyn:
            mon.count("dynamic")
        mon.state("walkers", op, min(len(ref), 9), np_, nh, dyn)
        if not compare(mon, wl, ref, op, **wit):
            return
        # the extractions
        mon.close(wl.getLogLikelihoodEvolution(), [r.logL for r in ref], "evolution:logL", rtol=0)
        mon.close(wl.getLogL(), [r.logL for r in ref], "evolution:logL", rtol=0)
        k = int(rng.integers(len(ref)))
        mon.close(wl.getLogL(wl[k]), ref[k].logL, "evolution:logL", rtol=0)
        mon.close(wl.getParameterEvolution(), np.array([r.pars[:np_] for r in ref]), "evolution:parameters", rtol=0)
        mon.close(wl.allPars(), np.array([r.pars for r in ref]), "evolution:allpars", rtol=0)
        if nh:
            mon.close(wl.getScaleEvolution(), np.array([r.pars[np_:] for r in ref]), "evolution:scale", rtol=0)
        lo, k = wl.getLowLogL()
        mon.close(lo, min(r.logL for r in ref), "lowest", rtol=0)
        mon.close(ref[k].logL, lo, "lowest", detail="index %d" % k, rtol=0)
        v = float(rng.normal())
        want = next((k for k, r in enumerate(ref) if r.logL > v), len(ref))
        mon.expect(wl.firstIndex(v) == want, "first", "%s instead of %d" % (wl.firstIndex(v), want))
        # a walker as sample keeps everything
        w = wl[int(rng.integers(len(wl)))]
        lw = float(rng.normal())
        s = w.toSample(lw)
        before = np.array(w.allpars)
        mon.expect(s.id == w.id and s.parent == w.parent and s.start == w.start, "sample-identity")
        mon.close(s.allpars, w.allpars, "sample-parameters", rtol=0)
        mon.close(s.logL, w.logL, "sample-likelihood", rtol=0)
        mon.close(s.logW, lw, "sample-weight", rtol=0)
        mon.close(s.weight, math.exp(lw), "sample-weight", rtol=1e-12)
        w.allpars += 1.0
        mon.close(s.allpars, before, "sample-shared", rtol=0, detail="a sample follows the walker")
        w.allpars[:] = before
        mon.count("samples")
        c = s.copy()
        c.parameters += 3.0
        if nh:
            c.hyper += 3.0
        c.logW = 1.0
        mon.close(s.allpars, before, "sample-copy", rtol=0, detail="copies of samples share")
        mon.close(s.logW, lw, "sample-copy", rtol=0)
        cw = w.copy()
        cw.allpars += 3.0
        cw.logL = 77.0
        mon.close(w.allpars, before, "walker-copy", rtol=0)
        mon.expect(w.logL != 77.0 and cw.id == w.id and cw.parent == w.parent and cw.start == w.start, "walker-copy")
    mon.sample("ensemble", walkers=len(ref), parameters=np_, hyper=nh, dynamic=dyn)


def phantoms(mon, rng, idx):
    """ the collection of phantoms is sorted, complete, cropped, and knows its extent """
    dyn = idx % 2 == 1
    ph = bf.PhantomCollection(dynamic=dyn)
    nh = int(rng.integers(0, 2))
    base = int(rng.integers(1, 4))
    nps = [base] if not dyn else [base, base + 1, base + 3]
    probs = {k: bf.ClassicProblem(bf.PolynomialDynamicModel(k - 1) if dyn else bf.PolynomialModel(k - 1), xdata=np.arange(4.0), ydata=np.arange(4.0))
             for k in nps}
    ref = {k: [] for k in nps}              # (logL, serial, parameters), in order of arrival
    low = {k: -math.inf for k in nps}
    serial = 0
    for t in range(int(rng.integers(20, 70))):
        k = int(rng.choice(nps))
        if rng.random() < 0.8:
            L = float(rng.choice([rng.normal(), np.round(rng.normal()), 0.0]))
            q = rng.normal(size=k + nh)
            w = bf.Walker(serial, probs[k], q, np.arange(k), logL=L)
            ph.storeItems(w)
            ref[k].append((L, serial, q.copy()))
            ref[k].sort(key=lambda v: v[0])
            serial += 1
            mon.count("inserted")
        else:
            pool = [v[0] for v in ref[k]]
            v = float(rng.choice(pool)) if pool and rng.random() < 0.5 else float(rng.normal())
            if v <= low[k]:
                continue
            lo, hi = ph.getParamMinmax(v, np=k)
            low[k] = v
            ref[k] = [r for r in ref[k] if r[0] > v]
            few = len(ref[k]) <= ph.minpars if dyn else len(ref[k]) == 0
            if few:
                mon.expect(lo is None and hi is None, "extent", "%d members give %s" % (len(ref[k]), lo), dynamic=dyn)
            else:
                a = np.array([r[2] for r in ref[k]])
                mon.close(lo, a.min(axis=0), "extent", rtol=0, dynamic=dyn)
                mon.close(hi, a.max(axis=0), "extent", rtol=0, dynamic=dyn)
                mon.count("extents")
            mon.count("cropped")
            # again at the same limit
            lo2, hi2 = ph.getParamMinmax(v, np=k)
            mon.expect((lo is None) == (lo2 is None) and (lo is None or np.array_equal(lo, lo2) and np.array_equal(hi, hi2)), "extent-again")
        mon.expect(ph.ncalls == serial, "calls", "%d of %d" % (ph.ncalls, serial))
        for j in nps:
            lst = ph.phantoms if not dyn else ph.phantoms.get(j, [])
            mon.expect(ph.length(j) == len(ref[j]) and len(lst) == len(ref[j]), "length", "%d instead of %d" % (ph.length(j), len(ref[j])), dynamic=dyn)
            Ls = [w.logL for w in lst]
            mon.expect(all(a <= b for a, b in zip(Ls, Ls[1:])), "sorted", "%s" % Ls[:20], dynamic=dyn)
            mon.expect(sorted(w.id for w in lst) == sorted(r[1] for r in ref[j]), "members", "members are lost, doubled or foreign", dynamic=dyn)
            d = {r[1]: r for r in ref[j]}
            for w in lst:
                if w.id in d:
                    mon.expect(w.logL == d[w.id][0] and np.array_equal(w.allpars, d[w.id][2]), "content", "a phantom changed", dynamic=dyn)
            if len(lst) and (not dyn or j in ph.phantoms):
                got = ph.getList(lst[0])
                mon.expect(len(got) == len(lst) and all(a is b for a, b in zip(got, lst)), "list", dynamic=dyn)
        if dyn:
            mon.expect(ph.length() == sum(len(v) for v in ref.values()), "total")
            mon.count("dynamic")
        mon.count("operations")
        mon.state("phantoms", dyn, len(nps), nh, min(8, sum(len(v) for v in ref.values()) // 4))
    mon.sample("phantoms", members={k: len(v) for k, v in ref.items()}, dynamic=dyn)


def inserting(mon, rng, idx):
    """ insertion in an ordered list keeps it ordered; cropping leaves those above the limit """
    prob = bf.ClassicProblem(bf.PolynomialModel(0), xdata=np.arange(3.0), ydata=np.arange(3.0))
    wl = bf.WalkerList()
    n = int(rng.integers(1, 30))
    Ls = rng.normal(size=n) if rng.random() < 0.5 else np.round(rng.normal(size=n))
    for k in range(n):
        w = bf.Walker(100 + k, prob, np.array([float(k)]), None, logL=float(Ls[k]))
        wl = wl.insertWalker(w)
        got = [v.logL for v in wl]
        mon.expect(got == sorted(Ls[:k + 1].tolist()), "ordered", "%s" % got)
        mon.expect(sorted(v.id for v in wl) == list(range(100, 101 + k)), "kept", "%s" % [v.id for v in wl])
        mon.expect(all(v.allpars[0] == v.id - 100 and v.logL == Ls[v.id - 100] for v in wl), "content")
        mon.count("inserted")
    low = float(rng.choice(Ls)) if rng.random() < 0.7 else float(rng.normal())
    cr = wl.cropOnLow(low)
    mon.expect([v.logL for v in cr] == [v for v in sorted(Ls.tolist()) if v > low], "cropped", "%s above %g" % ([v.logL for v in cr], low))
    mon.expect(len(wl) == n, "crop-source", "the list itself changed")
    # the count goes on: a new walker has a new identity
    w = bf.Walker(5, prob, np.array([0.0]), None)
    ids = {v.id for v in cr}
    mon.count("cropped")
    mon.count("operations")
    mon.state("insert", n, len(cr))


def samplelists(mon, rng, idx):
    """ weights and identities under add, copy, weed, normalise and replace """
    np_ = int(rng.integers(1, 4))
    m = bf.PolynomialModel(np_ - 1)
    S = bf.SampleList(m, 0, ndata=5)
    ref = []                                # [ id, parent, parameters, logL, logW ]
    serial = 0

    def new():
        s = bf.Sample(int(rng.integers(100, 999)), -1, int(rng.integers(9)), m, parameters=rng.normal(size=np_),
                      fitIndex=None if rng.random() < 0.3 else np.arange(np_))
        if rng.random() < 0.5:
            s.hyper = rng.uniform(0.5, 2, 2)
        if rng.random() < 0.3:
            s.nuisance = rng.normal(size=3)
        s.logL, s.logW = float(rng.normal()), float(rng.normal(-2, 2))
        return s
    for t in range(int(rng.integers(5, 40))):
        op = str(rng.choice(["add"] * 4 + ["copy", "weed", "normalize", "replace"])) if len(ref) > 1 else "add"
        if op == "add":
            s = new()
            old = s.id
            S.add(s)
            ref.append([serial, old, np.array(s.parameters), s.logL, s.logW])
            serial += 1
        elif op == "copy":
            a, b = int(rng.integers(len(ref))), int(rng.integers(len(ref)))
            S.copy(a, b)
            ref[b] = [ref[b][0]] + [ref[a][1], ref[a][2].copy(), ref[a][3], ref[a][4]]
            if a != b:
                for at in ("fitIndex", "hyper", "nuisance"):
                    mon.expect(getattr(S[a], at, None) is None or not np.shares_memory(np.asarray(getattr(S[a], at)), np.asarray(getattr(S[b], at))),
                               "samples-shared:" + at, "a copy of a sample shares its %s" % at)
                    if getattr(S[a], at, None) is not None:
                        mon.expect(np.array_equal(getattr(S[a], at), getattr(S[b], at)), "samples-copied:" + at)
                S[b].parameters[0] = 5.0
                ref[b][2][0] = 5.0
        elif op == "weed":
            mx = int(rng.integers(1, len(ref) + 3))
            S.weed(maxsize=mx)
            while len(ref) > mx:
                ref.pop(0 if ref[0][4] < ref[-1][4] else -1)
        elif op == "normalize":
            S.normalize()
            w = np.array([r[4] for r in ref])
            tot = w.max() + math.log(np.sum(np.exp(w - w.max())))
            for r in ref:
                r[4] -= tot
            mon.close(np.sum(S.getWeightEvolution()), 1.0, "normalized", rtol=1e-9)
        else:
            k = int(rng.integers(len(ref)))
            s = new()
            S.sample(k, s)
            mon.expect(S.sample(k) is s, "replace")
            ref[k] = [s.id, s.parent, np.array(s.parameters), s.logL, s.logW]
        wit = dict(operation=op, n=len(ref))
        mon.count("operations")
        mon.state("samples", op, min(len(ref), 12), np_)
        if not mon.expect(len(S) == len(ref), "samples-length:" + op, "%d instead of %d" % (len(S), len(ref)), **wit):
            return
        mon.expect([s.id for s in S] == [r[0] for r in ref] == S.getGeneration().tolist(), "samples-identity:" + op, "%s" % [s.id for s in S], **wit)
        mon.expect([s.parent for s in S] == [r[1] for r in ref] == S.getParentEvolution().tolist(), "samples-parent:" + op, **wit)
        mon.close(S.getParameterEvolution(), np.array([r[2] for r in ref]), "samples-parameters:" + op, rtol=0, **wit)
        k = int(rng.integers(np_))
        mon.close(S.getParameterEvolution(k), [r[2][k] for r in ref], "samples-parameters:" + op, rtol=0, **wit)
        mon.close(S.getLogLikelihoodEvolution(), [r[3] for r in ref], "samples-likelihood:" + op, rtol=0, **wit)
        mon.close(S.getLogWeightEvolution(), [r[4] for r in ref], "samples-weight:" + op, rtol=1e-9, atol=1e-9, **wit)
        mon.close(S.getNumberOfParametersEvolution(), [np_] * len(ref), "samples-npars:" + op, **wit)
        p, w = S.getParAndWgtEvolution()
        mon.close(p, np.array([r[2] for r in ref]), "samples-parwgt:" + op, rtol=0, **wit)
        mon.close(w, np.exp([r[4] for r in ref]), "samples-parwgt:" + op, rtol=1e-9, **wit)
        mon.expect(S.modusIndex == int(np.argmax([r[4] for r in ref])) or op == "normalize", "samples-modus:" + op,
                   "%d instead of %d" % (S.modusIndex, int(np.argmax([r[4] for r in ref]))), **wit)
    mon.count("samples")


CASES = [Case("walkers", walkers, quick=100, thorough=1500, chunk=10),
         Case("phantoms", phantoms, quick=120, thorough=1000, chunk=10),
         Case("inserting", inserting, quick=80, thorough=800, chunk=10),
         Case("samplelists", samplelists, quick=80, thorough=1000, chunk=10)]
