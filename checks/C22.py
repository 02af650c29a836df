"""C22  Dynamic models keep parameters and priors consistent while they change."""
import math
import numpy as np
import BayesicFitting as bf
import dyn
from harness import Case

RULE = "distinct = (kind of dynamic model, shape of the compound, operation, with/without rng, succeeded, number of components)"
ASSUMPTIONS = ["grow and shrink get the offset of the member in its compound, as the engines do",
               "with a random generator priors are defined for all parameters"]
REQUIRE = {"grown": 300, "shrunk": 200, "bounds": 100, "values": 1000, "indices": 300, "births": 100, "deaths": 60,
           "structs": 30, "samples": 300}


def consistent(mon, c, mdl, p, ncomp, tag, **wit):
    """ everything that tells the number of parameters agrees """
    d = dyn.member(c, mdl)
    nd = c.d.npar(ncomp)
    n = c.off + nd + c.npost
    wit.setdefault("chain", c.text)
    ok = mon.expect(mdl.npars == n and mdl.npchain == n and len(mdl.parameters) == n and d.npbase == nd, "length:" + tag,
                    "%d parameters, %d in chain, list of %d, %d in dynamic member; expected %d and %d" %
                    (mdl.npars, mdl.npchain, len(mdl.parameters), d.npbase, n, nd), **wit)
    mon.expect(d.ncomp == ncomp, "ncomp:" + tag, "%d components instead of %d" % (d.ncomp, ncomp), **wit)
    if not ok:
        return False
    names = [mdl.getParameterName(k) for k in range(n)]
    mon.expect(len(names) == n and all(isinstance(v, str) for v in names), "names:" + tag, chain=c.text, names=names)
    return True


def values(mon, rng, c, mdl, p, tag):
    n = int(rng.integers(1, 20))
    x = dyn.xdata(rng, c, n)
    want = dyn.value(c, mdl, x, p)
    sc = 1e-6 * (1 + np.max(np.abs(want)))
    got = np.asarray(mdl.result(x, np.array(p))) + np.zeros(n)
    mon.close(got, want, "value:" + tag, rtol=1e-6, atol=sc, chain=c.text, p=p)
    mon.count("values")
    if c.kind == "repeat" or rng.random() < 0.3:
        par = np.asarray(mdl.partial(x, np.array(p)))
        mon.expect(par.shape == (n, len(p)), "partial-shape:" + tag, "%s" % (par.shape,), chain=c.text)
        # partials of the reference formula for one of the parameters
        if len(p) and par.shape == (n, len(p)) and c.kind != "tree":
            k = int(rng.integers(len(p)))
            h = 1e-5 * (1 + abs(p[k]))
            a, b = np.array(p), np.array(p)
            a[k] += h
            b[k] -= h
            num = (dyn.value(c, mdl, x, a) - dyn.value(c, mdl, x, b)) / (2 * h)
            mon.close(par[:, k], num, "partial:" + tag, rtol=2e-4, atol=2e-4 * (1 + np.max(np.abs(num))) + 1e-4 * np.max(np.abs(want)), chain=c.text, k=k, p=p)


def priors(mon, c, mdl, n, tag):
    lo, hi = dyn.lims(c, n)
    for k in range(n):
        pr = mdl.getPrior(k)
        mon.expect(abs(pr.lowLimit - lo[k]) < 1e-9 and abs(pr.highLimit - hi[k]) < 1e-9, "prior:" + tag,
                   "parameter %d has a prior on [%g,%g] instead of [%g,%g]" % (k, pr.lowLimit, pr.highLimit, lo[k], hi[k]), chain=c.text)


def histories(mon, rng, idx):
    kind = dyn.KINDS[idx % len(dyn.KINDS)]
    c = dyn.chain(rng, kind, priors=True)
    if c.d.min >= 0 and c.d.npar(c.d.ncomp) == 0 and len(c.members) == 1:
        return
    mdl = c.model
    p = dyn.start(rng, c)
    nc = c.d.ncomp
    mdl.parameters = p.copy()
    src = np.random.RandomState(int(rng.integers(1 << 30)))
    if not consistent(mon, c, mdl, p, nc, "start"):
        return
    mon.expect(mdl.isDynamic(), "dynamic", "the compound does not know it is dynamic", chain=c.text)
    values(mon, rng, c, mdl, p, kind)
    for t in range(int(rng.integers(3, 14))):
        if rng.random() < 0.2:
            cm = mdl.copy()
            if rng.random() < 0.5:
                # go on with the copy; the original stays as it is
                old, mdl = mdl, cm
            else:
                old = cm
            op, nco = p.copy(), nc
        else:
            old = None
        d = dyn.member(c, mdl)
        grow = rng.random() < 0.6
        r = src if kind in ("splines",) or rng.random() < 0.7 else None
        kw = {}
        loc = None
        if kind == "tree" and r is None:
            loc = int(rng.integers(c.d.npar(nc)))
            kw = dict(location=loc)
            if grow:
                kw.update(kdim=int(rng.integers(c.d.ndim)), split=float(rng.uniform(0.1, 0.9)))
        knots = np.array(d.knots) if kind == "splines" else None
        tree = leaves(d) if kind == "tree" else None
        lo0, hi0 = dyn.lims(c, len(p))
        done = d.grow(offset=c.off, rng=r, **kw) if grow else d.shrink(offset=c.off, rng=r, **kw)
        if hasattr(d, "location"):
            try:
                del d.location
            except AttributeError:
                pass
        what = ("grow" if grow else "shrink") + ":" + kind
        wit = dict(chain=c.text, step=t, before=p)
        free = (c.d.max is None or nc < c.d.max) if grow else nc > c.d.min
        if kind == "tree" and not grow:
            n2 = d.ncomp
            mon.expect(done == (nc > 0), "bounds:" + what, "%s with %d components" % (done, nc), **wit)
            if done:
                mon.expect(0 <= n2 < nc, "ncomp:" + what, "%d components became %d" % (nc, n2), **wit)
                dn = n2 - nc
        else:
            mon.expect(bool(done) == free, "bounds:" + what, "%s with %d components, range %s-%s" % (done, nc, c.d.min, c.d.max), **wit)
            dn = (1 if grow else -1) if done else 0
        if not done:
            mon.count("bounds")
            dn = 0
        nc2 = nc + dn
        mon.state(kind, c.kd, len(c.members), grow, r is None, bool(done), min(nc, 6))
        if not consistent(mon, c, mdl, p, nc2, what, **wit):
            return
        q = np.array(mdl.parameters, dtype=float)
        nd, nd2 = c.d.npar(nc), c.d.npar(nc2)
        pre, mid, post = p[:c.off], p[c.off:c.off + nd], p[c.off + nd:]
        pre2, mid2, post2 = q[:c.off], q[c.off:c.off + nd2], q[c.off + nd2:]
        mon.close(pre2, pre, "others:" + what, **wit)
        mon.close(post2, post, "others:" + what, detail="parameters after the dynamic part", **wit)
        if not done:
            mon.close(mid2, mid, "unchanged:" + what, **wit)
        elif kind in ("polynomial", "harmonic", "repeat"):
            m = min(nd, nd2)
            mon.close(mid2[:m], mid[:m], "remaining:" + what, **wit)
            if grow:
                lo, hi = dyn.lims(c, len(q))
                new = np.arange(c.off + nd, c.off + nd2)
                if r is None:
                    mon.close(q[new], np.zeros(len(new)), "new:" + what, **wit)
                else:
                    mon.expect(bool(np.all((q[new] >= lo[new]) & (q[new] <= hi[new]))), "new:" + what,
                               "new parameters %s outside %s %s" % (q[new], lo[new], hi[new]), **wit)
                    mon.expect(len(new) < 2 or len(set(q[new])) == len(new), "new-distinct:" + what, **wit)
        elif kind == "splines":
            kn = np.array(d.knots)
            both = set(np.round(knots, 12)) & set(np.round(kn, 12))
            mon.expect(len(kn) == nc2 and len(both) == min(nc, nc2), "knots:" + what, "%s to %s" % (knots, kn), **wit)
            mon.expect(sorted_subset(mid, mid2) >= min(nd, nd2) - 1, "remaining:" + what,
                       "parameters %s became %s" % (mid, mid2), **wit)
            mon.expect(bool(np.all((q >= dyn.lims(c, len(q))[0] - 1e-12) & (q <= dyn.lims(c, len(q))[1] + 1e-12))), "domain:" + what,
                       "%s outside its limits" % q, lo=dyn.lims(c, len(q))[0], hi=dyn.lims(c, len(q))[1], **wit)
        else:
            # leaves that are not touched keep their value
            after = leaves(d)
            common = [k for k in after if k in tree]
            for k in common:
                if after[k][1] == tree[k][1]:
                    mon.close(mid2[after[k][0]], mid[tree[k][0]], "remaining:" + what, detail="leaf %s" % (k,), **wit)
            if grow and loc is not None:
                mon.expect(mid[loc] in mid2, "remaining:" + what, "the split leaf lost its value", **wit)
        p, nc = q, nc2
        priors(mon, c, mdl, len(p), what)
        mon.count("grown" if grow and done else "shrunk" if done else "refused")
        if rng.random() < 0.4:
            lo, hi = dyn.lims(c, len(p))
            p = rng.uniform(lo, hi)
            mdl.parameters = p.copy()
        values(mon, rng, c, mdl, p, kind)
        if old is not None:
            if consistent(mon, c, old, op, nco, "copy:" + kind):
                mon.close(np.array(old.parameters, dtype=float), op, "copy:" + kind, chain=c.text)
                values(mon, rng, c, old, op, "copy-" + kind)
                mon.count("copies")
    mon.sample("history", chain=c.text, components=nc, parameters=p)


def sorted_subset(a, b):
    """ length of the longest common subsequence """
    L = np.zeros((len(a) + 1, len(b) + 1), dtype=int)
    for i in range(len(a)):
        for j in range(len(b)):
            L[i + 1, j + 1] = L[i, j] + 1 if a[i] == b[j] else max(L[i, j + 1], L[i + 1, j])
    return int(L[-1, -1])


def leaves(t):
    """ path -> (leaf index, True) """
    out = {}

    def down(n, path):
        if n.left is None:
            out[path] = (len(out), True)
            return
        down(n.left, path + "L")
        down(n.rite, path + "R")
    down(t, "")
    return out


def indices(mon, rng, idx):
    """ the list of fitted indices follows the parameters """
    m = bf.PolynomialDynamicModel(2) if idx % 2 else bf.HarmonicDynamicModel(2)
    for t in range(10):
        off = int(rng.integers(0, 5))
        nd = int(rng.integers(1, 7))
        npost = int(rng.integers(0, 4))
        nh = int(rng.integers(0, 3))
        n = off + nd + npost
        keep = [k for k in range(n) if not off <= k < off + nd and rng.random() < 0.3]
        fi = [k for k in range(n) if k not in keep] + [k for k in range(-nh, 0) if rng.random() < 0.7]
        dnp = int(rng.choice([-2, -1, 1, 2, 3]))
        if -dnp > nd:
            dnp = -nd
        want = [k if k < off + nd + min(dnp, 0) else k + dnp for k in fi if k >= 0 and not off + nd + dnp <= k < off + nd]
        if dnp > 0:
            want = sorted(want + list(range(off + nd, off + nd + dnp)))
        want += [k for k in fi if k < 0]
        got = m.alterFitindex(np.array(fi, dtype=int), nd, dnp, off)
        mon.expect(list(got) == want, "fitindex", "%s instead of %s from %s" % (list(got), want, fi), location=nd, dnp=dnp, offset=off)
        mon.count("indices")
        mon.state("index", np.sign(dnp), off > 0, npost > 0, nh)


def gausslik(c, model, x, y, w, q, s):
    r = (y - dyn.value(c, model, x, q)) / s
    w = np.ones(len(y)) if w is None else w
    return float(np.sum(w * (-0.5 * r * r - math.log(s) - 0.5 * math.log(2 * math.pi))))


def problem(rng, kind, ops="+-", noise=1.0):
    """ a problem with data from the chain """
    while True:
        c = dyn.chain(rng, kind, ops=ops)
        if c.off + c.npost + c.d.npar(c.d.ncomp) > 0:
            break
    n = int(rng.integers(12, 30))
    x = dyn.xdata(rng, c, n)
    p = dyn.start(rng, c)
    s = float(rng.uniform(0.5, 3)) * noise
    y = dyn.value(c, c.model, x, p) + s * rng.normal(size=n)
    w = None if rng.random() < 0.6 else rng.uniform(0.3, 2, n)
    fit = rng.random() < 0.5
    lim = [0.2 * s, 8 * s]
    return c, x, y, w, p, s, lim if fit else None


def check_walker(mon, c, x, y, w, lim, s, wlk, tag, kept=None, low=None, **wit):
    m = wlk.problem.model if hasattr(wlk, "problem") else wlk.model
    q = np.asarray(wlk.allpars, dtype=float)
    d = dyn.member(c, m)
    nd = c.d.npar(d.ncomp)
    n = c.off + nd + c.npost
    mon.expect(m.npars == n and d.npbase == nd and len(q) == n + 1, "length:" + tag,
               "%d parameters for a model with %d (%d)" % (len(q), m.npars, n), chain=c.text, **wit)
    if len(q) != n + 1:
        return
    ncd = d.ncomp
    mon.expect(ncd >= c.d.min and (c.d.max is None or ncd <= c.d.max), "bounds:" + tag, "%d components" % ncd, chain=c.text, **wit)
    fi = list(range(n)) + ([-1] if lim else [])
    kept = kept or {}
    kk = {k: v for k, v in kept.items()}
    fi = [k for k in fi if k not in [(j if j < c.off else j + (n - kept_n(c, kept))) for j in kk]]
    mon.expect(wlk.fitIndex is None or list(wlk.fitIndex) == fi, "fitindex:" + tag, "%s instead of %s" % (list(wlk.fitIndex), fi), chain=c.text, **wit)
    lo, hi = dyn.lims(c, n)
    lo = np.append(lo, lim[0] if lim else s)
    hi = np.append(hi, lim[1] if lim else s)
    tol = 1e-9 * (1 + np.abs(q))
    mon.expect(bool(np.all((q >= lo - tol) & (q <= hi + tol))), "domain:" + tag, "%s outside [%s,%s]" % (q, lo, hi), chain=c.text, **wit)
    want = gausslik(c, m, x, y, w, q[:-1], q[-1])
    mon.close(wlk.logL, want, "likelihood:" + tag, rtol=1e-6, atol=1e-6, chain=c.text, pars=q, **wit)
    if low is not None:
        mon.expect(wlk.logL >= low, "constraint:" + tag, "%g below %g" % (wlk.logL, low), chain=c.text, **wit)
    for j in kk:
        v = j if j < c.off else j + (n - kept_n(c, kept))
        mon.close(q[v], kk[j], "kept:" + tag, chain=c.text, **wit)


def kept_n(c, kept):
    return c.off + c.d.npar(c.d.ncomp) + c.npost


def snap(w):
    m = w.problem.model
    out = [w.id, np.array(w.allpars).tobytes(), float(w.logL), [] if w.fitIndex is None else list(w.fitIndex), m.npars]
    while m is not None:
        out.append((m.npbase, np.array(m.knots).tobytes() if hasattr(m, "knots") else None,
                    str(m.encode()) if isinstance(m, bf.DecisionTreeModel) else None))
        m = m._next
    return out


ENG = {"birth": bf.BirthEngine, "death": bf.DeathEngine, "struct": bf.StructureEngine, "chord": bf.ChordEngine,
       "galilean": bf.GalileanEngine, "gibbs": bf.GibbsEngine}


def engines(mon, rng, idx):
    kind = dyn.KINDS[idx % len(dyn.KINDS)]
    c, x, y, w, p, s, lim = problem(rng, kind)
    prob = bf.ClassicProblem(c.model, xdata=x, ydata=y, weights=w)
    ed = bf.GaussErrorDistribution(scale=s, limits=lim) if lim else bf.GaussErrorDistribution(scale=s)
    n = len(p)
    kept = {}
    cand = [k for k in range(n) if not c.off <= k < n - c.npost]
    if cand and rng.random() < 0.3:
        k = int(rng.choice(cand))
        kept[k] = float(p[k])
        mon.count("kept")
    nw = int(rng.integers(6, 15))
    fi = [k for k in range(n) if k not in kept] + ([-1] if lim else [])
    wl = bf.WalkerList(problem=prob, ensemble=nw, allpars=np.append(p, s), fitIndex=np.array(fi))
    st = bf.StartEngine(wl, ed, seed=int(rng.integers(1 << 30)))
    ph = bf.PhantomCollection(dynamic=True)
    st.phantoms = ph
    for k in range(nw):
        st.execute(k, -math.inf)
        check_walker(mon, c, x, y, w, lim, s, wl[k], "start", kept)
    names = ["birth", "death", "birth", "chord", "galilean", "gibbs"] + (["struct"] * 2 if c.model.isModifiable() else [])
    mon.expect(c.model.isModifiable() == (kind in ("splines", "tree")), "modifiable", chain=c.text)
    engs = {e: ENG[e](wl, ed, phantoms=ph, seed=int(rng.integers(1 << 30))) for e in dict.fromkeys(names)}
    low = -math.inf
    for t in range(25):
        name = str(rng.choice(names))
        logs = np.array([v.logL for v in wl])
        if t > 5 and rng.random() < 0.5:
            low = max(low, float(np.sort(logs)[int(rng.integers(0, nw // 2))]))
        elig = [k for k in range(nw) if logs[k] >= low]
        kw = int(rng.choice(elig))
        q0 = np.array(wl[kw].allpars, dtype=float)
        before = [snap(v) for v in wl]
        nc0 = dyn.member(c, wl[kw].problem.model).ncomp
        lw = low if np.isfinite(low) else -1.7e308
        ed.lowLhood = lw
        mv = engs[name].execute(kw, lw)
        after = [snap(v) for v in wl]
        tag = name + ":" + kind
        mon.expect(len(after) == nw and all(after[k] == before[k] for k in range(nw) if k != kw), "others:" + tag,
                   "another walker (or its model) changed", chain=c.text,
                   which=[k for k in range(nw) if k != kw and after[k] != before[k]])
        check_walker(mon, c, x, y, w, lim, s, wl[kw], tag, kept, low=low)
        nc1 = dyn.member(c, wl[kw].problem.model).ncomp
        if name == "birth":
            mon.expect(nc1 - nc0 in (0, 1) and (mv > 0) == (nc1 > nc0), "change:" + tag, "%d to %d, %s moves" % (nc0, nc1, mv), chain=c.text)
        elif name == "death":
            mon.expect((nc1 - nc0 in (0, -1) or kind == "tree" and nc1 < nc0), "change:" + tag, "%d to %d" % (nc0, nc1), chain=c.text)
        else:
            mon.expect(nc1 == nc0, "change:" + tag, "%d to %d" % (nc0, nc1), chain=c.text)
        if name in ("birth", "death"):
            q1 = np.asarray(wl[kw].allpars, dtype=float)
            own = lambda v: np.concatenate([v[:c.off], v[len(v) - 1 - c.npost:]])
            mon.close(own(q1), own(q0), "own-parameters:" + tag, detail="parameters of the other models and the scale", chain=c.text)
        if not mv:
            mon.expect(after[kw][1:] == before[kw][1:], "unmoved:" + tag, "no move is reported but the walker changed", chain=c.text,
                       before=str(before[kw])[:400], after=str(after[kw])[:400])
        elif name in ("birth", "death", "struct"):
            mon.count(name + "s")
        mon.state("engine", kind, name, bool(mv), len(c.members), bool(kept), lim is None)


def runs(mon, rng, idx):
    kind = dyn.KINDS[idx % len(dyn.KINDS)]
    c, x, y, w, p, s, lim = problem(rng, kind, ops="+", noise=4.0)
    ed = bf.GaussErrorDistribution(scale=s, limits=lim) if lim else bf.GaussErrorDistribution(scale=s)
    n0 = c.d.ncomp
    ns = bf.NestedSampler(x, c.model, y, weights=w, distribution=ed, ensemble=int(rng.integers(12, 24)), seed=int(rng.integers(1 << 30)),
                           **({"bestBoost": True} if idx % 3 == 1 else {}))
    ns.verbose = 0
    ns.maxsize = 200
    want = {"Birth", "Death"} | ({"Struct"} if kind in ("splines", "tree") else set())
    got = {str(e) for e in ns.engines}
    for v in want:
        mon.expect(any(g.startswith(v) for g in got), "engines:" + kind, "no %s engine in %s" % (v, sorted(got)), chain=c.text)
    ns.sample()
    sl = ns.samples
    ncs = set()
    for k, v in enumerate(sl):
        check_walker(mon, c, x, y, w, lim, s, v, "sample:" + kind)
        ncs.add(dyn.member(c, v.model).ncomp)
        mon.count("samples")
    for v in ns.walkers:
        check_walker(mon, c, x, y, w, lim, s, v, "walker:" + kind)
    for np_, lst in ns.phantoms.phantoms.items():
        for v in lst:
            mon.expect(v.problem.npars == np_ or len(v.allpars) == np_, "phantom-list:" + kind, "%d parameters in the list of %d" % (
                v.problem.npars, np_), chain=c.text)
            check_walker(mon, c, x, y, w, lim, s, v, "phantom:" + kind)
            mon.count("phantoms")
    wt = np.exp(np.array([v.logW for v in sl]) - np.max([v.logW for v in sl]))
    wt /= wt.sum()
    avg = sum(a * dyn.value(c, v.model, x, np.asarray(v.allpars)[:-1]) for a, v in zip(wt, sl))
    mon.close(sl.average(x), avg, "average:" + kind, rtol=1e-6, atol=1e-6 * (1 + np.max(np.abs(avg))), chain=c.text)
    mon.count("component-numbers", len(ncs))
    mon.state("run", kind, len(c.members), tuple(sorted(ncs)), n0, lim is None)
    mon.sample("run", chain=c.text, components=sorted(ncs), samples=len(sl))


CASES = [Case("histories", histories, quick=250, thorough=4000, chunk=10),
         Case("indices", indices, quick=40, thorough=400, chunk=20),
         Case("engines", engines, quick=60, thorough=900, limit=200, chunk=2),
         Case("runs", runs, quick=15, thorough=160, limit=400)]
