"""C23  Modifiable models keep their structure valid under variation."""
import math
import numpy as np
import BayesicFitting as bf
import dyn
import zoo
from harness import Case

RULE = "distinct = (kind of model, order or kinds of input, shape of the compound, operation, number of knots or branches, given location)"
ASSUMPTIONS = ["a model is varied through the public methods vary, grow and shrink and by the StructureEngine",
               "categorial input has one bit set, boolean input is 0 or 1; unknown (NaN) floats are allowed"]
REQUIRE = {"varied": 500, "refused": 20, "tree-partitions": 500, "unknowns": 50, "copies": 60, "decoded": 100, "structs": 50}


def knots_ok(mon, m, kn0, lo, hi, mind, tag, **wit):
    kn = np.asarray(m.knots, dtype=float)
    mon.expect(kn[0] == lo and kn[-1] == hi, "ends:" + tag, "%s: first and last knot are not %g %g" % (kn, lo, hi), **wit)
    mon.expect(bool(np.all(np.diff(kn) > 0)), "order:" + tag, "knots %s" % kn, **wit)
    if np.min(np.diff(kn0)) > mind:
        mon.expect(bool(np.all(np.diff(kn) >= mind * (1 - 1e-9))), "distance:" + tag, "knots %s at less than %g" % (kn, mind), **wit)
    return kn.copy()


def spline(mon, rng, idx):
    """ one spline model through a history of variations, growth and shrinkage, in or out of a compound """
    o = int(rng.integers(1, 5))
    n = int(rng.integers(2, 8))
    kn = zoo.knots_for(rng, n)
    frac = float(rng.choice([0.01, 0.01, 0.1, 0.3]))
    pre = bool(rng.random() < 0.4)
    m = bf.SplinesDynamicModel(knots=kn.copy(), order=o, minDistance=frac)
    mind = frac * (kn[-1] - kn[0]) / n
    head = m
    q = rng.uniform(-2, 2, 2)
    if pre:
        head = bf.PolynomialModel(1)
        head.setLimits([-3], [3])
        m.setLimits([-9], [9])
        head += m
        m = head._next
    else:
        m.setLimits([-9], [9])
    mon.expect(head.isModifiable(), "modifiable", "not modifiable")
    off = 2 if pre else 0
    head.parameters = rng.uniform(-3, 3, head.npars)
    src = np.random.RandomState(int(rng.integers(1 << 30)))
    cur = kn.copy()
    others = []
    for t in range(int(rng.integers(5, 25))):
        u = rng.random()
        wit = dict(order=o, knots=cur, compound=pre, step=t)
        if u < 0.15:
            others.append((head.copy(), np.array(cur), np.array(head.parameters, dtype=float)))
            continue
        p0 = np.array(head.parameters, dtype=float)
        if u < 0.3 and len(cur) < 12 and np.max(np.diff(cur)) > 3 * mind:
            ok = m.grow(offset=off, rng=src)
            op = "grow"
            mon.expect(ok and len(m.knots) == len(cur) + 1 and set(cur) <= set(np.asarray(m.knots)), "knots:" + op, "%s became %s" % (cur, m.knots), **wit)
        elif u < 0.4:
            ok = m.shrink(offset=off, rng=src)
            op = "shrink"
            mon.expect(ok == (len(cur) > 2) and len(m.knots) == len(cur) - int(ok) and set(np.asarray(m.knots)) <= set(cur), "knots:" + op,
                       "%s became %s" % (cur, m.knots), **wit)
        else:
            op = "vary"
            loc = int(rng.integers(0, len(cur))) if rng.random() < 0.6 else None
            ok = m.vary(rng=src, location=loc) if loc is not None else m.vary(rng=src)
            new = np.asarray(m.knots, dtype=float)
            mon.expect(len(new) == len(cur), "number:" + op, "%d knots became %d" % (len(cur), len(new)), **wit)
            if len(new) != len(cur):
                return
            moved = [k for k in range(len(cur)) if new[k] != cur[k]]
            if len(cur) == 2 or loc in (0, len(cur) - 1):
                mon.expect(not ok and not moved, "fixed-ends:" + op, "%s: %s became %s" % (ok, cur, new), location=loc, **wit)
                mon.count("refused")
            else:
                mon.expect(bool(ok) and len(moved) == 1 and (loc is None or moved == [loc]) and moved[0] not in (0, len(cur) - 1), "moved:" + op,
                           "knots %s moved" % moved, location=loc, new=new, **wit)
                mon.count("varied")
            mon.close(np.array(head.parameters, dtype=float), p0, "parameters:" + op, **wit)
            mon.state("spline", o, pre, op, len(cur), loc is None)
        cur = knots_ok(mon, m, cur, kn[0], kn[-1], mind, op, **wit)
        nb = len(cur) + o - 1
        mon.expect(head.npars == nb + off and len(head.parameters) == nb + off, "length:" + op, "%d parameters" % head.npars, **wit)
        p = rng.uniform(-3, 3, nb + off)
        x = np.sort(rng.uniform(kn[0] + 0.01, kn[-1] - 0.01, int(rng.integers(1, 30))))
        want = zoo.bspline_matrix(x, cur, o) @ p[off:] + (p[0] + p[1] * x if pre else 0)
        mon.close(head.result(x, p.copy()), want, "value:" + op, rtol=1e-6, atol=1e-6 * (1 + np.max(np.abs(want))), p=p, **wit)
        st = bf.BasicSplinesModel(knots=cur.copy(), order=o)
        if pre:
            st = bf.PolynomialModel(1) + st
        mon.close(head.result(x, p.copy()), st.result(x, p.copy()), "static:" + op, rtol=1e-8, atol=1e-8 * (1 + np.max(np.abs(want))), **wit)
        mon.close(head.partial(x, p.copy()), st.partial(x, p.copy()), "static-partial:" + op, rtol=1e-8, atol=1e-8, **wit)
        for h, k0, pp in others:
            hm = h._next if pre else h
            mon.expect(np.array_equal(np.asarray(hm.knots), k0) and np.array_equal(np.array(h.parameters), pp), "copy:" + op,
                       "a copy changed with its source", **wit)
            w2 = zoo.bspline_matrix(x, k0, o) @ pp[off:] + (pp[0] + pp[1] * x if pre else 0)
            mon.close(h.result(x, pp.copy()), w2, "copy-value:" + op, rtol=1e-6, atol=1e-6 * (1 + np.max(np.abs(w2))), **wit)
            mon.count("copies")
    mon.sample("spline", order=o, knots=cur)


def tree_input(rng, itypes, n, nans=True):
    cols = []
    unk = False
    for t in itypes:
        if t == 0:
            c = rng.normal(size=n)
            if rng.random() < 0.2:
                c = np.round(c)
            if nans and rng.random() < 0.3:
                z = rng.random(n) < 0.2
                if z.any():
                    unk = True
                c[z] = np.nan
        elif t == 1:
            c = rng.integers(0, 2, n)
        else:
            c = 1 << rng.integers(0, t, n)
        cols.append(c)
    return cols, unk


def matrix(itypes, cols):
    if all(t == 0 for t in itypes):
        return np.array(cols).T
    if all(t > 0 for t in itypes):
        return np.array(cols, dtype=int).T
    return None


def nodes(t):
    out = []

    def down(n):
        out.append(n)
        if n.left is not None:
            down(n.left)
            down(n.rite)
    down(t)
    return out


def tree_ok(mon, rng, t, itypes, tag, **wit):
    """ structure, and every point in exactly one leaf """
    ns = nodes(t)
    leafs = [v for v in ns if v.left is None]
    brs = [v for v in ns if v.left is not None]
    mon.expect(t.npars == len(leafs) and t.npbase == len(leafs) and len(t.parameters) == len(leafs) and t.ncomp == len(brs), "counts:" + tag,
               "%d leafs, %d branches; npars %d ncomp %d" % (len(leafs), len(brs), t.npars, t.ncomp), **wit)
    mon.expect(t.count() == (len(leafs), len(brs)), "counts:" + tag, "count() gives %s" % (t.count(),), **wit)
    for v in ns:
        mon.expect((v.left is None) == (v.rite is None) and v.isLeaf() == (v.left is None), "halves:" + tag, **wit)
        for w in (v.left, v.rite):
            if w is not None:
                mon.expect(w.parent is v, "parent:" + tag, "a child does not know its parent", **wit)
    mon.expect(t.parent is None, "root:" + tag, **wit)
    for v in brs:
        d = v.dimension
        ok = 0 <= d < len(itypes)
        mon.expect(ok, "dimension:" + tag, "%s" % d, **wit)
        if not ok:
            return
        if itypes[d] == 0:
            mon.expect(v.split is not None and 0 < v.split < 1 and v.mask is None, "split:" + tag, "split %s, mask %s" % (v.split, v.mask), **wit)
        else:
            mon.expect(v.mask is not None and 0 < v.mask < (2 << itypes[d]) and v.split is None, "mask:" + tag,
                       "split %s, mask %s for input of type %d" % (v.split, v.mask, itypes[d]), **wit)
    mon.expect(bool(t.check()), "check:" + tag, "check() fails", tree=t.fullName(), **wit)
    n = int(rng.integers(1, 40))
    cols, unk = tree_input(rng, itypes, n)
    x = matrix(itypes, cols)
    if x is None:
        return
    p = rng.normal(size=len(leafs))
    want, hit, nl = dyn.tree_value(t, x, p)
    got = np.asarray(t.result(x, p.copy()))
    mon.expect(got.shape == (n,), "shape:" + tag, "%s" % (got.shape,), **wit)
    mon.close(got, want, "value:" + tag, rtol=1e-12, tree=t.fullName(), **wit)
    par = np.asarray(t.partial(x, p.copy()))
    mon.expect(par.shape == (n, len(leafs)) and bool(np.all((par == 0) | (par == 1))) and bool(np.all(par.sum(axis=1) == 1)), "partition:" + tag,
               "points are not in exactly one leaf", partial=par, **wit)
    mon.close(par @ p, want, "partial:" + tag, rtol=1e-12, atol=1e-12, **wit)
    srt = t.sortXdata(x)
    mon.expect(sorted(int(k) for k in srt) == list(range(n)), "sort:" + tag, "not a permutation", **wit)
    lf = np.argmax(par, axis=1)[np.asarray(srt, dtype=int)]
    mon.expect(bool(np.all(np.diff(lf) >= 0)), "sort-order:" + tag, "data sorted along the tree are not in the order of the leafs %s" % lf, **wit)
    mon.count("tree-partitions")
    if unk:
        mon.count("unknowns")


def describe(t):
    return [(v.left is None, None if v.left is None else (v.dimension, v.split, v.mask)) for v in nodes(t)]


def tree(mon, rng, idx):
    form = idx % 3
    nd = int(rng.integers(1, 5))
    if form == 0:
        itypes = [0] * nd
    elif form == 1:
        itypes = [int(k) for k in rng.integers(1, 5, nd)]
    else:
        itypes = [int(k) for k in rng.choice([0, 0, 1, 3], nd)]
    dep = int(rng.integers(0, 4))
    nb = max(2 ** dep - 1, 1)
    kd = [int(k) for k in rng.integers(0, nd, nb)]
    sp = [float(v) for v in rng.uniform(0.1, 0.9, nb)]
    t = bf.DecisionTreeModel(ndim=nd, depth=dep, kdim=list(kd), split=list(sp), itypes=list(itypes))
    wit = dict(inputs=str(itypes), depth=dep)
    tree_ok(mon, rng, t, itypes, "made", **wit)
    t.parameters = rng.random(t.npars)
    src = np.random.RandomState(int(rng.integers(1 << 30)))
    others = []
    for k in range(int(rng.integers(5, 20))):
        u = rng.random()
        before = describe(t)
        p0 = np.array(t.parameters, dtype=float)
        if u < 0.15:
            c = t.copy()
            mon.expect(describe(c) == before and np.array_equal(np.array(c.parameters), p0), "copied", "copy differs", a=str(before), b=str(describe(c)), **wit)
            tree_ok(mon, rng, c, itypes, "copy", **wit)
            others.append((c, before, p0))
            continue
        if u < 0.3:
            code, dims, sm = t.encode()
            d = bf.DecisionTreeModel(ndim=nd, code=code, kdim=dims, split=sm, itypes=list(itypes))
            mon.expect(describe(d) == before, "decoded", "encoded and decoded tree differs", code=str(code), dims=str(dims), splits=str(sm), **wit)
            tree_ok(mon, rng, d, itypes, "decoded", **wit)
            mon.count("decoded")
            continue
        if u < 0.5:
            op, ok = "grow", t.grow(rng=src)
            mon.expect(bool(ok) and len(nodes(t)) == len(before) + 2, "grown", "%d nodes became %d" % (len(before), len(nodes(t))), **wit)
        elif u < 0.6:
            op, ok = "shrink", t.shrink(rng=src)
            mon.expect(bool(ok) == (len(before) > 1) and (len(nodes(t)) < len(before)) == bool(ok), "shrunk", **wit)
        else:
            op = "vary"
            if rng.random() < 0.7:
                ok = t.vary(rng=src)
            else:
                nbr = (len(before) - 1) // 2
                ok = t.vary(location=int(rng.integers(max(nbr, 1))), kdim=int(rng.integers(nd)), split=float(rng.uniform(0.1, 0.9)))
            after = describe(t)
            mon.expect(bool(ok) == (len(before) > 1), "varied", "%s for %d nodes" % (ok, len(before)), **wit)
            mon.expect([v[0] for v in after] == [v[0] for v in before], "shape:vary", "the tree has another shape", **wit)
            mon.expect(sum(a != b for a, b in zip(after, before)) <= 1, "one:vary", "more than one branch changed", **wit)
            mon.close(np.array(t.parameters), p0, "parameters:vary", **wit)
            mon.count("varied" if ok else "refused")
        mon.state("tree", form, nd, op, min(len(before), 20), bool(ok))
        tree_ok(mon, rng, t, itypes, op, **wit)
        for c, b, pp in others:
            mon.expect(describe(c) == b and np.array_equal(np.array(c.parameters), pp), "copy:" + op, "a copy changed with its source", **wit)
            mon.count("copies")
    mon.sample("tree", itypes=itypes, tree=str(describe(t))[:300])


def engine(mon, rng, idx):
    """ the engine varies the structure of one walker only, or not at all """
    pre = bool(rng.random() < 0.5)
    nk = int(rng.integers(2, 7))
    o = int(rng.integers(1, 4))
    n = int(rng.integers(15, 40))
    x = np.sort(rng.uniform(-3, 3, n))
    kn = zoo.knots_for(rng, nk)
    if idx % 3 == 2:
        kind = "tree"
        dep = int(rng.integers(0, 3))
        m = bf.DecisionTreeModel(ndim=1, depth=dep, kdim=[0] * 7, split=0.5, dynamic=bool(rng.random() < 0.5))
        m.setLimits([-5], [5])
        pre = False
    else:
        kind = "splines"
        m = bf.SplinesDynamicModel(knots=kn.copy(), order=o, dynamic=bool(rng.random() < 0.5), modifiable=idx % 3 == 0)
        m.setLimits([-5], [5])
    if pre:
        h = bf.PolynomialModel(0)
        h.setLimits([-2], [2])
        h += m
        m = h
    s = float(rng.uniform(0.5, 3))
    y = np.sin(x) + s * rng.normal(size=n)
    prob = bf.ClassicProblem(m, xdata=x, ydata=y)
    mod = m.isModifiable()
    mon.expect(mod == (idx % 3 != 1), "modifiable:" + kind, "%s" % mod)
    mon.expect(("struct" in prob.myEngines()) == mod, "engines:" + kind, "%s" % prob.myEngines())
    ed = bf.GaussErrorDistribution(scale=s)
    nw = int(rng.integers(5, 12))
    wl = bf.WalkerList(problem=prob, ensemble=nw, allpars=np.append(np.zeros(m.npars), s), fitIndex=np.arange(m.npars))
    st = bf.StartEngine(wl, ed, seed=int(rng.integers(1 << 30)))
    st.phantoms = bf.PhantomCollection(dynamic=m.isDynamic())
    for k in range(nw):
        st.execute(k, -math.inf)
    e = bf.StructureEngine(wl, ed, phantoms=st.phantoms, seed=int(rng.integers(1 << 30)))

    def struct(w):
        v = w.problem.model
        v = v._next if pre else v
        return str(describe(v)) if kind == "tree" else np.array(v.knots).tobytes()

    def value(w):
        q = np.asarray(w.allpars, dtype=float)[:-1]
        v = w.problem.model._next if pre else w.problem.model
        r = dyn.tree_value(v, x, q)[0] if kind == "tree" else zoo.bspline_matrix(x, np.asarray(v.knots), o) @ q[1 if pre else 0:]
        return r + (q[0] if pre else 0)
    for t in range(15):
        logs = np.array([w.logL for w in wl])
        low = float(np.sort(logs)[int(rng.integers(0, nw // 2))]) if t > 2 else -1.7e308
        kw = int(rng.choice([k for k in range(nw) if logs[k] >= low]))
        before = [(struct(w), np.array(w.allpars).tobytes(), w.logL) for w in wl]
        ed.lowLhood = low
        mv = e.execute(kw, low)
        after = [(struct(w), np.array(w.allpars).tobytes(), w.logL) for w in wl]
        mon.expect(all(a == b for k, (a, b) in enumerate(zip(after, before)) if k != kw), "others:" + kind, "another walker (or its model) changed")
        mon.expect(after[kw][1] == before[kw][1], "parameters:" + kind, "the structure engine changes parameters")
        mon.expect(mv > 0 or after[kw] == before[kw], "unmoved:" + kind, "changed without a move")
        mon.expect(mod or not mv, "static:" + kind, "a model that is not modifiable has been varied")
        mon.expect(wl[kw].logL >= low, "constraint:" + kind, "%g < %g" % (wl[kw].logL, low))
        if kind == "splines":
            v = wl[kw].problem.model
            knots_ok(mon, v._next if pre else v, kn, kn[0], kn[-1], 0.01 * (kn[-1] - kn[0]) / nk, "engine")
        r = (y - value(wl[kw])) / s
        mon.close(wl[kw].logL, float(np.sum(-0.5 * r * r - math.log(s) - 0.5 * math.log(2 * math.pi))), "likelihood:" + kind, rtol=1e-6, atol=1e-6,
                  compound=pre)
        if mv:
            mon.count("structs")
        mon.state("engine", kind, pre, nk, mod, bool(mv))


CASES = [Case("spline", spline, quick=100, thorough=2000, chunk=10),
         Case("tree", tree, quick=150, thorough=3000, chunk=10),
         Case("engine", engine, quick=45, thorough=600, chunk=5)]
