"""C16  Fitting a map equals fitting the list of its pixels."""
import warnings
import numpy as np
import BayesicFitting as bf
from harness import Case

RULE = "distinct = (fitter, rank and shape of the map, memory order, model, weights, accuracy, kept parameters, robust)"
ASSUMPTIONS = ["pixel positions are the indices of the pixel in the map, first index first (order C)",
               "with order F of the ImageAssistant the indices of each pixel are listed last axis first",
               "both fits start at the same parameters"]
REQUIRE = {"fits": 150, "rank 2": 60, "rank 3": 15, "fortran": 40, "weighted": 50, "accuracy": 40, "robust": 25, "kept": 20, "assistant": 60}

FITTERS = {
    "Fitter": bf.Fitter, "QRFitter": bf.QRFitter, "Curve": bf.CurveFitter, "LM": bf.LevenbergMarquardtFitter,
    "Amoeba": bf.AmoebaFitter, "Scipy": bf.ScipyFitter, "BFGS": bf.BfgsFitter, "MaxLik": bf.MaxLikelihoodFitter}




def mapmodel(rng, rank):
    """ ( name, factory, linear ) """
    if rank == 1:
        d = int(rng.integers(0, 3))
        return "poly%d" % d, lambda: bf.PolynomialModel(d), True
    if rank == 2:
        k = int(rng.integers(0, 5))
        if k == 0:
            return "surface1", lambda: bf.PolySurfaceModel(1), True
        if k == 1:
            return "surface2", lambda: bf.PolySurfaceModel(2), True
        if k == 2:
            return "product", lambda: bf.ProductModel([bf.PolynomialModel(1), bf.PolynomialModel(1, fixed={0: 1.0, 1: 0.5})]), True
        if k == 3:
            return "kernel2d", lambda: bf.Kernel2dModel(fixed={1: 2.2, 2: 3.1, 3: 1.7}) + bf.PolySurfaceModel(0), True
        return "kernel2d+const", lambda: bf.Kernel2dModel() + bf.PolySurfaceModel(0), False
    return "product3", lambda: bf.ProductModel([bf.PolynomialModel(1), bf.PolynomialModel(1, fixed={0: 1.0}),
                                                bf.PolynomialModel(1, fixed={0: 1.0})]), False


def pixels(shape):
    """ positions in C order """
    return np.array(list(np.ndindex(*shape)), dtype=float)


def layout(rng, a):
    k = int(rng.integers(0, 4))
    if k == 0:
        return np.asfortranarray(a), "F"
    if k == 1:
        b = np.zeros(tuple(2 * s for s in a.shape))
        v = b[tuple(slice(None, None, 2) for s in a.shape)]
        v[...] = a
        return v, "strided"
    if k == 2 and a.ndim > 1:
        return np.ascontiguousarray(a.T).T, "F"
    return a.copy(), "C"


def fit(mon, rng, idx):
    rank = int(rng.choice([1, 2, 2, 2, 2, 3]))
    shape = {1: (int(rng.integers(12, 40)),), 2: tuple(int(s) for s in rng.integers(4, 12, 2)),
             3: tuple(int(s) for s in rng.integers(2, 6, 3))}[rank]
    n = int(np.prod(shape))
    name, make, linear = mapmodel(rng, rank)
    if n < 24 and rank > 1:
        return
    fname = list(FITTERS)[idx % len(FITTERS)]
    if not linear and fname in ("Fitter", "QRFitter"):
        return
    xy = pixels(shape)
    if rank == 1:
        xy = xy[:, 0]
    model = make()
    npar = model.npchain
    if npar < 2 and fname == "Amoeba":
        return
    if name == "kernel2d+const":
        truth = np.array([rng.uniform(4, 8), shape[0] / 2 + rng.uniform(-1, 1), shape[1] / 2 + rng.uniform(-1, 1), rng.uniform(1.2, 2), 0.5])
    elif name == "product3":
        truth = np.array([1.0, 0.3, 0.2, 0.4])[:npar]
    else:
        truth = rng.normal(0, 1, npar)
    start = truth * 1.05 + 0.02
    ylist = np.asarray(model.result(xy, truth)) + rng.normal(0, 0.2, n)
    ymap, lay = layout(rng, ylist.reshape(shape))
    wlist = alist = None
    if rng.random() < 0.4:
        wlist = rng.uniform(0.3, 2, n)
    k = int(rng.integers(0, 4))
    if k == 0 and fname != "MaxLik":
        alist = rng.uniform(0.3, 2, n)
    elif k == 1 and fname != "MaxLik":
        alist = float(rng.uniform(0.3, 2))
    keep = {int(rng.integers(0, npar)): None} if npar > 1 and rng.random() < 0.3 else None
    if keep:
        keep = {k: float(truth[k]) for k in keep}
    robust = fname in ("Fitter", "QRFitter", "LM") and rng.random() < 0.4
    if robust:
        alist = None

    def tomap(v):
        return v if v is None or np.ndim(v) == 0 else layout(rng, v.reshape(shape))[0]
    how = "%s%s%s%s%s" % (fname, "/w" if wlist is not None else "", "/acc" if alist is not None else "", "/keep" if keep else "",
                          "/robust" if robust else "")
    fkw = {"Amoeba": {"seed": 5}}.get(fname, {})
    ckw = {}
    if rng.random() < 0.3:
        ckw["fixedScale"] = 0.3
    if fname == "QRFitter":
        ckw = {}
    xmap = np.zeros(shape) if rng.random() < 0.5 else ymap
    res = []
    with warnings.catch_warnings(), mon.guarded("error:" + how, model=name, shape=shape):
        warnings.simplefilter("ignore")
        for asmap in (True, False):
            m = make()
            m.parameters = start.copy()
            f = FITTERS[fname](xmap if asmap else xy, m, map=asmap, **ckw)
            kw = dict(fkw)
            if keep:
                kw["keep"] = dict(keep)
            if wlist is not None:
                kw["weights"] = tomap(wlist) if asmap else wlist.copy()
            if alist is not None:
                kw["accuracy"] = tomap(alist) if asmap else alist
            s = bf.RobustShell(f, domain=5) if robust else f
            d = ymap.copy(order="K") if asmap else ylist.copy()
            d0 = d.copy()
            try:
                p = np.array(s.fit(d, **kw))
            except (bf.ConvergenceError, RuntimeError, np.linalg.LinAlgError) as e:
                p = type(e).__name__
            mon.expect(np.array_equal(d, d0), "data-untouched:" + how)
            res.append((p, m, f, s))
        (p1, m1, f1, s1), (p2, m2, f2, s2) = res
        if isinstance(p1, str) or isinstance(p2, str):
            mon.expect(str(p1) == str(p2) or (isinstance(p1, str) and isinstance(p2, str)), "same-failure:" + how, a=p1, b=p2)
            mon.count("failed in both")
            return
        # same algorithm, same numbers
        mon.close(p1, p2, "parameters:" + how, rtol=1e-9, atol=1e-9, shape=shape, model=name)
        mon.close(m1.parameters, m2.parameters, "model:" + how, rtol=1e-9, atol=1e-9)
        mon.close(f1.chisq, f2.chisq, "chisq:" + how, rtol=1e-7, shape=shape)
        mon.close(f1.scale, f2.scale, "scale:" + how, rtol=1e-7, shape=shape, model=name)
        for att in ("stdevs", "covariance", "hessian"):
            try:
                want = np.array(getattr(f2, att))
            except (np.linalg.LinAlgError, RuntimeError):
                continue
            if np.all(np.isfinite(want)):
                mon.close(getattr(f1, att), want, att + ":" + how, rtol=1e-6, atol=1e-7 * np.abs(want).max())
        # against the definitions
        pr = np.asarray(p1)
        y1 = np.asarray(make().result(xy, pr))
        if f1 is s1:
            r = ylist - y1
            fw = (1.0 if wlist is None else wlist) / (1.0 if alist is None else np.asarray(alist) ** 2) * np.ones(n)
            if fname != "MaxLik":
                mon.close(f1.chisq, np.sum(fw * r * r), "chisq-of-pixels:" + how, rtol=1e-7)
                nw = n if wlist is None else np.sum(wlist)
                nf = npar - len(keep or {})
                if nw > nf + 1:
                    mon.close(f1.scale, np.sqrt(np.sum(fw * r * r) / (nw - nf)), "scale-of-pixels:" + how, rtol=1e-6)
        # returned maps
        yf = np.asarray(f1.yfit)
        if mon.expect(yf.shape == shape, "yfit-shape:" + how, got=yf.shape, want=shape):
            mon.close(yf, y1.reshape(shape), "yfit-map:" + how, rtol=1e-9, atol=1e-9)
        mon.close(np.asarray(f2.yfit), y1, "yfit-list:" + how, rtol=1e-9, atol=1e-8)
        if robust:
            rw, lw = np.asarray(s1.weights), np.asarray(s2.weights)
            if mon.expect(rw.shape == shape, "robust-weights-shape:" + how, got=rw.shape, want=shape):
                mon.close(rw, lw.reshape(shape), "robust-weights:" + how, rtol=1e-7, atol=1e-9)
        if not keep and alist is None and not robust and fname in ("Fitter", "QRFitter"):
            kw = {} if wlist is None else {"weights": tomap(wlist)}
            mf = np.asarray(f1.modelFit(ymap, **kw))
            if mon.expect(mf.shape == shape, "modelFit-shape:" + how, got=mf.shape):
                mon.close(mf, y1.reshape(shape), "modelFit-map:" + how, rtol=1e-4, atol=1e-4 * (1 + np.abs(y1).max()))
        if robust is False and rng.random() < 0.5 and linear and fname in ("Fitter", "QRFitter") and alist is None:
            # evidence in the list is that of the map
            lo, hi = -100.0, 100.0
            e1 = f1.getLogZ(limits=[lo, hi], noiseLimits=[0.01, 10])
            e2 = f2.getLogZ(limits=[lo, hi], noiseLimits=[0.01, 10])
            mon.close(e1, e2, "evidence:" + how, rtol=1e-8)
        mon.count("fits")
        mon.count("rank %d" % rank)
        mon.count("fortran", int(lay == "F"))
        mon.count("weighted", int(wlist is not None))
        mon.count("accuracy", int(alist is not None))
        mon.count("robust", int(robust))
        mon.count("kept", int(keep is not None))
        mon.state(how, name, shape, lay)
        mon.sample("%s: %s map (%s) of %s" % (how, shape, lay, name), parameters=p1)


def assistant(mon, rng, idx):
    rank = int(rng.integers(1, 5))
    shape = tuple(int(s) for s in rng.integers(1, 6, rank))
    a = rng.normal(0, 1, shape)
    a, lay = layout(rng, a)
    order = ["C", "F"][idx % 2]
    deford = rng.random() < 0.5
    with mon.guarded("error:assistant:" + order, shape=shape):
        before = rng.random() < 0.5            # the assistant served another map before
        other = np.zeros(tuple(int(q) for q in rng.integers(1, 6, int(rng.integers(1, 5)))))
        if deford:
            ia = bf.ImageAssistant(order=order)
            if before:
                ia.getIndices(other)
            kd = np.asarray(ia.getIndices(a))
        else:
            ia = bf.ImageAssistant()
            if before:
                ia.getPositions(other)
            kd = np.asarray(ia.getIndices(a, order=order))
        how = order + ("/constructor" if deford else "/argument") + ("/used before" if before else "")
        y = np.asarray(ia.getydata(a))
        mon.expect(y.shape == (a.size,), "getydata-shape:" + how, got=y.shape)
        mon.expect(sorted(y.tolist()) == sorted(a.reshape(-1).tolist()), "getydata-pixels:" + how)
        # the example of the class: ymap at the indices is the pixel
        for k in range(a.size):
            ii = kd[k] if rank > 1 else (kd[k],)
            jj = tuple(int(i) for i in (ii if order == "C" else ii[::-1]))
            ok = all(0 <= j < s for j, s in zip(jj, shape))
            if not mon.expect(ok and a[jj] == y[k], "indices:" + how, shape=shape, k=k, at=jj, memory=lay):
                break
        mon.expect(kd.shape == ((a.size, rank) if rank > 1 else (a.size,)), "indices-shape:" + how, got=kd.shape)
        mon.close(ia.resizeData(y), a, "resizeData:" + how, rtol=0, shape=shape)
        mon.close(ia.resizeData(y, shape=shape), a, "resizeData-shape:" + how, rtol=0, shape=shape)
        b = a.copy()
        y += 1
        mon.expect(np.array_equal(a, b), "getydata-is-copy:" + how)
        kw = {} if deford else {"order": order}
        mon.close(ia.getPositions(a, **kw), kd + 0.5, "positions:" + how, rtol=0)
        mon.close(ia.getPositions(a, center=False, **kw), kd, "positions-corner:" + how, rtol=0)
        mon.close(ia.getPositions(a, deproject=lambda q: 2 * q + 1, **kw), 2 * kd + 2, "positions-deproject:" + how, rtol=0)
        mon.count("assistant")
        mon.state("assistant", how, shape, lay)


CASES = [Case("fit", fit, quick=320, thorough=4000, chunk=8),
         Case("assistant", assistant, quick=100, thorough=2000, chunk=20)]
