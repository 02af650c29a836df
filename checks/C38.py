"""C38  What is printed and plotted is what was computed, and asking for it changes nothing."""
import contextlib
import io
import math
import os
import re
import tempfile
import time
import warnings
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import BayesicFitting as bf
from BayesicFitting.source import NestedSampler as NSmod
from BayesicFitting.source import Plotter
import fits
import C21
from harness import Case

RULE = "distinct = (what is shown, by whom, settings, model)"
ASSUMPTIONS = ["fixed values have one decimal, as the printed formula shows one", "plots are inspected in matplotlib, with the Agg backend",
               "a printed number is judged with the precision that is printed"]
REQUIRE = {"formulas": 500, "chains": 200, "fixed": 100, "fits": 150, "verbose fits": 80, "plotted fits": 40, "samplers": 40, "reports": 25, "plots": 60}


# ---------------------------------------------------------------- the printed formula

def cheb(k):
    return lambda x: np.polynomial.chebyshev.chebval(x, [0] * k + [1])


def evaluate(text, p, env):
    """ a formula as it is printed """
    t = text
    defs = []
    if ";" in t:
        t, d = t.split(";", 1)
        defs = [v.split("=", 1) for v in d.split(";")]

    def py(s):
        s = s.strip()
        s = re.sub(r"\b(sin|cos)\^2\(", r"\g<1>sq(", s)
        s = re.sub(r"(\d) ?(?=(PI|pi|xx)\b)", r"\1 * ", s)
        s = s.replace("^", "**")
        s = re.sub(r"\bp_(\d+)", r"p[\1]", s)
        s = re.sub(r"\bT_(\d+)\(", r"T(\1)(", s)
        return s
    e = dict(env, p=p, pi=math.pi, PI=math.pi, sin=np.sin, cos=np.cos, exp=np.exp, arctan=np.arctan, sinsq=lambda v: np.sin(v) ** 2,
             cossq=lambda v: np.cos(v) ** 2, T=cheb)
    for nm, d in reversed(defs):
        e[nm.strip()] = eval(py(d), {"__builtins__": {}}, e)
    return eval(py(t), {"__builtins__": {}}, e)


def tokens(text):
    out = []
    for line in text.split("\n"):
        line = line.strip()
        while line.startswith("{"):
            out.append("{")
            line = line[1:].strip()
        op = None
        m = re.match(r"^(.*) ([-+*/|])$", line)
        if m:
            line, op = m.group(1).strip(), m.group(2)
        close = 0
        while line.endswith("}"):
            close += 1
            line = line[:-1].strip()
        out.append(("f", line))
        out += ["}"] * close
        if op:
            out.append(("op", op))
    return out


def chainvalue(tok, pos, x, p, env, top=True):
    """ left to right """
    val, op = None, None
    while pos < len(tok):
        t = tok[pos]
        if t == "}":
            return val, pos
        if isinstance(t, tuple) and t[0] == "op":
            op = t[1]
            pos += 1
            continue
        arg = val if op == "|" else x
        if t == "{":
            v, pos = chainvalue(tok, pos + 1, arg, p, env, top=False)
        else:
            name, f = t[1].split(":", 1)
            f = f.split("=", 1)[1]
            v = evaluate(f, p, dict(env, x=arg)) + 0.0 * arg
        pos += 1
        val = v if val is None or op == "|" else val + v if op == "+" else val - v if op == "-" else val * v if op == "*" else val / v
    return val, pos


def member(rng, fixing=True):
    """ (factory, has fixed, environment) """
    k = int(rng.integers(17))
    d = int(rng.integers(0, 13)) if rng.random() < 0.4 else int(rng.integers(0, 4))
    r1 = lambda lo, hi: round(float(rng.uniform(lo, hi)), 1)
    env = {}
    if k == 0:
        mk, n = (lambda **kw: bf.PolynomialModel(d, **kw)), d + 1
    elif k == 1:
        mk, n = (lambda **kw: bf.ChebyshevPolynomialModel(d, **kw)), d + 1
    elif k == 2:
        e = int(rng.integers(0, 4))
        mk, n = (lambda **kw: bf.PowerModel(e, **kw)), 1
    elif k == 3:
        mk, n = bf.ExpModel, 2
    elif k == 4:
        mk, n = bf.GaussModel, 3
    elif k == 5:
        mk, n = bf.LorentzModel, 3
    elif k == 6:
        mk, n = bf.ArctanModel, 3
    elif k == 7:
        mk, n = bf.LogisticModel, 3
    elif k == 8:
        mk, n = bf.SineModel, 3
    elif k == 9:
        fr = r1(0.3, 2)
        mk, n = (lambda **kw: bf.SineAmpModel(fr, **kw)), 2
    elif k == 10:
        mk, n = bf.SineDriftModel, 4
    elif k == 11:
        o = int(rng.integers(1, 7))
        per = r1(0.5, 3)
        mk, n = (lambda **kw: bf.HarmonicModel(o, period=per, **kw)), 2 * o
        env["period"] = per
    elif k == 12:
        a, b = int(rng.integers(0, 3)), int(rng.integers(1, 3))
        mk, n = (lambda **kw: bf.PadeModel(a, b, **kw)), a + b + 1
    elif k == 13:
        mk, n = bf.EtalonModel, 4
    elif k == 14:
        mk, n = (lambda **kw: bf.PolynomialDynamicModel(min(d, 5))), 0
    elif k == 15:
        mk, n = (lambda **kw: bf.ExpModel(decay=True, **kw)), 2
    else:
        mk, n = bf.PowerLawModel, 3
    fixed = None
    if fixing and n > 1 and rng.random() < 0.4:
        which = rng.choice(n, int(rng.integers(1, min(n, 4))), replace=False)
        fixed = {int(j): r1(0.2, 1.5) for j in which}
    return (lambda: mk(fixed=dict(fixed))) if fixed else mk, fixed is not None, env, k


def case_text(mon, rng, idx):
    OP = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "|": lambda a, b: a | b}
    env = {}
    nmem = 1 if idx % 3 == 0 else int(rng.integers(2, 5))
    parts, hasfix, kinds, shape = [], False, [], []
    ndyn = 0
    for j in range(nmem):
        while True:
            mk, fx, e, k = member(rng)
            if k == 14 and ndyn:
                continue
            if e and env:
                continue                       # one period at a time
            break
        ndyn += k == 14
        env.update(e)
        m = mk()
        if nmem > 1 and rng.random() < 0.25 and k != 14:
            mk2, fx2, e2, k2 = member(rng)
            if not e2 and k2 != 14:
                op = "+-*/"[int(rng.integers(4))]
                m = OP[op](m, mk2())
                fx = fx or fx2
                if rng.random() < 0.5:
                    m = bf.BracketModel(m)
        parts.append(m)
        kinds.append(k)
        hasfix |= fx
    m = parts[0]
    for q in parts[1:]:
        op = "+-*/|"[int(rng.integers(5))]
        shape.append(op)
        m = OP[op](m, q)
    with mon.guarded("error:text", kinds=kinds):
        t = str(m)
        mon.expect(t == str(m) == str(m.copy()), "the text of a copy", text=t)
        x = rng.uniform(0.9, 1.9, 6)
        p = rng.uniform(0.4, 1.4, m.npars)
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want = np.asarray(m.result(x, p), dtype=float)
            near = np.asarray(m.result(x * (1 + 1e-12), p), dtype=float)         # ill conditioned: no judgement
            try:
                got = np.asarray(chainvalue(tokens(t), 0, x, p, env)[0], dtype=float)
            except (SyntaxError, NameError, IndexError, TypeError) as e:
                mon.expect(False, "formula/unreadable", "%s: %s" % (type(e).__name__, e), text=t)
                return
        ok = np.isfinite(want) & np.isfinite(got) & (np.abs(want) < 1e12) & (np.abs(near - want) < 1e-7 * (1e-3 + np.abs(want)))
        mon.count("formulas")
        if nmem > 1:
            mon.count("chains")
        if hasfix:
            mon.count("fixed")
        mon.state("text", tuple(sorted(kinds)), tuple(shape), hasfix)
        mon.close(got[ok], want[ok], "formula/result" + ("/chain" if nmem > 1 else "") + ("/fixed" if hasfix else ""), rtol=1e-5, atol=1e-9,
                  detail="the printed formula is not the one evaluated", text=t, x=x, p=p)


def case_text2(mon, rng, idx):
    """ formulas in x and y """
    d = int(rng.integers(0, 6))
    fr = round(float(rng.uniform(0.2, 2)), 1)
    k = idx % 3
    mk, n = [((lambda **kw: bf.PolySurfaceModel(d, **kw)), (d + 1) * (d + 2) // 2), (bf.EtalonDriftModel, 5),
             ((lambda **kw: bf.PolySineAmpModel(d, fr, **kw)), 0)][k]
    fixed = None
    if n > 1 and rng.random() < 0.5:
        fixed = {int(j): round(float(rng.uniform(0.2, 1.5)), 1) for j in rng.choice(n, int(rng.integers(1, min(n, 4))), replace=False)}
    m = mk(fixed=dict(fixed)) if fixed else mk()
    pre = int(rng.integers(0, 3))
    with mon.guarded("error:text", kind=k):
        t = str(m)
        if pre and k < 2:                               # the second one of a chain
            full = bf.PolySurfaceModel(1) + m
            t = str(full).split("\n")[1]
            p = rng.uniform(0.4, 1.4, full.npars)
            pm = p[3:]
        else:
            p = pm = rng.uniform(0.4, 1.4, m.npars)
        xy = rng.uniform(0.4, 1.5, (6, 2))
        try:
            got = evaluate(t.replace("\n", " ").split("=", 1)[1], p, {"x": xy[:, 0], "y": xy[:, 1]}) + 0 * xy[:, 0]
        except (SyntaxError, NameError, IndexError, TypeError) as e:
            mon.expect(False, "formula/unreadable", "%s: %s" % (type(e).__name__, e), text=t)
            return
        mon.count("formulas")
        if fixed:
            mon.count("fixed")
        mon.state("text2", k, d, pre, tuple(sorted(fixed or {})))
        mon.close(got, m.result(xy, pm), "formula/result in x and y", rtol=1e-5, atol=1e-9, detail="the printed formula is not the one evaluated", text=t, kind=k)


# ---------------------------------------------------------------- fitters

class Quiet(object):
    """ counts what comes on the screen """
    def __init__(self):
        self.out = io.StringIO()

    def __enter__(self):
        self.c = contextlib.redirect_stdout(self.out)
        self.c.__enter__()
        return self

    def __exit__(self, *a):
        return self.c.__exit__(*a)

    @property
    def text(self):
        return self.out.getvalue()


@contextlib.contextmanager
def noshow():
    show, pause, sleep = plt.show, plt.pause, time.sleep
    plt.show = lambda *a, **k: None
    plt.pause = lambda *a, **k: None
    time.sleep = lambda *a, **k: None
    try:
        yield
    finally:
        plt.show, plt.pause, time.sleep = show, pause, sleep
        plt.close("all")


def curves(ax):
    return [np.asarray(ln.get_xydata(), dtype=float) for ln in ax.get_lines()]


FIT = {"LM": lambda x, m, **k: bf.LevenbergMarquardtFitter(x, m, **k), "Amoeba": lambda x, m, **k: bf.AmoebaFitter(x, m, **k),
       "BFGS": lambda x, m, **k: bf.BfgsFitter(x, m, **k), "Powell": lambda x, m, **k: bf.PowellFitter(x, m, **k),
       "AmoebaLaplace": lambda x, m, **k: bf.AmoebaFitter(x, m, errdis="laplace", **k),
       "Robust": lambda x, m, **k: bf.RobustShell(bf.LevenbergMarquardtFitter(x, m), **k),
       "Fitter": lambda x, m, **k: bf.Fitter(x, m), "Curve": lambda x, m, **k: bf.CurveFitter(x, m)}


def case_fit(mon, rng, idx):
    fname = sorted(FIT)[idx % len(FIT)]
    name, make, x, truth = fits.nonlinear_model(rng)
    truth = np.array(truth)
    if fname == "Fitter":
        name, make, x, truth = "poly", (lambda: bf.PolynomialModel(2)), x, rng.normal(0, 1, 3)
    n = len(x)
    y = make().result(x, truth) + 0.1 * rng.normal(size=n)
    w = rng.uniform(0.5, 2, n) if rng.random() < 0.4 else None
    keep = {len(truth) - 1: float(truth[-1])} if len(truth) > 2 and rng.random() < 0.3 else None
    par0 = truth * rng.uniform(0.97, 1.03, len(truth))
    seed = int(rng.integers(1, 9999))

    def run(verbose, plot, callback, where):
        m = make()
        m.parameters = par0
        kc = {"verbose": verbose} if where == 0 else {"verbose": 0}
        f = FIT[fname](x, m, **kc)
        kw = {}
        if keep:
            kw["keep"] = dict(keep)
        if where == 1 and fname in ("LM", "Amoeba", "AmoebaLaplace"):
            kw["verbose"] = verbose
        elif where == 1 and fname == "Robust":
            f.verbose = verbose
        if plot:
            kw["plot"] = True
        if callback is not None:
            kw["callback"] = callback
        if fname.startswith("Amoeba"):
            kw["seed"] = seed
        with Quiet() as q:
            p = np.array(f.fit(y, weights=w, **kw), dtype=float)
            s = [p, np.array(f.stdevs), np.array([f.scale])]
            if not fname.endswith("Laplace"):
                s.append(np.array([f.chisq]))
        return s, q.text, f

    with warnings.catch_warnings(), np.errstate(all="ignore"), mon.guarded("error:" + fname, model=name):
        warnings.simplefilter("ignore")
        try:
            a, out, f = run(0, False, None, 0)
        except (bf.ConvergenceError, np.linalg.LinAlgError):
            mon.count("no convergence")
            return
        mon.count("fits")
        if fname not in ("Fitter", "Curve"):
            mon.expect(out.strip() == "", "not silent/" + fname, "verbose=0 prints %r" % out[:60])
        v, where = int(rng.integers(1, 7)), int(rng.integers(2))
        plot = bool(rng.random() < 0.5) and not (fname == "Robust")
        seen = []

        def cb(p, *a, **k):
            seen.append(np.array(p))
            return p
        usecb = fname in ("LM", "Amoeba", "BFGS", "Powell") and rng.random() < 0.5
        with noshow():
            b, out, f = run(v, plot, cb if usecb else None, where)
            mon.count("verbose fits")
            mon.state("fit", fname, name, v, where, plot, usecb, w is not None, keep is not None)
            for u, z, what in zip(a, b, ("parameters", "stdevs", "scale", "chisq")):
                mon.expect(np.array_equal(u, z, equal_nan=True), "shown alters the fit/" + what, "%s: %s and %s" % (fname, u, z),
                           verbose=v, plot=plot, callback=usecb)
            if usecb:
                mon.count("callbacks")
                mon.expect(len(seen) > 0, "callback not called/" + fname)
            if plot:
                mon.count("plotted fits")
                check_plot(mon, x, y, f.model, np.array(b[0]), "fit/" + fname, True)


def check_plot(mon, x, y, m, p, tag, residuals, err=None, yfit=None):
    """ the figure made by plotFit """
    axes = plt.gcf().get_axes()
    if not mon.expect(len(axes) == (2 if residuals else 1), "plot/panels", "%d panels" % len(axes), tag=tag):
        return
    main = curves(axes[-1])
    if y is not None:
        mon.expect(any(c.shape == (len(x), 2) and np.allclose(c[:, 0], x) and np.allclose(c[:, 1], y) for c in main), "plot/data", tag=tag)
    if m is not None:
        c = [c for c in main if len(c) > len(x) or len(x) == 1]
        red = [ln for ln in axes[-1].get_lines() if ln.get_color() in ("r", "red")]
        if mon.expect(len(red) == 1, "plot/one model curve", tag=tag, n=len(red)):
            d = np.asarray(red[0].get_xydata(), dtype=float)
            mon.expect(d[:, 0].min() <= np.min(x) + 1e-9 and d[:, 0].max() >= np.max(x) - 1e-9, "plot/range of the model", tag=tag)
            mon.close(d[:, 1], m.result(d[:, 0], p), "plot/model", rtol=1e-9, atol=1e-12, tag=tag)
            if err is not None:
                green = [np.asarray(ln.get_xydata()) for ln in axes[-1].get_lines() if ln.get_color() in ("g", "green")]
                if mon.expect(len(green) == 2, "plot/confidence", tag=tag):
                    lo, hi = np.minimum(green[0][:, 1], green[1][:, 1]), np.maximum(green[0][:, 1], green[1][:, 1])
                    mon.close(0.5 * (lo + hi), np.asarray(m.result(green[0][:, 0], p)), "plot/confidence around the model", rtol=1e-9, atol=1e-12, tag=tag)
                    mon.close(0.5 * (hi - lo), err(green[0][:, 0]), "plot/confidence is the error", rtol=0.5, tag=tag)
    elif yfit is not None:
        mon.expect(any(c.shape == (len(x), 2) and np.allclose(c[:, 1], yfit) for c in main), "plot/yfit", tag=tag)
    if residuals:
        want = y - (yfit if yfit is not None else m.result(x, p))
        res = curves(axes[0])
        mon.expect(any(c.shape == (len(x), 2) and np.allclose(c[:, 1], want, rtol=1e-9, atol=1e-12) for c in res), "plot/residuals", tag=tag)


def case_plot(mon, rng, idx):
    n = int(rng.integers(5, 40))
    x = np.sort(rng.uniform(-2, 2, n))
    if rng.random() < 0.2:
        x = rng.permutation(x)
    m = bf.PolynomialModel(int(rng.integers(0, 3)))
    y = rng.normal(size=n) + x
    f = bf.Fitter(x, m)
    p = np.array(f.fit(y))
    std = np.array(f.stdevs)
    res = bool(rng.random() < 0.6)
    conf = bool(rng.random() < 0.4)
    kw = {}
    for k, v in (("xlabel", "abscissa"), ("ylabel", "ordinate"), ("title", "some title"), ("xlim", [-3, 3]), ("ylim", [-9, 9]), ("figsize", [4, 3])):
        if rng.random() < 0.4:
            kw[k] = v
    with noshow(), mon.guarded("error:plot", **{k: str(v) for k, v in kw.items()}), tempfile.TemporaryDirectory() as tmp:
        form = idx % 4
        mon.count("plots")
        mon.state("plot", form, res, conf, tuple(sorted(kw)))
        err = (lambda xx: f.monteCarloError(xx)) if conf else None
        if form == 0:
            f.plotResult(x, y, m, residuals=res, confidence=conf)
            check_plot(mon, x, y, m, p, "plotResult", res, err)
        elif form == 1:
            Plotter.plotFit(x, data=y, model=m, fitter=f if conf else None, residuals=res, show=False, **kw)
            check_plot(mon, x, y, m, p, "plotFit", res, err)
        elif form == 2:
            yf = m.result(x, p) + 0.1
            Plotter.plotFit(x, data=y, yfit=yf, residuals=res, show=False, **kw)
            check_plot(mon, x, y, None, p, "yfit", res, yfit=yf)
        else:
            fn = os.path.join(tmp, "a.png")
            Plotter.plotFit(x, data=y, model=m, residuals=res, filename=fn, transparent=bool(rng.random() < 0.5), **kw)
            mon.expect(os.path.exists(fn) and open(fn, "rb").read(4) == b"\x89PNG", "plot/file")
            check_plot(mon, x, y, m, p, "file", res)
        if form:
            ax = plt.gcf().get_axes()
            main = ax[-1]
            if "title" in kw:
                mon.expect(main.get_title() == "some title", "plot/title")
            if "xlim" in kw:
                mon.close(main.get_xlim(), kw["xlim"], "plot/xlim", rtol=1e-12)
            if "ylim" in kw:
                mon.close(main.get_ylim(), kw["ylim"], "plot/ylim", rtol=1e-12)
            mon.expect(main.get_ylabel() == kw.get("ylabel", "ydata"), "plot/ylabel", got=main.get_ylabel())
            mon.expect(ax[0].get_xlabel() == kw.get("xlabel", "xdata"), "plot/xlabel", got=ax[0].get_xlabel())
        mon.expect(np.array_equal(p, m.parameters) and np.array_equal(std, f.stdevs), "shown alters the fit/plot")


# ---------------------------------------------------------------- samplers

@contextlib.contextmanager
def asking(verbose, plot):
    """ all samplers made here are verbose, plotting """
    cls = NSmod.NestedSampler if hasattr(NSmod, "NestedSampler") else bf.NestedSampler
    init, sample = cls.__init__, cls.sample

    made = []

    def newinit(self, *a, **k):
        k["verbose"] = verbose
        made.append(self)
        return init(self, *a, **k)

    def newsample(self, *a, **k):
        if plot is not None:
            k["plot"] = plot
        return sample(self, *a, **k)
    cls.__init__, cls.sample = newinit, newsample
    try:
        yield made
    finally:
        cls.__init__, cls.sample = init, sample


def number(text, pattern):
    m = re.search(pattern + r"\s+(-?[\d.]+(?:[eE][-+]?\d+)?|-?inf|nan)", text)
    return float(m.group(1)) if m else None


def case_sampler(mon, rng, idx):
    how = ["nested", "phantom", "dynamic", "solver"][int(rng.choice([0, 0, 0, 1, 2, 3]))]
    sub, seed = int(rng.integers(1 << 40)), int(rng.integers(1, 1 << 30))
    mk = (lambda: C21.sampler(sub, how)) if how in ("nested", "phantom") else (lambda: C21.dynrun(sub)) if how == "dynamic" else (lambda: C21.ordrun(sub))
    v = int(rng.integers(1, 6))
    plot = None
    with mon.guarded("error:sampler", how=how, verbose=v, sub=sub, seed=seed), warnings.catch_warnings(), np.errstate(all="ignore"), noshow():
        warnings.simplefilter("ignore")
        with asking(0, None), Quiet() as q:
            run = mk()
            a = run(seed)
        if a is None:
            return
        mon.expect(q.text.strip() == "", "not silent/" + how, "verbose=0 prints %r" % q.text[:60])
        with asking(v, plot) as made, Quiet() as q:
            b = mk()(seed)
        d = C21.equal(a, b)
        mon.count("samplers")
        mon.state("sampler", how, v, plot, str(run.state))
        mon.expect(d is None, "shown alters the sampling/" + how, "with verbose=%d: %s" % (v, d), sub=sub, seed=seed)
        t, ns = q.text, made[-1]
        mon.count("reports")
        got = number(t, "Evidence")
        mon.expect(got is not None and abs(got - ns.evidence) <= 0.0006 + 1e-9 * abs(ns.evidence), "report/evidence", "printed %s, is %s" % (got, ns.evidence))
        m = re.search(r"Evidence\s+\S+ \+-\s+(\S+)", t)
        mon.expect(m is not None and abs(float(m.group(1)) - ns.precision) <= 0.0006, "report/precision", text=t[-80:])
        got = number(t, "Samples")
        mon.expect(got == len(ns.samples), "report/samples", "printed %s, is %d" % (got, len(ns.samples)))
        got = number(t, r"Calls to LogL")
        mon.expect(got == ns.distribution.ncalls, "report/calls", "printed %s, is %s" % (got, ns.distribution.ncalls))
        for eng in ns.engines:
            line = [u for u in t.split("\n") if u.startswith(str(eng)[:16])]
            if mon.expect(len(line) >= 1, "report/engine", "no line for %s" % eng, text=t[-600:]):
                nums = [int(z) for z in re.findall(r"(?<=\s)\d+", line[-1][16:])]
                r = [int(z) for z in eng.report]
                mon.expect(nums in (r, r[:3] + r[4:]), "report/engine counts", "%s: printed %s, are %s" % (eng, nums, r))


def case_samplerplot(mon, rng, idx):
    n = int(rng.integers(8, 16))
    x = np.linspace(0, 3, n)
    m = [lambda: bf.PolynomialModel(1), lambda: bf.GaussModel()][int(rng.integers(2))]
    y = m().result(x, rng.uniform(0.5, 1.5, m().npars)) + 0.2 * rng.normal(size=n)
    seed = int(rng.integers(1, 99999))
    lim = bool(rng.random() < 0.5)
    plot = [True, "last", "iter", "all", "test"][idx % 5]
    v = int(rng.integers(0, 4))

    def run(plot, v):
        q = m()
        q.setLimits([0.1] * q.npars, [3.0] * q.npars)
        ns = bf.NestedSampler(x, q, y, limits=[0.05, 2] if lim else None, ensemble=15, seed=seed, verbose=v)
        ns.maxIterations = 120
        with Quiet() as out:
            ns.sample(plot=plot)
        return ns
    with mon.guarded("error:samplerplot", plot=str(plot), verbose=v), noshow(), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        a = C21.record(run(False, 0))
        nothing = plt.get_fignums()
        mon.expect(nothing == [], "plots that were not asked for")
        ns = run(plot, v)
        mon.count("plots")
        mon.state("samplerplot", str(plot), v, lim, m().npars)
        d = C21.equal(a, C21.record(ns))
        mon.expect(d is None, "shown alters the sampling/plot", "plot=%s: %s" % (plot, d), seed=seed)
        if plot in (True, "last", "all"):
            posterior(mon, ns.samples, x, y, True)
        plt.close("all")
        kw, res = {}, bool(rng.random() < 0.5)
        for k, z in (("xlabel", "abscissa"), ("ylabel", "ordinate"), ("title", "some title"), ("xlim", [-1, 4]), ("ylim", [-9, 9]), ("errors", 0.1 + 0 * y)):
            if rng.random() < 0.4:
                kw[k] = z
        with tempfile.TemporaryDirectory() as tmp:
            fn = os.path.join(tmp, "b.png") if rng.random() < 0.3 else None
            Plotter.plotSampleList(ns.samples, x, y, npt=int(rng.integers(200, 3000)), residuals=res, show=False, filename=fn, **kw)
            if fn:
                mon.expect(open(fn, "rb").read(4) == b"\x89PNG", "plot/file")
        posterior(mon, ns.samples, x, y, res)
        main = plt.gcf().get_axes()[-1]
        if "title" in kw:
            mon.expect(main.get_title() == "some title", "plot/title")
        for k, z in (("xlim", main.get_xlim()), ("ylim", main.get_ylim())):
            if k in kw:
                mon.expect(z[0] <= kw[k][0] + 1e-9 and z[1] >= kw[k][1] - 1e-9, "plot/" + k, got=z)


def posterior(mon, sl, x, y, residuals):
    """ the figure of plotSampleList : points on the curves of the samples, the average """
    axes = plt.gcf().get_axes()
    main = axes[-1]
    green = [np.asarray(u.get_xydata()) for u in main.get_lines() if u.get_color() == "g"]
    if mon.expect(len(green) == 1, "posterior/average curve"):
        mon.close(green[0][:, 1], sl.average(green[0][:, 0]), "posterior/average", rtol=1e-9, atol=1e-12)
    red = [np.asarray(u.get_xydata()) for u in main.get_lines() if u.get_color() == "r"]
    P = np.array([s.parameters for s in sl])
    mon.expect(len(red) > 0, "posterior/no points")
    for d in red[:: max(1, len(red) // 10)]:
        all_ = np.array([s.model.result(d[:, 0], s.parameters) for s in sl])
        mon.expect(bool(np.min(np.max(np.abs(all_ - d[:, 1]), axis=1)) < 1e-9), "posterior/points on no sample")
    if residuals:
        want = y - sl.average(x)
        mon.expect(any(c.shape == (len(x), 2) and np.allclose(c[:, 1], want) for c in curves(axes[0])), "posterior/residuals")


CASES = [Case("text", case_text, quick=900, thorough=12000, limit=30, chunk=50),
         Case("text2", case_text2, quick=150, thorough=1500, limit=30, chunk=30),
         Case("fit", case_fit, quick=240, thorough=2400, limit=60, chunk=12),
         Case("plot", case_plot, quick=80, thorough=600, limit=60, chunk=10),
         Case("sampler", case_sampler, quick=64, thorough=500, limit=120, chunk=4),
         Case("samplerplot", case_samplerplot, quick=24, thorough=150, limit=120, chunk=3)]
