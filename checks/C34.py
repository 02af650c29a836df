"""C34  Sampling with threads keeps the sampler's guarantees."""
import contextlib
import io
import math
import os
import sys
import threading
import time
import numpy as np
import BayesicFitting as bf
import nsrun
import util
import wrap
import zoo
from harness import Case

RULE = "distinct = (order in which the threads of one round changed the state, number of threads) plus the kind of run"
ASSUMPTIONS = ["the schedules are those provoked by random pauses between the lines executed by the threads; they are sampled",
               "which phantoms are known to a thread that selects its step size is not specified; only samples and walkers are judged"]
REQUIRE = {"runs": 20, "threads": 500, "rounds": 150, "pauses": 2000, "overlaps": 100, "samples": 1000, "walkers": 500,
           "errors reported": 5, "orders": 3, "dynamic": 3, "stress": 20, "shared": 100}

SOURCE = os.path.dirname(os.path.abspath(sys.modules["BayesicFitting.source.NestedSampler"].__file__))


class Pauses(object):
    """ let the threads of the package pause at random lines """
    def __init__(self, seed, prob):
        self.seed, self.prob = seed, prob
        self.n = 0
        self.pauses = 0
        self.tls = threading.local()

    def rng(self):
        r = getattr(self.tls, "rng", None)
        if r is None:
            self.n += 1
            r = self.tls.rng = np.random.default_rng((self.seed, self.n))
            self.tls.block = list(r.random(4096))
        return r

    def line(self, frame, event, arg):
        if event == "line":
            t = self.tls
            if not t.block:
                t.block = list(t.rng.random(4096))
            u = t.block.pop()
            if u < self.prob:
                self.pauses += 1
                time.sleep(0 if u < 0.5 * self.prob else 2e-4 if u < 0.95 * self.prob else 2e-3)
        return self.line

    def __call__(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(SOURCE):
            self.rng()
            return self.line
        return None

    def __enter__(self):
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        threading.settrace(self)
        self.hook = threading.excepthook
        threading.excepthook = lambda a: None
        return self

    def __exit__(self, *a):
        threading.settrace(None)
        threading.excepthook = self.hook
        sys.setswitchinterval(self.old)


class Observer(object):
    """ record what the engines do, in any thread """
    def __init__(self, r=None):
        self.r = r
        self.events = []
        self.busy = {}
        self.overlaps = 0
        self.clash = []

    def wrap(self, cls):
        obs = self

        class Observed(cls):
            def copy(self):
                e = super().copy()
                e.__class__ = Observed
                return e

            def execute(self, kw, lowLhood, *args, **kwargs):
                me = threading.get_ident()
                other = [t for t, k in list(obs.busy.items()) if t != me]
                obs.overlaps += len(other)
                if any(obs.busy.get(t) == kw for t in other):
                    obs.clash.append(int(kw))
                obs.busy[me] = kw
                try:
                    moves = super().execute(kw, lowLhood, *args, **kwargs)
                finally:
                    obs.busy.pop(me, None)
                obs.events.append((me, int(kw), float(lowLhood), moves))
                return moves
        Observed.__name__ = cls.__name__
        return Observed


def watch_rounds(mon, ns, obs, check, wit, phantom=False):
    """ look at every round of exploration """
    update = ns.updateWalkers

    def rounds(explorer, worst):
        n = len(obs.events)
        before = {id(w): (w.id, np.array(w.allpars), float(w.logL)) for w in ns.walkers}
        rest = [(id(w), w.id, np.array(w.allpars), float(w.logL)) for w in ns.walkers[worst:]]
        low = float(ns.lowLhood)
        update(explorer, worst)
        mon.count("rounds")
        ev = obs.events[n:]
        mon.count("threads", len(set(e[0] for e in ev)) if not phantom else 1)
        mon.state("order", tuple(e[1] for e in ev)[:12])
        if not phantom:
            mon.expect(set(e[1] for e in ev) == set(range(worst)), "explored", "walkers %s are explored, not the %d worst" % (
                sorted(set(e[1] for e in ev)), worst), **wit)
            now = [(id(w), w.id, np.array(w.allpars), float(w.logL)) for w in ns.walkers[worst:]]
            ok = len(now) == len(rest) and all(a[1] == b[1] and np.array_equal(a[2], b[2]) and a[3] == b[3] for a, b in zip(rest, now))
            mon.expect(ok, "others", "walkers that are not explored have changed", **wit)
            for k in range(worst):
                w = ns.walkers[k]
                mon.count("walkers")
                mon.expect(w.logL >= low, "constraint", "walker %d at %.10g below %.10g" % (k, w.logL, low), **wit)
                check(w, "walker")
        for e in ev:
            mon.expect(e[2] == low, "low", "thread works with %.10g in stead of %.10g" % (e[2], low), **wit)
        mem = [np.asarray(w.allpars) for w in ns.walkers]
        mon.expect(len(set(m.__array_interface__["data"][0] for m in mem)) == len(mem), "aliased", "walkers share their parameters", **wit)
        ids = [w.id for w in ns.walkers]
        mon.expect(len(set(ids)) == len(ids), "identity", "walkers with the same id: %s" % sorted(ids), **wit)
    ns.updateWalkers = rounds


def account(mon, S, ens, disc, iters, logz, wit):
    """ evidence and weights from the stored likelihoods """
    logs = np.array([s.logL for s in S])
    order = [k for t in range(iters) for k in range(disc)] + list(range(ens))
    if not mon.expect(len(order) == len(logs), "count", "%d samples, %d expected" % (len(logs), len(order)), **wit):
        return
    mon.expect(np.all(np.diff(logs) >= 0), "uphill", "likelihoods of the samples decrease", **wit)
    shr = 1.0 / (ens - np.array(order))
    lx = np.concatenate(([0.0], -np.cumsum(shr)))
    lw = lx[:-1] + np.log(-np.expm1(-shr)) + logs
    z = np.logaddexp.reduce(lw)
    mon.close(logz, z, "evidence", rtol=1e-6, atol=1e-6, detail="evidence", **wit)
    mon.close(np.array([s.logW for s in S]), lw - z, "weights", rtol=1e-6, atol=1e-6, detail="weights", **wit)


def run(mon, rng, idx):
    r = nsrun.make(rng, None if idx % 2 else "gauss")
    ens = int(rng.integers(10, 26))
    disc = int(rng.integers(2, 7))
    phantom = rng.random() < 0.15
    names = [str(v) for v in rng.choice(list(nsrun.ENGINES), int(rng.integers(1, 4)), replace=False)]
    obs = Observer(r)
    engs = [obs.wrap(nsrun.ALL[e])(None, r.errdis, seed=int(rng.integers(1 << 30))) for e in names]
    cls = bf.PhantomSampler if phantom else bf.NestedSampler
    kw = {} if phantom else {"discard": disc}
    ns = cls(problem=r.problem, distribution=r.errdis, ensemble=ens, seed=int(rng.integers(1 << 30)), engines=engs, verbose=0,
             threads=True, **kw)
    ns.maxIterations = int(rng.integers(8, 16))
    ns.minimumIterations = 6
    wit = dict(problem=r.text, run="%s %s ensemble %d discard %d" % (cls.__name__, "+".join(names), ens, disc))
    prob = float(rng.choice([0.0, 0.003, 0.02]))

    def check(w, tag):
        nsrun.valid(mon, r, w.allpars, w.logL, tag)
    watch_rounds(mon, ns, obs, check, wit, phantom)
    with Pauses(int(rng.integers(1 << 30)), prob) as ps, mon.guarded("error", **wit):
        try:
            ev = ns.sample()
        except RuntimeError as e:
            if "starting" in str(e):
                return
            raise
        mon.count("runs")
        mon.count("overlaps", obs.overlaps)
        mon.count("pauses", ps.pauses)
        mon.expect(not obs.clash, "clash", "two threads at walkers %s" % obs.clash[:5], **wit)
        S = ns.samples
        if phantom:
            logs = np.array([s.logL for s in S])
            mon.expect(np.all(np.diff(logs) >= 0), "uphill", "likelihoods of the samples decrease", **wit)
        else:
            account(mon, S, ens, disc, ns.iteration, ns.logZ, wit)
            mon.expect(len(ns.walkers) == ens, "ensemble", "%d walkers, not %d" % (len(ns.walkers), ens), **wit)
        mon.close(ev, ns.logZ / math.log(10), "evidence10", rtol=1e-9, **wit)
        for s in S:
            nsrun.valid(mon, r, s.allpars, s.logL, "sample")
            mon.count("samples")
        ids = [s.id for s in S]
        mon.expect(len(set(ids)) == len(ids), "identity", "samples with the same id", **wit)
        lst = [w.logL for w in ns.phantoms.getList(ns.walkers[0])]
        mon.expect(all(a <= b for a, b in zip(lst, lst[1:])), "phantoms", "the collected positions are not sorted", **wit)
        for e in ns.engines:
            mon.expect(e.report[4] == sum(e.report[:4]) or sum(e.report[:4]) == 0, "report", "%s: %s" % (e, e.report), **wit)
    mon.state(cls.__name__, tuple(names), r.kind, disc, prob)
    mon.sample("run", **wit)


def stress(mon, rng, idx):
    """ the first exploration: all walkers at once, with many pauses """
    n = 14
    x = np.linspace(-2, 2, n)
    kind = idx % 4
    if kind == 0:
        m = bf.GaussModel()
        m.setLimits([0.5, -1, 0.3], [4, 1, 3])
        y = 2 * np.exp(-0.5 * x * x) + 0.2 * rng.normal(size=n)
    elif kind == 1:
        m = bf.SineModel()
        m.setLimits([0.1, -2, -2], [1, 2, 2])
        y = np.sin(2 * x) + 0.2 * rng.normal(size=n)
        mon.count("sine")
    elif kind == 2:
        m = bf.RadialVelocityModel()
        m.setLimits([0.1, 0.5, 1, 0, 0], [0.8, 2, 3, 6, 6])
        y = 1.0 * np.sin(2 * x) + 0.2 * rng.normal(size=n)
        mon.count("orbit")
    else:
        m = bf.PolynomialDynamicModel(1)
        m.setLimits([-5], [5])
        y = 1 + x - 0.3 * x * x + 0.2 * rng.normal(size=n)
        mon.count("dynamic")
    ens = int(rng.integers(8, 20))
    disc = int(rng.integers(2, 7))
    ns = bf.NestedSampler(x, m, y, ensemble=ens, discard=disc, threads=True, verbose=0, seed=int(rng.integers(1 << 30)),
                          limits=[0.05, 5.0] if rng.random() < 0.5 else None)
    hyp = ns.distribution
    obs = Observer()
    for k, e in enumerate(ns.engines):
        e.__class__ = obs.wrap(e.__class__)
    ns.maxIterations = 8
    ns.minimumIterations = 5
    wit = dict(problem="%s ensemble %d discard %d" % (m, ens, disc))

    def check(w, tag):
        q = np.asarray(w.allpars, dtype=float)
        mm = w.problem.model
        if not mon.expect(len(q) == mm.npars + 1, "length:" + tag, "%d parameters for a model of %d" % (len(q), mm.npars), **wit):
            return
        want = np.sum(-0.5 * ((y - np.asarray(mm.result(x, q[:-1]))) / q[-1]) ** 2 - np.log(q[-1]) - 0.5 * math.log(2 * math.pi))
        mon.close(w.logL, want, "likelihood:" + tag, rtol=1e-9, atol=1e-8, **wit)
        for k in range(mm.npars):
            p = mm.getPrior(k)
            mon.expect(p.lowLimit <= q[k] <= p.highLimit, "domain:" + tag, **wit)
    watch_rounds(mon, ns, obs, check, wit)
    with Pauses(int(rng.integers(1 << 30)), 0.05) as ps, mon.guarded("error", **wit):
        ns.sample()
        mon.count("stress")
        mon.count("overlaps", obs.overlaps)
        mon.count("pauses", ps.pauses)
        mon.expect(not obs.clash, "clash", "two threads at walkers %s" % obs.clash[:5], **wit)
        account(mon, ns.samples, ens, disc, ns.iteration, ns.logZ, wit)
        for s in ns.samples:
            check_sample(mon, s, x, y, wit)
    mon.state("stress", kind, disc, str(hyp))


def shared(mon, rng, idx):
    """ one model evaluated by several threads at the same time """
    entries = zoo.ALL + wrap.WRAP
    entry = entries[idx % len(entries)]
    sp = entry(rng)
    x = sp.x(rng, int(rng.integers(3, 10)))
    p = np.array(zoo.freeparams(sp, getattr(sp, "defaultfix", {})))
    m = sp.make()
    if m.npars != len(p) or len(p) == 0:
        return
    jobs = []
    for t in range(4):
        pars = [p * (1 + 0.02 * rng.uniform(-1, 1, len(p))) for k in range(2)]
        jobs.append([(nm, q) for q in pars for nm in ("result", "partial", "result")])

    def do(job):
        return [np.array(util.stack_partial(m.partial(x, q), sp.ndout) if nm == "partial" else m.result(x, q), dtype=float)
                for nm, q in job]
    with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        want = [do(j) for j in jobs]
        got = [None] * len(jobs)
        errs = []

        def work(k):
            try:
                with np.errstate(all="ignore"):
                    got[k] = do(jobs[k])
            except Exception as e:
                errs.append(repr(e))
        with Pauses(int(rng.integers(1 << 30)), 0.03) as ps:
            th = [threading.Thread(target=work, args=(k,)) for k in range(len(jobs))]
            for t in th:
                t.start()
            for t in th:
                t.join()
            mon.count("pauses", ps.pauses)
    mon.expect(not errs, "shared-error:" + sp.klass, "%s" % errs[:2], spec=sp.name)
    if not errs:
        for k, (a, b) in enumerate(zip(got, want)):
            for u, v, j in zip(a, b, jobs[k]):
                mon.expect(np.array_equal(u, v, equal_nan=True), "shared-%s:%s" % (j[0], sp.klass),
                           "evaluation in a thread differs from the same without threads", spec=sp.name, x=x, pars=j[1])
    mon.count("shared")
    mon.state("shared", sp.klass)


def check_sample(mon, s, x, y, wit):
    q = np.asarray(s.allpars, dtype=float)
    mm = s.model
    if mon.expect(len(q) == mm.npars + 1, "length:sample", "%d parameters for a model of %d" % (len(q), mm.npars), **wit):
        want = np.sum(-0.5 * ((y - np.asarray(mm.result(x, q[:-1]))) / q[-1]) ** 2 - np.log(q[-1]) - 0.5 * math.log(2 * math.pi))
        mon.close(s.logL, want, "likelihood:sample", rtol=1e-9, atol=1e-8, **wit)
        mon.count("samples")


LEFT = [0]


def broken(x, p):
    """ a straight line that fails at one of its calls """
    LEFT[0] -= 1
    if LEFT[0] == 0:
        raise ArithmeticError("planned failure")
    return p[0] + p[1] * x


def failures(mon, rng, idx):
    """ errors in threads are reported, and do not haunt the next run """
    n = 12
    x = np.linspace(-1, 1, n)
    y = 1 + x + 0.1 * rng.normal(size=n)

    def sampler(left):
        m = bf.UserModel(2, broken)
        m.setLimits([-3, -3], [3, 3])
        pr = bf.ClassicProblem(model=m, xdata=x, ydata=y)
        e = bf.GaussErrorDistribution(scale=0.3)
        LEFT[0] = left
        ns = bf.NestedSampler(problem=pr, distribution=e, ensemble=10, discard=int(rng.integers(1, 5)), threads=True, verbose=0,
                              seed=int(rng.integers(1 << 30)), engines=["chord"] if idx % 2 else ["galilean", "step"])
        ns.maxIterations = 10
        ns.minimumIterations = 8
        return ns
    with Pauses(int(rng.integers(1 << 30)), 0.01):
        alive = threading.active_count()
        ns = sampler(int(rng.integers(30, 120)))
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                ns.sample()
            failed = ""
        except Exception as e:
            failed = repr(e) + out.getvalue()
        hit = LEFT[0] <= 0
        if hit:
            mon.expect(failed != "", "swallowed", "an error in a thread is not reported")
            mon.expect("planned failure" in failed, "unclear", "the error in the thread is not told: %s" % failed)
            mon.count("errors reported")
        for t in range(200):
            if threading.active_count() <= alive:
                break
            time.sleep(0.01)
        mon.expect(threading.active_count() <= alive, "left", "threads are left behind")
        with contextlib.redirect_stdout(io.StringIO()), mon.guarded("haunted"):
            nxt = sampler(1 << 60)
            nxt.sample()
            mon.count("after errors")
    mon.state("failure", idx % 2, hit)


def orders(mon, rng, idx):
    """ order problems """
    n = int(rng.integers(5, 10))
    xy = rng.uniform(0, 1, (n, 2))
    pr = bf.SalesmanProblem(xdata=xy)
    with Pauses(int(rng.integers(1 << 30)), 0.01), mon.guarded("error"), contextlib.redirect_stdout(io.StringIO()):
        ns = bf.NestedSolver(pr, ensemble=10, discard=int(rng.integers(1, 4)), threads=True, verbose=0,
                             seed=int(rng.integers(1 << 30)))
        ns.maxIterations = 12
        ns.minimumIterations = 8
        ns.solve()
        for s in list(ns.samples) + list(ns.walkers):
            q = np.asarray(s.allpars)[:n].astype(int)
            mon.expect(sorted(q.tolist()) == list(range(n)), "tour", "not a tour: %s" % q)
            res = pr.result(q)
            mon.close(s.logL, -np.sum(res), "tour-length", rtol=1e-9, order=q)
    mon.count("orders")
    mon.state("orders", n)


CASES = [Case("run", run, quick=42, thorough=500, chunk=3), Case("stress", stress, quick=48, thorough=600, chunk=3),
         Case("shared", shared, quick=210, thorough=2500, chunk=15),
         Case("failures", failures, quick=16, thorough=150, chunk=2), Case("orders", orders, quick=10, thorough=80, chunk=2)]
