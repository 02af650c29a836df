"""Shared run-time monitoring harness.

A check module (checks/<ID>.py) defines

    CASES = [ Case( name, fn, quick=N, thorough=M ), ... ]

where fn( mon, rng, idx ) drives the real code once, under a workload that is
derived from ( VERIF_SEED, property, case name, idx ) only, and reports what it
observed to the monitor `mon`.  The harness shards the case instances over
worker processes, merges what the monitors observed, writes the evidence file
and turns the observations in a three valued verdict:

    exit 0   held on everything observed
    exit 1   VIOLATION line(s), each with a replay file
    exit 2   inconclusive: a monitor was hardly/never reached, a case instance
             ran into the watchdog, or a worker died.
"""
import contextlib
import hashlib
import io
import json
import math
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

import numpy as np


class Case(object):
    def __init__(self, name, fn, quick=10, thorough=None, limit=120, chunk=1):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else 8 * quick
        self.limit = limit          # watchdog, in seconds, per instance
        self.chunk = chunk


class Timeout(Exception):
    pass


def seed_for(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "little")


def plain(v, depth=0):
    """ Make a witness json-able and short. """
    if isinstance(v, (str, int, bool)) or v is None:
        return v if not isinstance(v, str) or len(v) < 2000 else v[:2000]
    if isinstance(v, float):
        return v if math.isfinite(v) else str(v)
    if isinstance(v, np.generic):
        return plain(v.item(), depth)
    if isinstance(v, np.ndarray):
        if v.size > 60:
            return {"shape": list(v.shape), "head": plain(v.reshape(-1)[:30].tolist(), depth + 1)}
        return plain(v.tolist(), depth + 1)
    if isinstance(v, (list, tuple)):
        return [plain(x, depth + 1) for x in v[:60]]
    if isinstance(v, dict):
        return {str(k): plain(x, depth + 1) for k, x in list(v.items())[:60]}
    return str(v)[:500]


class Monitor(object):
    """ Collects the events, states and violations that one worker observed. """

    def __init__(self, pid, seed, tier):
        self.pid = pid
        self.seed = seed
        self.tier = tier
        self.events = 0
        self.counts = {}
        self.states = set()
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.where = ("?", 0)
        self._nper = {}
        self._nbad = 0

    # ---- what has been observed
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def state(self, *sig):
        """ a distinct (nontrivial) situation has been observed """
        self.states.add(hashlib.md5(repr(sig).encode()).hexdigest()[:12])

    def sample(self, text, **kw):
        if len(self.samples) < 4:
            d = {"case": self.where[0], "what": text}
            d.update({k: plain(v) for k, v in kw.items()})
            self.samples.append(d)

    # ---- oracles
    def expect(self, cond, mech, detail="", **witness):
        """ One oracle evaluation. mech identifies the mechanism, never random values. """
        self.events += 1
        self.count("oracle:" + mech.split("/")[0])
        if not bool(cond):
            self.violate(mech, detail, **witness)
            return False
        return True

    def violate(self, mech, detail="", **witness):
        self._nbad += 1
        n = self._nper.get(mech, 0)
        self._nper[mech] = n + 1
        if n >= 3:
            return
        self.violations.append({
            "mechanism": mech, "detail": str(detail)[:1500],
            "case": self.where[0], "index": self.where[1],
            "witness": plain(witness)})

    def close(self, got, want, mech, rtol=1e-7, atol=0.0, detail="", **witness):
        """ elementwise |got-want| <= atol + rtol * |want|; nan/inf must agree """
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:
            return self.expect(False, mech, "%s not numeric: %s" % (detail, e),
                               got=str(got), want=str(want), **witness)
        if g.shape != w.shape:
            try:
                gb, wb = np.broadcast_arrays(g, w)
                same = g.size == w.size or w.size == 1
            except ValueError:
                same = False
            if not same or (g.size != w.size and w.size != 1) :
                return self.expect(False, mech, "%s shape %s vs %s" % (detail, g.shape, w.shape),
                                   got=g, want=w, **witness)
            if g.size == w.size:
                g = g.reshape(-1); w = w.reshape(-1)
        with np.errstate(all="ignore"):
            ok = np.abs(g - w) <= (atol + rtol * np.abs(w))
            ok = ok | (g == w) | (np.isnan(g) & np.isnan(w))
        good = bool(np.all(ok))
        if good:
            self.events += 1
            self.count("oracle:" + mech.split("/")[0])
            return True
        with np.errstate(all="ignore"):
            bad = np.argwhere(~np.atleast_1d(ok))[:3].tolist()
            err = np.abs(g - w)
            mx = float(np.nanmax(err)) if np.any(np.isfinite(err)) else float("nan")
        return self.expect(False, mech, "%s differs: max abs err %.3g at %s" % (detail, mx, bad),
                           got=g, want=w, **witness)

    @contextlib.contextmanager
    def guarded(self, mech, **witness):
        """ Code inside may not raise: on valid input an exception breaks the property """
        try:
            yield
        except Timeout:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = [f for f in tb if f.filename.startswith(REPO)]
            loc = inrepo[-1] if inrepo else tb[-1]
            self.expect(False, mech + "/raised",
                        "%s: %s (in %s:%s)" % (type(e).__name__, e,
                                               os.path.basename(loc.filename), loc.name),
                        **witness)

    def data(self):
        return {k: getattr(self, k) for k in
                ("events", "counts", "states", "samples", "violations", "inconclusive")}


def _alarm(signum, frame):
    raise Timeout("watchdog")


_slow = multiprocessing.get_context("fork").Value("i", 0)       # instances that gave no answer, over all workers


def run_instance(mon, case, idx):
    if _slow.value >= 4:
        mon.inconclusive.append("skipped after too many instances without an answer: %s[%d]" % (case.name, idx))
        return
    rng = np.random.default_rng(seed_for(mon.seed, mon.pid, case.name, idx))
    mon.where = (case.name, idx)
    np.random.seed(seed_for(mon.seed, mon.pid, case.name, idx, "global") % (2 ** 32))
    old = signal.signal(signal.SIGALRM, _alarm)
    limit = case.limit if _slow.value == 0 else min(case.limit, 60)
    signal.setitimer(signal.ITIMER_REAL, limit)
    out, err = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            case.fn(mon, rng, idx)
        mon.count("instances:" + case.name)
    except Timeout:
        # the limit is far above what an instance takes: the real code does not come to an answer
        with _slow.get_lock():
            _slow.value += 1
        mon.violate(case.name + "/no-answer", "no answer within %d s" % limit, trace=traceback.format_exc()[-1500:])
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(REPO)]
        if inrepo:
            # valid input, driven through the public interface, made the real code raise
            mon.expect(False, case.name + "/raised", "%s: %s (in %s:%s)" %
                       (type(e).__name__, e, os.path.basename(inrepo[-1].filename), inrepo[-1].name),
                       trace=traceback.format_exc()[-1500:])
        else:
            # something the monitors rely upon is not there or has an unexpected form
            mon.expect(False, case.name + "/unusable", "%s: %s" % (type(e).__name__, e),
                       trace=traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout, sys.stderr = out, err


def _worker(args):
    pid, seed, tier, modname, batch = args
    mod = _load(modname)
    cases = {c.name: c for c in mod.CASES}
    mon = Monitor(pid, seed, tier)
    t0 = time.time()
    per = {}
    for name, idx in batch:
        t = time.time()
        run_instance(mon, cases[name], idx)
        per[name] = per.get(name, 0.0) + time.time() - t
    d = mon.data()
    d["per"] = per
    return d


_mods = {}


def _load(modname):
    if modname not in _mods:
        import importlib
        for p in (os.path.join(VERIF, "checks"), os.path.join(VERIF, "lib")):
            if p not in sys.path:
                sys.path.insert(0, p)
        _mods[modname] = importlib.import_module(modname)
    return _mods[modname]


def load_findings(pid):
    """ known-findings.txt:  finding: property=<id> mechanism=<key> <what fails> """
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            w = line.split(None, 3)
            p = w[1].split("=", 1)[1]
            m = w[2].split("=", 1)[1]
            if p == pid:
                out.append((m, w[3]))
    return out


def check_source():
    """ The code under test must be /repo's working tree """
    import BayesicFitting
    f = os.path.realpath(BayesicFitting.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        print("INCONCLUSIVE: BayesicFitting is loaded from %s" % f)
        sys.exit(2)


def main(pid, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    only = None
    a = list(argv)
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--seed":
            seed = int(a.pop(0))
        elif x == "--replay":
            replay = a.pop(0)
        elif x == "--case":
            only = a.pop(0)
    if tier not in ("quick", "thorough"):
        tier = "quick"

    sys.path.insert(0, REPO)
    os.environ["VERIF_TIER"] = tier
    t0 = time.time()
    check_source()
    mod = _load(pid)

    if replay:
        r = json.load(open(replay))
        mon = Monitor(pid, r["seed"], tier)
        cases = {c.name: c for c in mod.CASES}
        run_instance(mon, cases[r["case"]], r["index"])
        for v in mon.violations:
            print(json.dumps(v, indent=1))
        print("replay: %d oracle evaluations, %d violations" % (mon.events, len(mon.violations)))
        sys.exit(1 if mon.violations else 0)

    tasks = []
    for c in mod.CASES:
        if only and c.name != only:
            continue
        n = c.quick if tier == "quick" else c.thorough
        idx = list(range(n))
        for i in range(0, n, c.chunk):
            tasks.append([(c.name, k) for k in idx[i:i + c.chunk]])

    nproc = min(int(os.environ.get("VERIF_PROCS", "8")), max(1, os.cpu_count() or 1), len(tasks))
    merged = {"events": 0, "counts": {}, "states": set(), "samples": [],
              "violations": [], "inconclusive": []}
    per = {}

    def merge(d):
        merged["events"] += d["events"]
        for k, v in d["counts"].items():
            merged["counts"][k] = merged["counts"].get(k, 0) + v
        merged["states"] |= d["states"]
        merged["samples"] += d["samples"][:2]
        merged["violations"] += d["violations"]
        merged["inconclusive"] += d["inconclusive"]
        for k, v in d["per"].items():
            per[k] = per.get(k, 0.0) + v

    args = [(pid, seed, tier, pid, t) for t in tasks]
    budget = 780 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "3000"))
    if nproc <= 1:
        fast = os.environ.get("VERIF_FAST")                 # for mutation runs: stop at the first violation
        if fast:
            import random
            random.Random(1).shuffle(args)
        skip = [m for m, t in load_findings(pid)]
        for x in args:
            merge(_worker(x))
            if fast and any(v["mechanism"] not in skip for v in merged["violations"]):
                break
    else:
        from concurrent.futures import ProcessPoolExecutor, as_completed, TimeoutError as FT
        from concurrent.futures.process import BrokenProcessPool
        ctx = multiprocessing.get_context("fork")
        ex = ProcessPoolExecutor(nproc, mp_context=ctx)
        futs = [ex.submit(_worker, x) for x in args]
        try:
            for f in as_completed(futs, timeout=max(10, budget - (time.time() - t0))):
                merge(f.result())
        except BrokenProcessPool:
            merged["inconclusive"].append("a worker process died")
        except FT:
            merged["inconclusive"].append("time budget of %ds used up" % budget)
        procs = list((getattr(ex, "_processes", None) or {}).values())
        # all that is wanted has been received: nothing may linger, holding our output
        for p in procs:
            try:
                p.kill()
            except Exception:
                pass
        ex.shutdown(wait=False, cancel_futures=True)

    # ---- verdict
    known = load_findings(pid)
    knownkeys = dict(known)
    bymech = {}
    for v in merged["violations"]:
        bymech.setdefault(v["mechanism"], []).append(v)
    viol = []
    for m in sorted(bymech):
        if m in knownkeys:
            print("KNOWN-FINDING: property=%s %s" % (pid, knownkeys[m]))
            continue
        viol.append(bymech[m][0])

    need = getattr(mod, "REQUIRE", {})
    short = []
    if not only:
        for k, n in need.items():
            have = merged["counts"].get(k, 0)
            if have < n:
                short.append("%s: %d < %d" % (k, have, n))
        for c in mod.CASES:
            if merged["counts"].get("instances:" + c.name, 0) == 0:
                short.append("case %s was never completed" % c.name)

    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-") and f.endswith(".json"):
            os.remove(os.path.join(rdir, f))
    lines = []
    for k, v in enumerate(viol):
        path = os.path.join(rdir, "%s-%d.json" % (pid, k))
        with open(path, "w") as fh:
            json.dump({"property": pid, "seed": seed, "tier": tier, "case": v["case"],
                       "index": v["index"], "mechanism": v["mechanism"],
                       "detail": v["detail"], "witness": v["witness"],
                       "rerun": "/opt/venv/bin/python run.py %s --replay %s" % (pid, path)},
                      fh, indent=1)
        lines.append((path, v))

    evid = {
        "property": pid, "tier": tier, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": int(merged["events"]),
            "distinct_nontrivial": len(merged["states"]),
            "rule": getattr(mod, "RULE", ""),
            "samples": merged["samples"][:12] or [{"what": "no samples"}],
            "counters": {k: int(v) for k, v in sorted(merged["counts"].items())},
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
    }
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + ".json"), "w") as fh:
        json.dump(evid, fh, indent=1)

    if os.environ.get("VERIF_PROFILE"):
        for k, v in sorted(per.items(), key=lambda t: -t[1]):
            print("   %8.2f s  %s" % (v, k))

    print("%s tier=%s seed=%d: %d oracle evaluations over %d distinct situations, %.1f s" %
          (pid, tier, seed, merged["events"], len(merged["states"]), time.time() - t0))
    if lines:
        for path, v in lines[:int(os.environ.get("VERIF_SHOW", "40"))]:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   %s: %s" % (v["mechanism"], v["detail"][:400]))
        sys.stdout.flush()
        os._exit(1)
    if merged["inconclusive"] or short or merged["events"] == 0:
        print("INCONCLUSIVE: %s" % "; ".join((merged["inconclusive"] + short)[:6]))
        sys.stdout.flush()
        os._exit(2)
    sys.stdout.flush()
    os._exit(0)
