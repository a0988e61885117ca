"""Monitor core: runs workloads of the real qetpy code, records every call that
crosses the public API, judges what came back with independent oracles and
turns the observations into a three-valued verdict.

exit 0  held on everything observed
exit 1  violated (one VIOLATION line per mechanism, with a replay file)
exit 3  inconclusive (a monitor was never reached, or a watchdog fired)
exit 2  harness error
"""
import os, sys, json, time, signal, hashlib, traceback, warnings, copy, zlib
import multiprocessing as mp
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter("ignore")
np.seterr(all="ignore")


class CodeRaised(Exception):
    """The code under test raised on an input inside its domain."""

    def __init__(self, name, exc, tb):
        super().__init__(f"{name}: {type(exc).__name__}: {exc}")
        self.name, self.exc, self.tb = name, exc, tb


class CaseTimeout(BaseException):
    pass


class TooManySteps(BaseException):
    """Logical step budget of a monitored call exhausted."""


class Violation(Exception):
    """Raised to abandon a case after a fatal disagreement."""


def brief(x, n=6):
    try:
        if isinstance(x, np.ndarray):
            if x.size <= n:
                return f"array{x.shape}{np.array2string(x.ravel(), precision=10)}"
            return f"array{x.shape}[{np.array2string(x.ravel()[:n], precision=10)}..]"
        if isinstance(x, (list, tuple)):
            return type(x).__name__ + "(" + ", ".join(brief(i, 3) for i in x[:n]) + ")"
        if isinstance(x, dict):
            return "{" + ", ".join(f"{k}: {brief(v, 3)}" for k, v in list(x.items())[:n]) + "}"
        return repr(x)[:120]
    except Exception as e:  # pragma: no cover
        return f"<{type(x).__name__}>"


def plain(x):
    """Data that can be copied safely."""
    if isinstance(x, (list, tuple)):
        return all(plain(v) for v in x)
    if isinstance(x, dict):
        return all(plain(v) for v in x.values())
    return x is None or isinstance(x, (np.ndarray, np.generic, int, float, complex, str, bytes)) or (type(x).__module__ or "").startswith("qetpy")


def near(a, b, rtol=1e-9, depth=0):
    """Same structure and content, floating-point values up to rounding.  (Rounding may differ
    between identical calls: NumPy and BLAS pick their loops by memory layout.)"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return all(near(x, y, rtol, depth + 1) for x, y in zip(a.ravel(), b.ravel()))
        if a.dtype.kind not in "fc" or not a.size:
            return bool(np.array_equal(a, b))
        with np.errstate(all="ignore"):
            f = np.isfinite(a)
            if not np.array_equal(f, np.isfinite(b)):
                return False
            rest = (a == b) | ((a != a) & (b != b))
            top = np.max(np.abs(a[f])) if f.any() else 0.0
            return bool(np.all(np.where(f, np.abs(a - b) <= rtol * top, rest)))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(near(a[k], b[k], rtol, depth + 1) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(near(x, y, rtol, depth + 1) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, (float, complex, np.inexact)):
        return bool(a == b or (a != a and b != b) or abs(a - b) <= rtol * abs(a))
    if isinstance(a, (int, str, bytes, bool, type(None), np.generic)):
        return bool(a == b)
    if depth < 3 and hasattr(a, "__dict__"):
        return near(vars(a), vars(b), rtol, depth + 1)
    return True


def fingerprint(x):
    """Content hash of anything a caller can pass in (values, not identity)."""
    h = hashlib.blake2b(digest_size=12)

    def upd(v, depth=0):
        if isinstance(v, np.ndarray):
            h.update(str((v.shape, v.dtype.str)).encode())
            if v.dtype == object:
                for i in v.ravel():
                    upd(i, depth + 1)
            else:
                h.update(np.ascontiguousarray(v).tobytes())
        elif isinstance(v, dict):
            h.update(b"{")
            for k in v:
                h.update(repr(k).encode()); upd(v[k], depth + 1)
            h.update(b"}")
        elif isinstance(v, (list, tuple, set)):
            h.update(type(v).__name__.encode())
            for i in v:
                upd(i, depth + 1)
        elif isinstance(v, (int, float, complex, str, bytes, bool, type(None), np.generic)):
            h.update(repr(v).encode())
        elif depth < 3 and hasattr(v, "__dict__"):
            h.update(type(v).__name__.encode()); upd(vars(v), depth + 1)
        else:
            h.update(type(v).__name__.encode())
    upd(x)
    return h.hexdigest()


def same(a, b):
    """Bit-for-bit same results (nan equal nan), through containers/objects."""
    return fingerprint(a) == fingerprint(b)


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "defaults.json")) as _f:
    _d = json.load(_f)
    DEFAULTS, ORDER, KWONLY, VARARGS = _d["defaults"], _d["order"], _d["kwonly"], _d["varargs"]


def known_as(fn):
    """Name of a public function, class or method in defaults.json, or None."""
    o = getattr(fn, "__self__", None)
    names = [getattr(fn, "__qualname__", "")]
    if o is not None and not isinstance(o, type):
        names.insert(0, type(o).__name__ + "." + getattr(fn, "__name__", ""))
    return next((n for n in names if n in ORDER), None)


def is_default(v, d):
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, bool) or isinstance(d, bool) or d is None or isinstance(d, (str, list)):
        return type(v) is type(d) and v == d
    return isinstance(v, (int, float)) and v == d


class Monitor:
    """One per case.  Collects the observed events and oracle verdicts."""

    def __init__(self, pid, scenario, index, seed, tier, purity=False):
        self.pid, self.scenario, self.index, self.seed, self.tier = pid, scenario, index, seed, tier
        self.calls = {}
        self.checks = {}
        self.slack = {}
        self.viol = []
        self.notes = []
        self.watch = []
        self.purity = purity
        self.thorough = tier == "thorough"
        self.defaulted = {}
        self._drop = np.random.default_rng([index, seed, len(scenario)])

    # ---- events -------------------------------------------------------
    def call(self, fn, *args, **kw):
        """Call the real code; record the event; exceptions become verdicts."""
        name = getattr(fn, "__qualname__", None) or getattr(fn, "__name__", str(fn))
        self.calls[name] = self.calls.get(name, 0) + 1
        kw = self._omit(known_as(fn), kw)
        if self.purity:
            return self._pure_call(name, fn, args, kw)
        try:
            return fn(*args, **kw)
        except (CaseTimeout, TooManySteps):
            raise
        except Exception as e:
            raise CodeRaised(name, e, traceback.format_exc())

    def _omit(self, name, kw):
        """Options asked for at their documented default are sometimes left
        out: the call must mean the same."""
        d = DEFAULTS.get(name)
        if not d or not kw:
            return kw
        out = {}
        for k, v in kw.items():
            if k in d and is_default(v, d[k]) and self._drop.random() < .5:
                t = f"{name}:{k}"
                self.defaulted[t] = self.defaulted.get(t, 0) + 1
            else:
                out[k] = v
        return out

    def _pure_call(self, name, fn, args, kw):
        before = [fingerprint(a) for a in args]
        kbefore = {k: fingerprint(v) for k, v in kw.items()}
        st = np.random.get_state()
        err = None
        try:
            r = fn(*args, **kw)
        except (CaseTimeout, TooManySteps):
            raise
        except Exception as e:
            err = CodeRaised(name, e, traceback.format_exc())
        where = [f"positional {i}" for i, a in enumerate(args) if fingerprint(a) != before[i]]
        where += [f"keyword {k}" for k in kw if fingerprint(kw[k]) != kbefore[k]]
        self.expect(f"pure:{name}", not where,
                    f"{name} modified its arguments: {where}")
        for a in list(args) + list(kw.values()):
            if isinstance(a, (np.ndarray, list, dict)):
                self.watch.append((name, a, fingerprint(a)))
        if err is not None:
            raise err
        is_method = getattr(fn, "__self__", None) is not None and not isinstance(fn, type)
        if not is_method:
            st2 = np.random.get_state()
            np.random.set_state(st)
            f0 = fingerprint(r)
            r0 = copy.deepcopy(r) if plain(r) else r
            try:
                r2 = fn(*args, **kw)
            except Exception as e:
                raise CodeRaised(name + " (second identical call)", e, traceback.format_exc())
            finally:
                np.random.set_state(st2)
            self.expect(f"deterministic:{name}", fingerprint(r2) == f0 or near(r0, r2),
                        f"{name}: second identical call gave a different result: {brief(r)} vs {brief(r2)}")
            self.expect(f"alias:{name}", fingerprint(r) == f0,
                        f"{name}: second identical call changed the first result")
        return r

    def raises(self, tag, exc, fn, *args, **kw):
        name = getattr(fn, "__qualname__", str(fn))
        self.calls[name] = self.calls.get(name, 0) + 1
        try:
            r = fn(*args, **kw)
        except exc:
            self.expect(tag, True)
            return
        except (CaseTimeout, TooManySteps):
            raise
        except Exception as e:
            self.expect(tag, False, f"{name} raised {type(e).__name__}: {e} instead of {exc}")
            return
        self.expect(tag, False, f"{name} accepted an invalid request and returned {brief(r)}")

    def visible(self, obj, *names):
        """Whether these (internal) attributes can be observed; a rewrite that renames them is
        not a violation, so the caller then leaves the object to the checks of its results."""
        gone = [k for k in names if not hasattr(obj, k)]
        if gone:
            self.expect("internals-moved", True)
        return not gone

    def note(self, **kw):
        self.notes.append({k: (v if isinstance(v, (int, float, str, bool, type(None), list)) else brief(v))
                           for k, v in kw.items()})

    # ---- oracles ------------------------------------------------------
    def expect(self, tag, cond, detail="", mech=None):
        self.checks[tag] = self.checks.get(tag, 0) + 1
        cond = bool(np.all(cond))
        if not cond:
            self.viol.append(dict(tag=tag, mech=mech or tag, detail=str(detail)[:1500]))
        return cond

    def close(self, tag, got, want, rtol=1e-9, atol=0.0, detail="", mech=None):
        """|got-want| <= rtol*max|want| + atol elementwise on arrays (max norm)."""
        self.checks[tag] = self.checks.get(tag, 0) + 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape and g.size != w.size:
            self.viol.append(dict(tag=tag, mech=mech or tag,
                                  detail=f"shape {g.shape} != {w.shape} {detail}"[:1500]))
            return False
        g = g.reshape(w.shape)
        try:
            g = g.astype(complex) if np.iscomplexobj(g) or np.iscomplexobj(w) else g.astype(float)
        except Exception:
            self.viol.append(dict(tag=tag, mech=mech or tag, detail=f"not numeric: {brief(got)} {detail}"[:1500]))
            return False
        fin = np.isfinite(w)
        wf = np.abs(w[fin]) if np.any(fin) else np.zeros(1)
        tol = rtol * (wf.max() if wf.size else 0.0) + atol
        okspecial = np.all((g[~fin] == w[~fin]) | (np.isnan(g[~fin]) & np.isnan(w[~fin])))
        d = np.abs(g[fin] - w[fin])
        worst = float(np.max(d)) if d.size else 0.0
        if not np.isfinite(worst):
            worst = np.inf
        ratio = worst / tol if tol > 0 else (0.0 if worst == 0 else np.inf)
        ok = okspecial and ratio <= 1
        if ok:
            self.slack[tag] = max(self.slack.get(tag, 0.0), ratio)
        else:
            self.viol.append(dict(tag=tag, mech=mech or tag, detail=(
                f"got {brief(got)} want {brief(want)} worst |diff|={worst:.6g} allowed {tol:.6g} {detail}")[:1500]))
        return ok

    def refill(self, arr, values):
        """The caller itself overwrites an array it handed over earlier."""
        mine, self.watch = [w for w in self.watch if w[1] is arr], [w for w in self.watch if w[1] is not arr]
        rest, self.watch = self.watch, mine
        self.finish()
        self.watch = rest
        arr[:] = values

    def finish(self):
        for name, a, f in self.watch:
            if fingerprint(a) != f:
                self.expect(f"pure-later:{name}", False,
                            f"argument of {name} was modified after the call returned")
        self.watch = []


class steps:
    """Logical-step budget (counts line events of frames under /repo)."""

    def __init__(self, limit):
        self.limit, self.n = limit, 0

    def _tr(self, frame, event, arg):
        if "/qetpy/" not in frame.f_code.co_filename:
            return None
        return self._line

    def _line(self, frame, event, arg):
        self.n += 1
        if self.n > self.limit:
            raise TooManySteps()
        return self._line

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._tr)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


def case_rng(pid, scenario, index, seed):
    return np.random.default_rng([seed & 0x7FFFFFFF, zlib.crc32(pid.encode()),
                                  zlib.crc32(scenario.encode()), index])


# wall clock (inconclusive) and processor time (the slowest case needs about a tenth: it hangs) per case
CASE_LIMIT = float(os.environ.get("QPMON_CASE_LIMIT", "600"))
CPU_LIMIT = float(os.environ.get("QPMON_CPU_LIMIT", "300"))


def _alarm(sig, frm):
    raise CaseTimeout()


def _cpu_alarm(sig, frm):
    raise TooManySteps()


def run_case(mod, pid, scenario, index, seed, tier, purity=False):
    m = Monitor(pid, scenario, index, seed, tier, purity=purity)
    rng = case_rng(pid, scenario, index, seed)
    np.random.seed(int(rng.integers(2**31)))
    res = dict(scenario=scenario, index=index, status="ok")
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    signal.signal(signal.SIGVTALRM, _cpu_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    cpu = time.process_time()
    try:
        mod.SCENARIOS[scenario][0](m, rng)
        m.finish()
    except CodeRaised as e:
        m.expect("raised:" + e.name, False, f"{e}\n{e.tb[-900:]}",
                 mech=f"raised:{e.name}:{type(e.exc).__name__}")
    except Violation:
        pass
    except TooManySteps:
        m.expect("terminates", False, "step or processor-time budget exhausted:\n" + traceback.format_exc()[-600:])
    except CaseTimeout:
        res["status"] = "timeout"
    except (MemoryError, OSError, ImportError, NameError):
        res["status"] = "harness"
        res["error"] = traceback.format_exc()
    except Exception as e:
        # the oracles run cleanly on what the unchanged code returns: a result
        # they cannot even be applied to (missing key, wrong shape/type) is a verdict
        m.expect("unusable-result", False, f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1100:]}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        sys.settrace(None)
        import matplotlib.pyplot as plt
        plt.close("all")
    res.update(calls=m.calls, checks=m.checks, slack=m.slack, viol=m.viol, notes=m.notes, defaulted=m.defaulted,
               cpu=time.process_time() - cpu)
    return res


_G = {}


def _worker(job):
    mod = _G["mod"]
    return run_case(mod, *job)


def load_known():
    """known_findings.txt:  finding: property=<id> mechanism=<tag> :: <what fails>"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            lines = f.read().splitlines()
        for l in lines:
            l = l.strip()
            if l.startswith("finding:"):
                head, what = l[len("finding:"):].split("::", 1)
                d = dict(t.split("=", 1) for t in head.split())
                out[(d["property"], d["mechanism"])] = what.strip()
    return out


# cheap checks run more cases than their scenario tables list (never more than the thorough tier)
QUICK_SCALE = dict(C01=5, C02=4, C03=5, C04=5, C05=4, C06=5, C07=5, C08=5, C09=2, C10=4, C11=4, C12=5, C13=5, C14=5, C17=4,
                   C19=5, C20=5, C22=4, C23=5, C24=3, C27=4, C28=2, C29=5, C30=5)


def main(mod, pid, tier, seed, only=None, purity=False):
    t0 = time.time()
    _G["mod"] = mod
    jobs = []
    for name, (fn, nq, nt) in mod.SCENARIOS.items():
        if only and name not in only:
            continue
        n = nt if tier == "thorough" else max(nq, min(nt, nq * QUICK_SCALE.get(pid, 1)))
        jobs += [(pid, name, i, seed, tier, purity) for i in range(n)]
    # interleave scenarios so that the pool is balanced
    order = np.random.default_rng(0).permutation(len(jobs))
    jobs = [jobs[i] for i in order]
    nproc = min(int(os.environ.get("QPMON_PROCS", os.cpu_count() or 1)), 8, max(1, len(jobs)))
    budget = float(os.environ.get("QPMON_BUDGET", 700 if tier == "quick" else 3000))
    results, aborted = [], False
    known = load_known()
    bad = []

    def fast(r):
        """Whether to stop: a violation is certain and time is running (at once with QPMON_FAILFAST, tools/mutate.py)."""
        if any((pid, v["mech"]) not in known for v in r["viol"]):
            bad.append(r)
        return bool(bad) and (os.environ.get("QPMON_FAILFAST") or time.time() - t0 > 150)
    if nproc == 1:
        for j in jobs:
            results.append(_worker(j))
            if time.time() - t0 > budget or fast(results[-1]):
                aborted = True
                break
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(nproc) as pool:
            it = pool.imap_unordered(_worker, jobs, chunksize=1)
            for _ in jobs:
                left = (150 if bad else budget) - (time.time() - t0)
                try:
                    results.append(it.next(timeout=max(left, 0.01)))
                except mp.TimeoutError:
                    aborted = not bad
                    break
                if fast(results[-1]):
                    break
            pool.terminate()
    results.sort(key=lambda r: (r["scenario"], r["index"]))
    return finish(mod, pid, tier, seed, results, jobs, aborted, t0)


def finish(mod, pid, tier, seed, results, jobs, aborted, t0):
    calls, checks, slack, scen, sigs, samples = {}, {}, {}, {}, set(), []
    viol, harness, timeouts, nontriv = [], [], 0, 0
    defaulted = {}
    for r in results:
        for k, v in r["calls"].items():
            calls[k] = calls.get(k, 0) + v
        for k, v in r["checks"].items():
            checks[k] = checks.get(k, 0) + v
        for k, v in r.get("defaulted", {}).items():
            defaulted[k] = defaulted.get(k, 0) + v
        for k, v in r["slack"].items():
            slack[k] = max(slack.get(k, 0), v)
        sc = scen.setdefault(r["scenario"], [0, 0, 0])
        sc[0] += 1
        sc[1] += sum(r["calls"].values())
        sc[2] += sum(r["checks"].values())
        if r["checks"] and r["calls"]:
            s = (r["scenario"], json.dumps(r["notes"], sort_keys=True, default=str))
            sigs.add(s)
        for v in r["viol"]:
            viol.append(dict(v, scenario=r["scenario"], index=r["index"]))
        if r["status"] == "harness":
            harness.append(r)
        if r["status"] == "timeout":
            timeouts += 1
    seen = {}
    for r in results:
        if r["notes"] and seen.get(r["scenario"], 0) < 2:
            seen[r["scenario"]] = seen.get(r["scenario"], 0) + 1
            samples.append(dict(scenario=r["scenario"], index=r["index"], notes=r["notes"][:4],
                                calls=r["calls"], checks=len(r["checks"])))
    known = load_known()
    real, known_hit = {}, {}
    for v in viol:
        key = (pid, v["mech"])
        if key in known:
            known_hit.setdefault(v["mech"], v)
        else:
            real.setdefault(v["mech"], []).append(v)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=len(results), distinct_nontrivial=len(sigs),
                  rule=(getattr(mod, "RULES", {}).get(pid) or "seeded random workload cases per scenario; a case is "
                        "non-trivial when at least one public call was monitored and at least one oracle judged it, "
                        "distinct by its drawn parameters"),
                  samples=samples[:24],
                  scenarios={k: dict(cases=v[0], monitored_calls=v[1], oracle_checks=v[2]) for k, v in scen.items()},
                  monitored_calls=dict(sorted(calls.items())),
                  oracle_checks=dict(sorted(checks.items())),
                  left_to_default=dict(sorted(defaulted.items())),
                  worst_fraction_of_tolerance={k: round(v, 6) for k, v in sorted(slack.items())},
                  planned_cases=len(jobs), timeouts=timeouts, slowest_case_cpu_s=round(max((r["cpu"] for r in results), default=0), 1), known_findings_seen=sorted(known_hit)),
              assumptions=["verdicts cover the executions listed here only",
                           "numpy/scipy FFT, linear algebra and optimisers used by the oracles are trusted"],
              wall_s=round(time.time() - t0, 3), violations=len(viol) - sum(1 for v in viol if v["mech"] in known_hit))
    edir = os.environ.get("QPMON_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for mech, v in known_hit.items():
        print(f"KNOWN-FINDING: property={pid} {known[(pid, mech)]}")
    if real:
        rdir = os.path.join(edir, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, (mech, vs) in enumerate(sorted(real.items(), key=lambda kv: -len(kv[1]))):
            path = os.path.join(rdir, f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, seed=seed, tier=tier, scenario=vs[0]["scenario"], index=vs[0]["index"],
                               mechanism=mech, count=len(vs), detail=vs[0]["detail"],
                               rerun=f"./check {pid} --replay {path}"), f, indent=1)
            if i < 12:
                print(f"VIOLATION property={pid} replay={path} mechanism={mech} cases={len(vs)} "
                      f"scenario={vs[0]['scenario']}#{vs[0]['index']}")
                print("   " + vs[0]["detail"].replace("\n", "\n   ")[:700])
        return 1
    if harness:
        print(f"HARNESS ERROR in {len(harness)} case(s), first: {harness[0]['scenario']}#{harness[0]['index']}")
        print(harness[0]["error"])
        return 2
    unreached = [k for k, v in scen.items() if v[1] == 0 or v[2] == 0]
    planned = {j[1] for j in jobs}
    unreached += [k for k in planned if k not in scen]
    if timeouts or aborted or unreached or not results:
        print(f"INCONCLUSIVE property={pid} timeouts={timeouts} aborted={aborted} unreached={unreached}")
        return 3
    print(f"HELD property={pid} tier={tier} seed={seed} cases={len(results)} calls={sum(calls.values())} "
          f"checks={sum(checks.values())} wall={time.time()-t0:.1f}s")
    return 0
