"""C34: an option left out means its documented default.

Re-runs the workloads of the other monitors.  Before every public call, three
ways of writing one and the same request are tried on copies of the object and
arguments, from the same random state: with some of the options left out, with
everything given by name (the documented defaults written out), and with
everything given by position in the documented order.  All three must end alike:
same result, same object state, same figures, or the same kind of refusal.
The documented defaults are a frozen table (defaults.json), not the signatures
of the code under test.  Verdicts of the other properties are dropped here."""
import contextlib, copy, importlib, io, math, os, shutil, tempfile
import numpy as np
import matplotlib.pyplot as plt
import qetpy as qp
import qetpy.plotting as QP
from ..core import Monitor, CodeRaised, Violation, CaseTimeout, TooManySteps, DEFAULTS, ORDER, KWONLY, VARARGS, known_as, brief
from .purity import WORK, HEAVY
from .saving import snapshot, listing

PLOTS = ["plots"]
SKIP = {("autocuts", "combined"), ("noise", "compare")}
COST = {("nonlin", "spread"): 0, ("iverr", "spread"): 1, ("of_diag", "ensemble"): 1, ("of", "large"): 1,
        ("didv_priors", "map"): 2, ("didv_priors", "limits"): 1, ("didv_fit", "fit"): 2, ("didv_fit", "relations"): 1,
        ("didv_result", "result"): 2}


def alike(a, b, depth=0):
    """Same content, bit for bit; numbers compare by value."""
    num = (bool, int, float, complex, np.generic)
    if isinstance(a, num) and isinstance(b, num):
        return bool(a == b) or (a != a and b != b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return all(alike(x, y, depth + 1) for x, y in zip(a.ravel(), b.ravel()))
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(alike(a[k], b[k], depth + 1) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(alike(x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, (str, bytes, type(None))) or isinstance(b, (str, bytes, type(None))):
        return a == b
    if type(a) is not type(b):
        return False
    if type(a).__module__.startswith("qetpy") and depth < 4:
        return alike(vars(a), vars(b), depth + 1)
    return True


class Twin:
    """Outcome of one way of writing the request."""

    def __init__(self, fn, args, kw, st):
        obj = getattr(fn, "__self__", None)
        a2, k2 = copy.deepcopy((args, kw))
        self.obj = self.result = self.error = None
        if obj is not None and not isinstance(obj, type):
            self.obj = copy.deepcopy(obj)
            fn = getattr(self.obj, fn.__name__)
        figs = set(plt.get_fignums())
        np.random.set_state(st)
        cwd, tmp = os.getcwd(), tempfile.mkdtemp(prefix="qpmon-")
        try:
            os.chdir(tmp)
            with contextlib.redirect_stdout(io.StringIO()) as out:
                self.result = fn(*a2, **k2)
        except (CaseTimeout, TooManySteps):
            raise
        except Exception as e:
            self.error = e
        finally:
            os.chdir(cwd)
            self.said = out.getvalue()
            self.files = {os.path.relpath(k, tmp) for k in listing(tmp)}
            shutil.rmtree(tmp)
        new = [k for k in plt.get_fignums() if k not in figs]
        self.figs = [snapshot(plt.figure(k)) for k in new]
        for k in new:
            plt.close(k)

    def unlike(self, o):
        if (self.error is None) != (o.error is None):
            return f"one of them raised {self.error or o.error!r}"
        if self.error is not None:
            return None if type(self.error) is type(o.error) else f"{self.error!r} / {o.error!r}"
        if not self.figs and not o.figs and not alike(self.result, o.result):
            return f"results {brief(self.result)} / {brief(o.result)}"
        if self.obj is not None and not alike(vars(self.obj), vars(o.obj)):
            return "different object states: " + ", ".join(
                k for k in vars(self.obj) if not alike(vars(self.obj)[k], vars(o.obj).get(k)))
        if repr(self.figs) != repr(o.figs):
            return "different figures"
        if self.files != o.files:
            return f"different files {sorted(self.files)} / {sorted(o.files)}"
        if self.said != o.said:
            return f"printed {self.said[-200:]!r} / {o.said[-200:]!r}"
        return None


class LeftOut(Monitor):

    def call(self, fn, *args, **kw):
        name = known_as(fn)
        if name and ORDER[name] + KWONLY.get(name, []) and not name.endswith(".save"):
            self.three_ways(name, fn, args, kw)
        return super().call(fn, *args, **kw)

    def raises(self, tag, exc, fn, *args, **kw):
        name = known_as(fn)
        if name and ORDER[name] + KWONLY.get(name, []):
            self.three_ways(name, fn, args, kw)
        return super().raises(tag, exc, fn, *args, **kw)

    def three_ways(self, name, fn, args, kw):
        order, d, only = ORDER[name], DEFAULTS.get(name, {}), KWONLY.get(name, [])
        pos = ()
        if name in VARARGS:
            pos, args = args, ()
        if len(args) > len(order) or any(k not in order + only for k in kw):
            return
        r = self._drop
        given = dict(zip(order, args), **kw)
        # options asked for by the workload are left out in half of the calls
        some = {k: v for k, v in given.items() if k not in d or r.random() < .5}
        if any(k not in some and k not in d for k in order + only):
            return
        full = {k: (some[k] if k in some else d[k]) for k in order + only}
        left = [k for k in order + only if k not in some]
        # the leading required arguments as the workload gave them, the rest by name
        lead = []
        for k in order[:len(args)]:
            if k not in some or k in d:
                break
            lead.append(some[k])
        short = {k: v for k, v in some.items() if k not in order[:len(lead)]}
        st = np.random.get_state()
        reqs = [("left out", pos + tuple(lead), short), ("by name", pos, full)]
        if r.random() < .5 and not pos:
            reqs.append(("by position", tuple(full[k] for k in order), {k: full[k] for k in only}))
        try:
            ends = [Twin(fn, x, y, st) for _, x, y in reqs]
            for (how, x, y), b in zip(reqs[1:], ends[1:]):
                why = ends[0].unlike(b)
                # rounding may differ between identical calls (NumPy and BLAS pick their loops by
                # memory layout): only a difference that stays over several repetitions counts
                one, two = [ends[0]], [b]
                while why is not None and len(one) < 4:
                    one.append(Twin(fn, *reqs[0][1:], st)); two.append(Twin(fn, x, y, st))
                    if any(v.unlike(w) is None for v in one for w in two):
                        why = None
                self.expect(f"leftout:{name}:{how}", why is None,
                            f"{name} leaving out {left} and giving {({k: d[k] for k in left})} {how}: {why}", mech=f"leftout:{name}")
        finally:
            np.random.set_state(st)
        for k in left:
            t = f"{name}:{k}"
            self.defaulted[t] = self.defaulted.get(t, 0) + 1


def wrap(modname, scen):
    def run(m, rng):
        mod = importlib.import_module("qpmon.props." + modname)
        sub = LeftOut(m.pid, scen, m.index, m.seed, m.tier)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                mod.SCENARIOS[scen][0](sub, rng)
        except (CodeRaised, Violation):
            pass
        except (MemoryError, OSError, ImportError, NameError, CaseTimeout):
            raise
        except Exception:
            pass                      # judged by the property the workload belongs to
        m.calls.update(sub.calls)
        m.checks.update({k: v for k, v in sub.checks.items() if k.startswith("leftout:")})
        m.viol += [v for v in sub.viol if v["tag"].startswith("leftout:")]
        m.defaulted.update(sub.defaulted)
        m.notes += sub.notes
        plt.close("all")
    return run


SCENARIOS = {}
for _mod in WORK + PLOTS:
    for _s in importlib.import_module("qpmon.props." + _mod).SCENARIOS:
        if (_mod, _s) in SKIP:
            continue
        _q = COST.get((_mod, _s), HEAVY.get((_mod, _s), 4))
        if _q:
            SCENARIOS[f"{_mod}:{_s}"] = (wrap(_mod, _s), _q, _q * 10)


def scen_functions(m, rng):
    """The plotting functions themselves, and the small helpers, called directly."""
    from . import noise as N_, ibis as I_, nonlin as NL_
    s = LeftOut(m.pid, "functions", m.index, m.seed, m.tier)
    with contextlib.redirect_stdout(io.StringIO()):
        x, fs, gain, nch, nt, n, kind = N_.data(rng, nch=int(rng.integers(2, 5)))
        o = qp.Noise(x, fs, list(N_.NAMES[:nch]), tracegain=gain, name="run")
        for f in (o.calculate_psd, o.calculate_csd, o.calculate_corrcoeff, o.calculate_uncorr_noise):
            f()
        b = lambda: bool(rng.random() < .5)
        for fn, kw in ((QP.plot_psd, dict(lgcoverlay=b())), (QP.plot_reim_psd, {}), (QP.plot_corrcoeff, dict(lgcsmooth=b(), nwindow=5)),
                       (QP.plot_csd, dict(whichcsd=["01"], lgcreal=b())),
                       (QP.plot_decorrelatednoise, dict(lgcoverlay=b(), lgcdata=b(), lgcsum=b(), lgccorrelated=b()))):
            s.call(fn, o, **kw)
            plt.close("all")
        d = I_.noisy(rng, I_.make(rng))
        r = lambda k: d[k].reshape(d["shape"])
        v = qp.IV(r("dites"), r("derr"), r("ibias") * d["rsh"], r("xerr") * d["rsh"], d["rsh"] * 1.5, 0.0, d["names"], normalinds=d["normal"])
        v.calc_iv()
        for fn in (QP.plot_iv, QP.plot_rv, QP.plot_pv, QP.plot_all_curves):
            kw = dict(temps=int(rng.integers(d["ntemps"]))) if b() else {}
            if fn in (QP.plot_iv, QP.plot_all_curves) and b():
                kw["showfit"] = b()
            s.call(fn, v, **kw)
            plt.close("all")
        z = rng.normal(size=(int(rng.integers(2, 9)), int(rng.integers(2, 9)))) * (1 + 1j) + 1j * rng.normal()
        s.call(qp.stdcomplex, z, **(dict(axis=int(rng.integers(2))) if b() else {}))
    m.calls.update(s.calls); m.checks.update(s.checks); m.viol += s.viol; m.defaulted.update(s.defaulted)
    m.note(nch=nch, nt=nt, n=n, kind=kind)


SCENARIOS["functions"] = (scen_functions, 14, 150)
for _k in ("didv_result:falltimes", "ibis:reject", "iv:reject", "outliers:itercov-bad"):
    SCENARIOS.pop(_k)
