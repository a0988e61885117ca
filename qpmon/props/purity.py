"""C31: calls are deterministic and leave their inputs alone.

Re-runs the workloads of every other monitor with the call hook in purity mode:
arguments are fingerprinted before and after each call and again at the end of
the case, functions are called twice, methods are replayed on a deep copy of
the object taken before the call.  The verdicts of the other properties are
dropped here, only the purity observations count.
"""
import contextlib, copy, importlib, io, os, shutil, tempfile
import numpy as np
import matplotlib.pyplot as plt
import qetpy as qp
import qetpy.plotting as QP
from ..core import Monitor, CodeRaised, Violation, fingerprint, near, brief

WORK = ["of", "of_window", "of_equiv", "of_history", "of_pileup", "of_baseline", "of_agree", "of_diag", "nonlin", "nsmb",
        "nsmb_con", "nsmb_build", "impedance", "squarewave", "didv_fit", "didv_result", "didv_process", "didv_priors",
        "resample", "psd", "noise", "ibis", "iv", "iverr", "outliers", "autocuts", "tesnoise", "simload", "traceutils", "calib"]
SKIP = {("traceutils", "negatives"),      # documented to work in place
        ("noise", "history"), ("noise", "compare"), ("ibis", "plots")}      # plots: below
KEEP = ("pure:", "deterministic:", "alias:", "pure-later:")
HEAVY = {("of", "large"): 1, ("of_diag", "ensemble"): 2, ("nonlin", "spread"): 1, ("iverr", "spread"): 1, ("simload", "analytic"): 2,
         ("simload", "transition"): 2, ("simload", "onepole"): 2, ("didv_priors", "map"): 2, ("didv_priors", "limits"): 1,
         ("didv_fit", "fit"): 3, ("didv_fit", "relations"): 1, ("didv_result", "result"): 3, ("autocuts", "combined"): 2}


def same(a, b):
    return fingerprint(a) == fingerprint(b) or near(a, b, 1e-7)


class PureMonitor(Monitor):
    """Also replays methods, on a copy of the object taken before the call."""

    # methods meant to advance the object's state
    CHANGING = ("update_signal", "remove_trace_slope", "save", "__init__")

    def _pure_call(self, name, fn, args, kw):
        obj = getattr(fn, "__self__", None)
        mod = type(obj).__module__ or ""
        replay = obj is not None and not isinstance(obj, type) and mod.startswith("qetpy")
        if replay:
            twin = copy.deepcopy(obj)
            a2, k2 = copy.deepcopy((args, kw))
            st = np.random.get_state()
        r = super()._pure_call(name, fn, args, kw)
        if replay:
            st2 = np.random.get_state()
            np.random.set_state(st)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    r2 = getattr(twin, fn.__name__)(*a2, **k2)
            except Exception as e:
                self.expect(f"deterministic:{name}", False, f"{name}: works on the object but not on its copy: {type(e).__name__}: {e}")
                return r
            finally:
                np.random.set_state(st2)
            self.expect(f"deterministic:{name}", same(r, r2),
                        f"{name}: same call on an identical object gave {brief(r2)} instead of {brief(r)}")
            self.expect(f"deterministic:{name}:state", same(obj, twin),
                        f"{name}: same call on an identical object left a different state")
            if fn.__name__ not in self.CHANGING and getattr(self, "again", True):
                # once more on the same object: same answer, and nothing moves any further
                np.random.set_state(st)
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        r3 = getattr(twin, fn.__name__)(*a2, **k2)
                except Exception as e:
                    self.expect(f"deterministic:{name}:again", False, f"{name}: repeating the call raised {type(e).__name__}: {e}")
                    return r
                finally:
                    np.random.set_state(st2)
                self.expect(f"deterministic:{name}:again", same(r3, r),
                            f"{name}: repeating the call gave {brief(r3)} instead of {brief(r)}")
                self.expect(f"deterministic:{name}:settled", same(obj, twin),
                            f"{name}: repeating the call changed the object further")
        return r


def wrap(modname, scen):
    def run(m, rng):
        mod = importlib.import_module("qpmon.props." + modname)
        sub = PureMonitor(m.pid, scen, m.index, m.seed, m.tier, purity=True)
        plots = len(plt.get_fignums())
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                mod.SCENARIOS[scen][0](sub, rng)
        except CodeRaised as e:
            if "second identical call" in e.name:
                sub.expect("deterministic:" + e.name, False, f"{e}\n{e.tb[-600:]}")
        except Violation:
            pass
        except (MemoryError, OSError, ImportError, NameError):
            raise
        except Exception:
            pass                      # judged by the property the workload belongs to
        sub.finish()
        m.calls.update(sub.calls)
        m.checks.update({k: v for k, v in sub.checks.items() if k.startswith(KEEP)})
        m.viol += [v for v in sub.viol if v["tag"].startswith(KEEP)]
        m.notes += sub.notes
        m.expect("no-stray-files", not os.listdir("."), f"files left in the working directory: {os.listdir('.')}")
        plt.close("all")
    return run


# ---- optional plotting / verbose flags --------------------------------------
@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as o:
        yield o


class Files:
    """cwd moved to an empty directory, plus an output directory."""

    def __enter__(self):
        self.cwd = os.getcwd()
        self.top = tempfile.mkdtemp(prefix="qpmon-")
        self.here, self.out = os.path.join(self.top, "here"), os.path.join(self.top, "out")
        os.mkdir(self.here); os.mkdir(self.out)
        os.chdir(self.here)
        return self

    def new(self):
        """files since last asked: (in the working directory, in the output directory)"""
        r = []
        for d in (self.here, self.out):
            r.append(sorted(os.listdir(d)))
            for x in r[-1]:
                os.remove(os.path.join(d, x))
        return tuple(r)

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.top)
        return False


def same_result(m, tag, a, b):
    m.expect("flag:" + tag, same(a, b), f"{brief(a)} with the option off, {brief(b)} with it on")


def scen_flag_nonlin(m, rng):
    from . import nonlin as N
    npole = int(rng.choice([1, 2, 3, 4]))
    n = int(rng.choice([12000, 14001])); fs = 625e3
    x = N.draw(rng, npole, fs, 4000)
    kw = {} if npole != 1 else dict(taurise=float(6 / fs))
    spec = N.spectrum(npole, x, n, fs, **kw)
    _, psd = N.psd_for(rng, n, fs, np.mean(np.abs(spec) ** 2) * 1e-3)
    pulse = np.fft.ifft(spec * np.sqrt(fs * n)).real
    pulse = pulse + rng.normal(size=n) * np.abs(pulse).max() * 1e-3
    c = pulse.copy()
    full = bool(rng.random() < .5)
    m.note(npole=npole, full=full)
    with Files() as F, quiet():
        r = []
        for p in (False, True):
            o = m.call(qp.OFnonlin, psd, fs)
            r.append(m.call(o.fit_falltimes, pulse, npolefit=npole, guess=tuple(x), lgcfullrtn=full, lgcplot=p, **kw))
        same_result(m, "OFnonlin.lgcplot", *r)
        m.expect("flag:no-files", F.new() == ([], []))
    m.expect("flag:inputs", np.array_equal(c, pulse))


def scen_flag_nsmb(m, rng):
    from . import nsmb as S_
    S = S_.Setup(m, rng, nt=int(rng.choice([32, 48, 65])), nb=int(rng.integers(3, 6)))
    x, a0, d0 = S.data(rng)
    k, w = S.window(rng)
    iP = m.call(qp.of_nsmb_getiP, S.P)
    which = str(rng.choice(["of_nsmb", "of_nsmb_con", "of_mb"]))
    con = np.ones(S.nb) if rng.random() < .5 or which == 'of_nsmb_con' else None
    m.note(which=which)
    shifts = np.arange(S.nb) if rng.random() < .5 else None
    with Files() as F, quiet():
        def run(**f):
            if which == "of_nsmb":
                return m.call(qp.of_nsmb, x.copy(), S.phi, S.sf.T, S.st, iP, S.psddnu.T, S.fs, [w[None, :].copy()],
                              S.ns, S.nb, S.bc, 500, background_templates_shifts=shifts, **f)
            if which == "of_mb":
                return m.call(qp.of_mb, x.copy(), S.phi, S.sf.T, S.st, S.iB, S.Bm, S.psddnu.T, S.fs, S.ns, S.nb, 500,
                              background_templates_shifts=shifts, bkgpolarityconstraint=con, **f)
            return m.call(qp.of_nsmb_con, x.copy(), S.phi, S.Pfs, S.P, S.sf.T, S.st, S.psddnu.T, S.fs, [w[None, :].copy()],
                          S.ns, S.nb, S.bc, 500, background_templates_shifts=shifts, bkgpolarityconstraint=con,
                          sigpolarityconstraint=np.ones(1), **f)
        r0 = run()
        m.expect("flag:no-files", F.new() == ([], []))
        r1 = run(lgcplot=True)
        m.expect("flag:no-files", F.new() == ([], []))
        same_result(m, which + ".lgcplot", r0, r1)
        r2 = run(lgcplot=True, lgcsaveplots=7)
        new = F.new()
        m.expect("flag:saves-one", len(new[0]) == 1 and new[0][0].endswith("7.png"), f"{new}")
        same_result(m, which + ".lgcsaveplots", r0, r2)


def state(o):
    return fingerprint({k: v for k, v in vars(o).items()})


def scen_flag_didv(m, rng):
    from . import didv_fit as D_
    p, a, i = D_.simulate(rng, 1, None, ntr=20)
    D = D_.make(m, a)
    poles = sorted(set(int(v) for v in rng.integers(1, 3, size=2)))
    with quiet():
        m.call(D.processtraces)
        for k in poles:
            D_.fit(m, D, k)
    res = {k: copy.deepcopy(m.call(D.fitresult, k)) for k in poles}
    s0 = state(D)
    m.note(poles=poles)
    files = dict(plot_full_trace=["full_trace_"], plot_single_period_of_trace=["trace_one_period_"],
                 plot_zoomed_in_trace=["zoomed_in_trace_"], plot_didv_flipped=["flipped_trace_"],
                 plot_re_im_didv=["didv_imag_", "didv_real_"], plot_abs_phase_didv=["didv_abs_", "didv_phase_"],
                 plot_re_vs_im_dvdi=["dvdi_real_vs_imag_"])
    with Files() as F, quiet():
        for name, stems in files.items():
            which = ["all", poles[0], poles, np.array(poles)][int(rng.integers(4))]
            save = bool(rng.random() < .5)
            kw = dict(saveplot=True, savepath=F.out + "/", savename="run 1") if save else {}
            m.call(getattr(D, name), poles=which, **kw)
            new = F.new()
            m.expect("flag:didv-files", new == ([], sorted(s + "run 1.png" for s in stems) if save else []), f"{name} save={save}: {new}")
            plt.close("all")
    m.expect("flag:didv-plots-pure", state(D) == s0 and all(same(m.call(D.fitresult, k), v) for k, v in res.items()))


def scen_flag_iv(m, rng):
    from . import ibis as I_
    d = I_.noisy(rng, I_.make(rng))
    iv = bool(rng.random() < .5)
    with quiet():
        if iv:
            r = lambda k: d[k].reshape(d["shape"])
            o = m.call(qp.IV, r("dites"), r("derr"), r("ibias") * d["rsh"], r("xerr") * d["rsh"], d["rsh"] * 1.5, 0.0, d["names"], normalinds=d["normal"])
            m.call(o.calc_iv)
        else:
            o = I_.build(m, d); m.call(o.analyze)
    m.note(iv=iv, shape=list(d["shape"]))
    s0 = state(o)
    with Files() as F, quiet():
        for which, pre in (("plot_iv", "iv"), ("plot_rv", "rv"), ("plot_pv", "pv")):
            t = ["all", 0, list(range(d["ntemps"])), np.arange(d["ntemps"])][int(rng.integers(4))]
            c = ["all", 0, list(range(d["nch"])), np.arange(d["nch"])][int(rng.integers(4))]
            save = bool(rng.random() < .5)
            kw = dict(lgcsave=True, savepath=F.out + "/", savename=which) if save else {}
            m.call(getattr(o, which), temps=t, chans=c, **kw)
            new = F.new()
            m.expect("flag:iv-files", new == ([], [f"{pre}_curve_{which}.png"] if save else []), f"{which} {new}")
        m.call(o.plot_all_curves, lgcsave=True, savepath=F.out + "/", savename="all")
        m.expect("flag:iv-files", F.new() == ([], sorted(f"{p}_curve_all.png" for p in ("iv", "rv", "pv"))))
        m.call(o.plot_all_curves)
        m.expect("flag:iv-files", F.new() == ([], []))
        plt.close("all")
    m.expect("flag:iv-plots-pure", state(o) == s0)


def scen_flag_noise(m, rng):
    from . import noise as N_
    x, fs, gain, nch, nt, n, kind = N_.data(rng, nch=int(rng.integers(2, 5)))
    o = m.call(qp.Noise, x, fs, list(N_.NAMES[:nch]), tracegain=gain, name="my run")
    for f in (o.calculate_psd, o.calculate_csd, o.calculate_corrcoeff, o.calculate_uncorr_noise):
        m.call(f)
    s0 = state(o)
    m.note(nch=nch, nt=nt, n=n)
    b = lambda: bool(rng.random() < .5)
    plans = [("plot_psd", dict(lgcoverlay=b())), ("plot_reim_psd", {}), ("plot_corrcoeff", dict(lgcsmooth=b(), nwindow=5)),
             ("plot_csd", dict(whichcsd=["01"], lgcreal=b())), ("plot_decorrelatednoise", dict(lgcoverlay=b(), lgcsum=b(), lgccorrelated=b()))]
    with Files() as F, quiet():
        for name, kw in plans:
            save = b()
            kw = dict(kw, lgcsave=True, savepath=F.out + "/") if save else kw
            m.call(getattr(o, name), **kw)
            new = F.new()
            m.expect("flag:noise-files", new[0] == [] and len(new[1]) == int(save) and all(q.startswith("my_run") for q in new[1]), f"{name} {save} {new}")
            plt.close("all")
        save = b()
        m.call(QP.compare_noise, [o, o], N_.NAMES[:nch], lgcdecorrelatednoise=b(), **(dict(lgcsave=True, savepath=F.out + "/") if save else {}))
        m.expect("flag:noise-files", F.new() == ([], sorted(f"{c}_PSD_comparison.png" for c in N_.NAMES[:nch]) if save else []))
        plt.close("all")
    m.expect("flag:noise-plots-pure", state(o) == s0)


def scen_flag_sim(m, rng):
    from . import tesnoise as T_
    p = T_.draw(rng)
    n = int(rng.integers(20, 200))
    f = np.arange(n) * 10.0 ** rng.uniform(0, 2)
    psd = 10 ** rng.uniform(-24, -22, size=n)
    T = m.call(qp.sim.TESnoise, freqs=f if rng.random() < .5 else None, **p)
    s0 = state(T); c = (f.copy(), psd.copy())
    with Files() as F, quiet():
        for istype, stem in (("current", "current_"), ("power", "power_noise_"), ("sc", "SC_noise_"), ("normal", "normal_noise_")):
            save = bool(rng.random() < .5)
            m.call(QP.plot_noise_sim, f, psd, T, "".join(list(istype)), 80e-6, **(dict(lgcsave=True, figsavepath=F.out + "/") if save else {}))
            new = F.new()
            m.expect("flag:sim-files", new[0] == [] and len(new[1]) == int(save) and all(q.startswith(stem) and q.endswith(".png") for q in new[1]), f"{istype} {new}")
            plt.close("all")
    m.note(points=n)
    m.expect("flag:sim-plots-pure", state(T) == s0 and np.array_equal(c[0], f) and np.array_equal(c[1], psd))


SCENARIOS = {}
for _mod in WORK:
    for _s in importlib.import_module("qpmon.props." + _mod).SCENARIOS:
        if (_mod, _s) in SKIP:
            continue
        _q = HEAVY.get((_mod, _s), 8)
        SCENARIOS[f"{_mod}:{_s}"] = (wrap(_mod, _s), _q, _q * 12)
SCENARIOS.update({
    "flag:nonlin": (scen_flag_nonlin, 4, 60), "flag:nsmb": (scen_flag_nsmb, 8, 120), "flag:didv": (scen_flag_didv, 3, 40),
    "flag:iv": (scen_flag_iv, 6, 80), "flag:noise": (scen_flag_noise, 5, 60), "flag:sim": (scen_flag_sim, 4, 60),
})
