"""C33: saved figures and objects.

Monitor: Figure.savefig is hooked, so what is on every figure at the moment it
is written is recorded and compared with what the same call shows when saving is
off; the scratch working directory and the scratch target directory are listed
and hashed around every call."""
import contextlib, hashlib, io, os
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
import qetpy as qp
import qetpy.plotting as QP
from .plots import canvas, new_figs, lines_of, points_of, bars_of, legend


def snapshot(fig):
    r = []
    for ax in fig.axes:
        r.append(dict(
            lines=[(a, x.tolist(), y.tolist()) for a, x, y, _ in lines_of(ax)],
            points=[(a, x.tolist(), y.tolist()) for a, x, y, _ in points_of(ax)],
            bars=[b.tolist() for b in bars_of(ax)], title=ax.get_title(), xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(),
            legend=legend(ax), xlim=tuple(ax.get_xlim()), ylim=tuple(ax.get_ylim()), xscale=ax.get_xscale(), yscale=ax.get_yscale(), on=ax.axison))
    return r


def same(a, b):
    return repr(a) == repr(b)


@contextlib.contextmanager
def hooked():
    """Record (path, picture) of every figure at the moment it is saved."""
    log, orig = [], Figure.savefig

    def savefig(self, fname, *a, **kw):
        log.append((os.path.abspath(str(fname)), snapshot(self)))
        kw.setdefault("dpi", 20)             # content, not resolution, is judged
        return orig(self, fname, *a, **kw)
    Figure.savefig = savefig
    try:
        yield log
    finally:
        Figure.savefig = orig


def listing(d):
    r = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                r[p] = hashlib.sha1(h.read()).hexdigest()
    return r


def exercise(m, rng, plots, tokens):
    """plots: list of (kind, call(**saving keywords), off keywords, function of
    (directory, token) giving the saving keywords, expects its figures in
    the working directory)."""
    here = os.getcwd()
    with canvas() as (tmp, out):
        cwd, target = os.path.join(tmp, "cwd"), os.path.join(tmp, "out")
        os.mkdir(cwd); os.mkdir(target)
        os.chdir(cwd)
        try:
            for kind, fn, off, on, in_cwd in plots:
                before = listing(tmp)
                plt.close("all")
                with hooked() as log:
                    fn(**off)
                shown = [snapshot(f) for f in new_figs()]
                m.expect("not-asked:nothing-written", listing(tmp) == before and not log, f"{kind}: {[p for p, _ in log]}")
                m.expect("shown", len(shown) > 0, kind)
                for tok in tokens:
                    before = listing(tmp)
                    plt.close("all")
                    with hooked() as log:
                        fn(**on(target + "/", tok))
                    after = listing(tmp)
                    new = sorted(set(after) - set(before))
                    m.expect("every-figure-saved", len(log) == len(shown) and len(new) == len(shown),
                             f"{kind}: {len(shown)} figures, {len(log)} saved, new files {[os.path.basename(p) for p in new]}; {out.getvalue()[-200:]}", mech="every-figure-saved:" + kind)
                    m.expect("right-directory", all(os.path.dirname(p) == (cwd if in_cwd else target) for p in new), f"{kind}: {new}", mech="right-directory:" + kind)
                    m.expect("nothing-overwritten", all(after.get(p) == h for p, h in before.items()),
                             f"{kind}: {[p for p, h in before.items() if after.get(p) != h]}", mech="nothing-overwritten:" + kind)
                    m.expect("carries-the-name", all(str(tok).replace(" ", "_") in os.path.basename(p) for p in new), f"{kind} {tok}: {new}", mech="carries-the-name:" + kind)
                    for p in new:
                        try:
                            ok = p.endswith(".png") and min(plt.imread(p).shape[:2]) > 20
                        except Exception as e:      # unreadable image
                            ok = False
                        m.expect("readable-image", ok, f"{kind} {p}")
                    for k, (a, (p, b)) in enumerate(zip(shown, log)):
                        m.expect("saved-as-shown", same(a, b), f"{kind} figure {k} ({os.path.basename(p)}) differs from what is shown", mech="saved-as-shown:" + kind)
        finally:
            os.chdir(here)


def scen_noise(m, rng):
    from . import noise as N
    x, fs, gain, nch, nt, n, kind = N.data(rng, nch=int(rng.integers(2, 5)))
    names = list(N.NAMES[:nch])
    o = m.call(qp.Noise, x, fs, names, tracegain=gain, name="?")
    for f in (o.calculate_psd, o.calculate_csd, o.calculate_corrcoeff, o.calculate_uncorr_noise):
        m.call(f)
    pairs = [f"{i}{j}" for i in range(nch) for j in range(nch)]
    pairs = [pairs[k] for k in rng.permutation(len(pairs))[:int(rng.integers(1, 4))]]
    b = lambda: bool(rng.random() < .5)
    todo = [("plot_psd", dict(lgcoverlay=True)), ("plot_psd", dict(lgcoverlay=False)), ("plot_reim_psd", {}), ("plot_corrcoeff", dict(nwindow=5, lgcsmooth=b())),
            ("plot_csd", dict(whichcsd=pairs, lgcreal=b())), ("plot_decorrelatednoise", dict(lgcoverlay=True)),
            ("plot_decorrelatednoise", dict(lgcoverlay=False, lgcdata=True, lgccorrelated=b(), lgcsum=b()))]
    toks = ["run 1", "a b c"] if rng.random() < .5 else ["x1"]
    m.note(nch=nch, n=n, pairs=pairs, names=toks)
    method = b()

    def saver(meth, kw):
        def fn(name=None, **sv):
            o.name = name or "shown"
            if method:
                m.call(getattr(o, meth), **kw, **sv)
            else:
                m.call(getattr(QP, meth), o, **kw, **sv)
        return fn
    # the picture carries the data set's name: show it under that name
    for tok in toks:
        exercise(m, rng, [(meth + str(kw.get("lgcoverlay", "")), saver(meth, kw), dict(name=tok), lambda d, t: dict(name=t, lgcsave=True, savepath=d), False)
                          for meth, kw in [todo[k] for k in rng.permutation(len(todo))]], [tok])
    # all data sets into one directory
    o2 = m.call(qp.Noise, rng.normal(size=(6, nch, 20)), fs, names, name="second set")
    m.call(o2.calculate_psd)
    with canvas() as (tmp, out):
        for tok, q in (("first", o), ("second set", o2)):
            q.name = tok
            m.call(q.plot_psd, lgcsave=True, savepath=tmp + "/")
            m.call(q.plot_reim_psd, lgcsave=True, savepath=tmp + "/")
            m.call(q.save, tmp)
        got = os.listdir(tmp)
        m.expect("data-sets-apart", len(got) == 6 and sum("second_set" in g for g in got) == 3, f"{got}")
    exercise(m, rng, [("compare_noise", lambda **k: m.call(QP.compare_noise, [o, o2], names + ["nope"], **k), {},
                       lambda d, t: dict(lgcsave=True, savepath=d), False)], [""])


def scen_iv(m, rng):
    from . import ibis as I_
    from . import iv as V_
    which = str(rng.choice(["IV", "IBIS"]))
    if which == "IV":
        d = V_.make(rng)
        o = V_.build(m, d, range(d["nn"])); m.call(o.calc_iv)
    else:
        d = I_.noisy(rng, I_.make(rng))
        o = I_.build(m, d); m.call(o.analyze)
    fit = bool(rng.random() < .5)
    m.note(which=which, fit=fit)
    on = lambda d_, t: dict(lgcsave=True, savepath=d_, savename=t)
    todo = [("iv", dict(showfit=fit)), ("rv", {}), ("pv", {})]
    exercise(m, rng, [(f"{which}:{k}", (lambda k=k, kw=kw, **sv: m.call(getattr(o, "plot_" + k), **kw, **sv)), {}, on, False)
                      for k, kw in [todo[j] for j in rng.permutation(3)]], ["dev1", "dev2"])
    exercise(m, rng, [(f"{which}:all", lambda **sv: m.call(o.plot_all_curves, showfit=fit, **sv), {}, on, False)], ["all_curves"])
    if which == "IV":
        exercise(m, rng, [(f"fn:{k}", (lambda k=k, kw=kw, **sv: m.call(getattr(QP, "plot_" + k), o, **kw, **sv)), {}, on, False) for k, kw in todo], ["f"])


def scen_didv(m, rng):
    from . import didv_fit as D_
    poles = int(rng.choice([1, 2]))
    p, a, i = D_.simulate(rng, poles, "hi" if poles > 1 else None, ntr=8)
    D = D_.make(m, a)
    D_.fit(m, D, poles)
    on = lambda d_, t: dict(saveplot=True, savepath=d_, savename=t)
    sel = ["all", poles, [1, 2]][int(rng.integers(3))]
    todo = ["plot_full_trace", "plot_single_period_of_trace", "plot_zoomed_in_trace", "plot_didv_flipped", "plot_re_im_didv", "plot_abs_phase_didv", "plot_re_vs_im_dvdi"]
    m.note(poles=poles, sel=str(sel))
    exercise(m, rng, [(k, (lambda k=k, **sv: m.call(getattr(D, k), poles=sel, **sv)), {}, on, False) for k in [todo[j] for j in rng.permutation(len(todo))]],
             ["a1", "b2"])


def scen_sim(m, rng):
    from . import tesnoise as T_
    p = T_.draw(rng)
    n = int(rng.integers(10, 100))
    f = np.arange(n) * 10.0 ** rng.uniform(0, 3)
    psd = 10 ** rng.uniform(-24, -20, size=n)
    T = m.call(qp.sim.TESnoise, freqs=f, **p)
    m.note(points=n)
    q = [float(v) for v in np.round(10 ** rng.uniform(-1, 3, size=2), 3) * 1e-6]
    q[1] += 5e-6
    for qb in q:
        exercise(m, rng, [(ist, (lambda ist=ist, **sv: m.call(QP.plot_noise_sim, f, psd, T, ist, qb, **sv)), {},
                           lambda d_, t: dict(lgcsave=True, figsavepath=d_), False) for ist in rng.permutation(["current", "power", "sc", "normal"])], [f"{qb*1e6:.3f}"])
    # two bias points into one directory
    with canvas() as (tmp, out):
        for qb in q:
            for ist in ("sc", "normal", "current"):
                m.call(QP.plot_noise_sim, f, psd, T, ist, qb, lgcsave=True, figsavepath=tmp + "/")
        m.expect("bias-points-apart", len(os.listdir(tmp)) == 6, f"{os.listdir(tmp)}")


def scen_nsmb(m, rng):
    from . import nsmb as S_
    S = S_.Setup(m, rng, nt=int(rng.choice([32, 48])), nb=int(rng.integers(3, 5)))
    x, a0, d0 = S.data(rng)
    sh = sorted(int(v) for v in rng.integers(0, S.nt, size=S.nb)) if rng.random() < .5 else None
    m.note(nt=S.nt, nb=S.nb, shifts=sh is not None)
    todo = fits(m, rng, S, x, sh)
    exercise(m, rng, [(k, f, dict(lgcplot=True), lambda d, t: dict(lgcplot=True, lgcsaveplots=t), True) for k, f in todo], [1, 7])
    with canvas() as (tmp, out), hooked() as log:
        for k, f in todo:
            f(lgcplot=False)
        m.expect("nsmb:no-plot", not plt.get_fignums() and not log)
    A, D = rng.normal(size=(S.ns + S.nb, 1)), float(rng.integers(0, 9)) / S.fs
    exercise(m, rng, [("plotnsmb", lambda **sv: m.call(QP.plotnsmb, x[None, :].copy(), S.fs, D, A, S.sf.T, S.ns, S.nb, S.nt, S.psddnu.T, background_templates_shifts=sh, **sv),
                       {}, lambda d, t: dict(lgcsaveplots=3, figPrefix=t, savepath=d), False)], ["fitA", "fitB"])


def fits(m, rng, S, x, sh):
    """The three multi-template fits, each on its own file number."""
    iP = m.call(qp.of_nsmb_getiP, S.P)
    win = np.arange(-3, 4)[None, :]
    sig = np.sign(rng.integers(-1, 2, size=S.ns)).astype(float)
    bk = rng.choice([-1, 0, 1], size=S.nb).astype(float)
    kw = dict(background_templates_shifts=sh)
    num = lambda sv, o: dict(sv, lgcsaveplots=sv["lgcsaveplots"] * 10 + o) if "lgcsaveplots" in sv else sv
    con = dict(bkgpolarityconstraint=bk, sigpolarityconstraint=sig)
    quiet = contextlib.redirect_stdout(io.StringIO())

    def fcon(**sv):
        with quiet:
            return m.call(qp.of_nsmb_con, x.copy(), S.phi, S.Pfs, S.P, S.sf.T, S.st, S.psddnu.T, S.fs, [win], S.ns, S.nb, S.bc, 500, **con, **kw, **num(sv, 2))
    return [("of_nsmb", lambda **sv: m.call(qp.of_nsmb, x.copy(), S.phi, S.sf.T, S.st, iP, S.psddnu.T, S.fs, [win], S.ns, S.nb, S.bc, 500, **kw, **num(sv, 1))),
            ("of_nsmb_con", fcon),
            ("of_mb", lambda **sv: m.call(qp.of_mb, x.copy(), S.phi, S.sf.T, S.st, S.iB, S.Bm, S.psddnu.T, S.fs, S.ns, S.nb, 500, **con, **kw, **num(sv, 1)))]


SCENARIOS = {"noise": (scen_noise, 5, 80), "iv": (scen_iv, 8, 120), "didv": (scen_didv, 5, 80), "sim": (scen_sim, 6, 100), "nsmb": (scen_nsmb, 6, 100)}
