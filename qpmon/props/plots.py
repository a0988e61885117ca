"""C32: diagnostic plots show the analysed data in the stated units.

The monitor reads back what was drawn (the artists on the matplotlib axes) and
compares it with the analysed numbers."""
import contextlib, io, os, shutil, tempfile, warnings
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import qetpy as qp
import qetpy.plotting as QP
from scipy.signal import savgol_filter
from .. import didvref as R
from ..core import CodeRaised


@contextlib.contextmanager
def canvas():
    plt.close("all")
    tmp = tempfile.mkdtemp(prefix="qpmon_plot_")
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield tmp, out
    finally:
        plt.close("all")
        shutil.rmtree(tmp)


def new_figs(before=()):
    return [plt.figure(k) for k in plt.get_fignums() if k not in before]


def lines_of(ax):
    """(label, x, y, colour) of every curve that shows something."""
    r = []
    for l in ax.get_lines():
        x, y = np.ravel(l.get_xdata(orig=False)), np.ravel(l.get_ydata(orig=False))
        if len(x) == 0 or l.get_linestyle() in ("None", "none", " ", "") and l.get_marker() in ("None", None, "none", " ", ""):
            continue
        r.append((l.get_label(), np.asarray(x, float), np.asarray(y, float), matplotlib.colors.to_hex(l.get_color())))
    return r


def points_of(ax):
    r = []
    for c in ax.collections:
        if isinstance(c, matplotlib.collections.PathCollection):
            o = np.ma.getdata(c.get_offsets())
            r.append((c.get_label(), o[:, 0], o[:, 1], matplotlib.colors.to_hex(c.get_facecolor()[0])))
    return r


def bars_of(ax):
    """Error bars as arrays of (x0, y0, x1, y1)."""
    r = []
    for c in ax.collections:
        if isinstance(c, matplotlib.collections.LineCollection):
            s = np.array(c.get_segments())
            if s.size:
                r.append(s.reshape(len(s), 4))
    return r


def like(a, b, rtol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    f = np.isfinite(b)
    if not np.array_equal(f, np.isfinite(a)):
        return False
    s = np.max(np.abs(b[f])) if f.any() else 0
    return bool(np.all(np.abs(a[f] - b[f]) <= rtol * s + 1e-300))


def match(m, tag, got, want, exact=True, rtol=1e-9):
    """Every wanted curve (label or None, x, y) is drawn; nothing else is."""
    left = list(got)
    for lab, x, y in want:
        hit = [k for k, g in enumerate(left) if (lab is None or g[0] == lab) and like(g[1], x, rtol) and like(g[2], y, rtol)]
        if not m.expect(tag, bool(hit), f"{tag}: no curve {lab!r} through {np.ravel(x)[:3]}, {np.ravel(y)[:3]} (n={np.size(x)}); drawn: "
                        + "; ".join(f"{g[0]!r} n={len(g[1])} {g[1][:2]} {g[2][:2]}" for g in left)):
            return
        left.pop(hit[0])
    if exact:
        m.expect(tag + ":nothing-else", not left, f"{tag}: also drawn " + "; ".join(f"{g[0]!r} n={len(g[1])}" for g in left))


def legend(ax):
    l = ax.get_legend()
    return None if l is None else [t.get_text() for t in l.get_texts()]


def active(fig):
    return [a for a in fig.axes if a.axison]


# ------------------------------------------------------------------- noise
def scen_noise(m, rng):
    from . import noise as N
    x, fs, gain, nch, nt, n, kind = N.data(rng, nch=int(rng.integers(2, 6)))
    names = list(N.NAMES[:nch])
    rng.shuffle(names)
    o = m.call(qp.Noise, x, fs, names, tracegain=gain, name="a run")
    with canvas() as (tmp, out):
        nothing = [("plot_psd", {}), ("plot_psd", dict(lgcoverlay=False)), ("plot_reim_psd", {}), ("plot_corrcoeff", {}), ("plot_csd", {}),
                   ("plot_decorrelatednoise", {}), ("plot_decorrelatednoise", dict(lgcoverlay=True))]
        k = int(rng.integers(len(nothing)))
        m.call(getattr(o, nothing[k][0]), **nothing[k][1])
        m.expect("uncomputed-draws-nothing", not plt.get_fignums() and bool(out.getvalue()), f"{nothing[k]}")
    for f in (o.calculate_psd, o.calculate_csd, o.calculate_corrcoeff, o.calculate_uncorr_noise):
        m.call(f)
    m.note(nch=nch, nt=nt, n=n)
    fr = np.fft.rfftfreq(n, 1 / fs)[1:]
    top = lambda a: np.sqrt(np.asarray(a)[..., 1:])
    b = lambda: bool(rng.random() < .5)
    with np.errstate(all="ignore"):
        with canvas() as (tmp, out):
            m.call(o.plot_psd, lgcoverlay=True)
            f = new_figs()
            if m.expect("psd:one-figure", len(f) == 1 and len(f[0].axes) == 1):
                ax = f[0].axes[0]
                match(m, "psd:overlay", lines_of(ax), [(c, fr, top(o.psd[i])) for i, c in enumerate(names)])
                m.expect("psd:legend", legend(ax) == names, f"{legend(ax)}")
                m.expect("psd:log-log", ax.get_xscale() == ax.get_yscale() == "log")
        for meth, kw, curves in (
                ("plot_psd", dict(lgcoverlay=False), lambda i: [(None, fr, top(o.psd[i]))]),
                ("plot_reim_psd", {}, lambda i: [("real", fr, top(o.real_psd[i])), ("imag", fr, top(o.imag_psd[i]))])):
            with canvas() as (tmp, out):
                m.call(getattr(o, meth), **kw)
                panels(m, meth, names, curves)
        with canvas() as (tmp, out):
            sm, w = b(), int(rng.choice([5, 7, 9]))
            if len(fr) >= w:
                m.call(o.plot_corrcoeff, lgcsmooth=sm, nwindow=w)
                ax = new_figs()[0].axes[0]
                g = (lambda v: savgol_filter(v, w, 3, mode="nearest")) if sm else (lambda v: v)
                match(m, "corrcoeff", lines_of(ax), [(f"{names[i]} - {names[j]}", fr, g(o.corrcoeff[i][j][1:])) for i in range(nch) for j in range(i)], rtol=1e-7)
                m.expect("corrcoeff:log-frequency", ax.get_xscale() == "log" and ax.get_yscale() == "linear")
        with canvas() as (tmp, out):
            pairs = [(int(rng.integers(nch)), int(rng.integers(nch))) for _ in range(int(rng.integers(1, 4)))]
            re = b()
            m.call(o.plot_csd, whichcsd=[f"{i}{j}" for i, j in pairs], lgcreal=re)
            f = new_figs()
            if m.expect("csd:one-figure-each", len(f) == len(pairs), f"{len(f)} for {pairs}"):
                C = o.real_csd if re else o.imag_csd
                for (i, j), fig in zip(pairs, f):
                    ax = fig.axes[0]
                    match(m, "csd", lines_of(ax), [(None, fr, C[i][j][1:])])
                    m.expect("csd:title", ax.get_title().rstrip().endswith(f"{names[i]}-{names[j]}") and ("Re(" if re else "Im(") in ax.get_title(), ax.get_title())
        with canvas() as (tmp, out):
            bad = [[f"0{nch}"], [f"{nch}0"], [1], ["01", 2]][int(rng.integers(4))]
            m.call(o.plot_csd, whichcsd=bad)
            m.expect("csd:invalid-selection", not plt.get_fignums() and bool(out.getvalue()), f"{bad}")
        with canvas() as (tmp, out):
            m.call(o.plot_decorrelatednoise, lgcoverlay=True)
            ax = new_figs()[0].axes[0]
            match(m, "decorrelated:overlay", lines_of(ax), [(c, fr, top(o.uncorrnoise[i])) for i, c in enumerate(names)])
        with canvas() as (tmp, out):
            kw = dict(lgcdata=b(), lgcuncorrnoise=b(), lgccorrelated=b(), lgcsum=b())
            m.call(o.plot_decorrelatednoise, **kw)

            def cv(i):
                r = []
                if kw["lgcdata"]: r.append(("Data", fr, top(o.real_csd[i][i])))
                if kw["lgcuncorrnoise"]: r.append(("Uncorrelated Noise", fr, top(o.uncorrnoise[i])))
                if kw["lgccorrelated"]: r.append(("Correlated Noise", fr, top(o.corrnoise[i])))
                if kw["lgcsum"]: r.append(("Total Noise", fr, top(o.uncorrnoise[i] + o.corrnoise[i])))
                return r
            panels(m, "decorrelated", names, cv)
        # several data sets with different channels
        c2 = list(rng.permutation(names)[:int(rng.integers(2, nch + 1))])
        n2 = int(rng.integers(8, 60))
        o2 = m.call(qp.Noise, rng.normal(size=(8, len(c2), n2)), fs * 2, [str(v) for v in c2], name="other")
        m.call(o2.calculate_psd)
        un2 = b()
        if un2:
            m.call(o2.calculate_uncorr_noise)
        with canvas() as (tmp, out):
            dec = b()
            ask = [str(v) for v in rng.permutation(names + ["nope"])]
            m.call(QP.compare_noise, [o, o2], ask if b() else np.array(ask), lgcdecorrelatednoise=dec)
            f = new_figs()
            chans = [c for c in ask if c != "nope"]
            if m.expect("compare:figures", [g.axes[0].get_title() for g in f] == chans, f"{ask} {[g.axes[0].get_title() for g in f]}"):
                fr2 = np.fft.rfftfreq(n2, 1 / fs / 2)[1:]
                for c, g in zip(chans, f):
                    i = names.index(c)
                    want = [("a run" + dec * " Decorrelated Noise", fr, top((o.uncorrnoise if dec else o.psd)[i]))]
                    if c in c2 and (un2 or not dec):
                        j = list(c2).index(c)
                        want.append(("other" + dec * " Decorrelated Noise", fr2, top((o2.uncorrnoise if dec else o2.psd)[j])))
                    match(m, "compare", lines_of(g.axes[0]), want)
            m.expect("compare:invalid", "nope" in out.getvalue())
        with canvas() as (tmp, out):
            m.call(QP.compare_noise, [o, o2], names[0])
            m.expect("compare:not-a-list", not plt.get_fignums())


def panels(m, tag, names, curves):
    f = new_figs()
    if not m.expect(tag + ":one-figure", len(f) == 1):
        return
    ax = active(f[0])
    if not m.expect(tag + ":one-panel-per-channel", sorted(a.get_title() for a in ax) == sorted(names), f"{[a.get_title() for a in ax]}"):
        return
    for a in ax:
        match(m, tag, lines_of(a), curves(names.index(a.get_title())))
        m.expect(tag + ":log-log", not curves(0) or a.get_xscale() == a.get_yscale() == "log")


# ---------------------------------------------------------------- simulation
def scen_sim(m, rng):
    from . import tesnoise as T_
    p = T_.draw(rng)
    n = int(rng.integers(10, 200))
    f = np.arange(n) * 10.0 ** rng.uniform(0, 3)
    psd = 10 ** rng.uniform(-24, -20, size=n)
    T = m.call(qp.sim.TESnoise, freqs=f if rng.random() < .5 else None, **p)
    g = f[1:]
    ra = lambda v: np.sqrt(np.abs(v))
    qb = float(10 ** rng.uniform(-6, -3))
    xl = (float(f[1]), float(f[-1])) if rng.random() < .5 else None
    yl = (1e-13, 1e-9) if rng.random() < .5 else None
    m.note(points=n, xl=xl is not None, yl=yl is not None)
    want = {
        "current": [("TES Johnson Noise", T.s_ites), ("Load Noise", T.s_iload), ("TFN Noise", T.s_itfn), ("Total Noise", T.s_itot), ("Squid+Electronics Noise", T.s_isquid)],
        "power": [("TES Johnson Noise", T.s_ptes), ("Load Noise", T.s_pload), ("TFN Noise", T.s_ptfn), ("Total Noise", T.s_ptot), ("Squid+Electronics Noise", T.s_psquid)],
        "sc": [("Load Noise", T.s_iloadsc), ("Total Noise", T.s_itotsc), ("Squid+Electronics Noise", T.s_isquid)],
        "normal": [("TES Johnson Noise", T.s_itesnormal), ("Load Noise", T.s_iloadnormal), ("Total Noise", T.s_itotnormal), ("Squid+Electronics Noise", T.s_isquid)]}
    for ist, w in want.items():
        with canvas() as (tmp, out):
            r = m.call(QP.plot_noise_sim, f, psd, T, ist, qb, xlims=xl, ylims=yl)
            if not m.expect("sim:returns-figure", isinstance(r, tuple) and len(r) == 2):
                return
            fig, ax = r
            raw = np.sqrt(psd[1:]) / (np.abs(T.dIdP(g)) if ist == "power" else 1)
            match(m, "sim:" + ist, lines_of(ax), [(l, g, ra(fn(g))) for l, fn in w] + [("Raw Data", g, raw)])
            m.expect("sim:legend", sorted(legend(ax)) == sorted([l for l, _ in w] + ["Raw Data"]), f"{legend(ax)}")
            m.expect("sim:limits", (xl is None or np.allclose(ax.get_xlim(), xl)) and (yl is None or np.allclose(ax.get_ylim(), yl)), f"{ax.get_xlim()} {ax.get_ylim()}")
            m.expect("sim:log-log", ax.get_xscale() == ax.get_yscale() == "log")
            m.expect("sim:title", (f"{p['r0']*1e3:.2f}" if ist in ("current", "power") else f"{qb*1e6}") in ax.get_title(), ax.get_title())
        if rng.random() < .3:
            with canvas() as (tmp, out):
                m.call(QP.plot_noise_sim, f, psd, T, ist, qb, lgcsave=True, figsavepath=tmp + "/")
                files = os.listdir(tmp)
                m.expect("sim:saved", len(files) == 1 and f"{qb*1e6:.3f}" in files[0], f"{files}")


# ------------------------------------------------------------------ IV curves
def pick(rng, n):
    k = int(rng.integers(4))
    if k == 0:
        return "all", list(range(n))
    if k == 1:
        i = int(rng.integers(n)); return i, [i]
    s = [int(v) for v in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    return (s if k == 2 else np.array(s)), s


def scen_iv(m, rng):
    from . import ibis as I_
    from . import iv as V_
    which = str(rng.choice(["IV", "IBIS"]))
    if which == "IV":
        d = V_.make(rng)
        inds = range(d["nn"])
        if rng.random() < .5:
            # measured the other way around, starting slightly beyond zero bias
            for k in ("dites", "derr", "vb", "verr", "i", "R", "rlf"):
                d[k] = np.ascontiguousarray(d[k][..., ::-1])
            if d["form"] == "full":
                d["rload"] = d["rlf"].copy(); d["rload_err"] = d["rload"] * d["relerr"]
            d["dites"][..., 0] -= 1.05 * d["i"][..., 0]; d["vb"][..., 0] *= -.05
            inds = range(d["n"] - d["nn"], d["n"])
        o = V_.build(m, d, inds); m.call(o.calc_iv)
        T, C = d["T"], d["C"]
    else:
        d = I_.noisy(rng, I_.make(rng))
        o = I_.build(m, d); m.call(o.analyze)
        T, C = d["ntemps"], d["nch"]
    names = list(o.chan_names)
    m.note(which=which, T=T, C=C)
    fns = dict(iv=QP.plot_iv, rv=QP.plot_rv, pv=QP.plot_pv)
    spec = dict(iv=("ites", 1e6), rv=("r0", 1e3), pv=("ptes", 1e12))

    def judge(tag, fig, kind, ts, cs, showfit):
        ax = fig.axes[0]
        a, u = spec[kind]
        V = np.asarray(o.vb) * 1e6; Y = np.asarray(getattr(o, a)) * u; E = np.asarray(getattr(o, a + "_err")) * u
        VE = np.asarray(o.vb_err) * 1e6
        lab = lambda t, c: (f"Temp {t}, Channel {names[c]}" if T > 1 else f"Channel {names[c]}")
        sel = [(t, c) for t in ts for c in cs]
        P = points_of(ax)
        match(m, tag + ":points", P, [(lab(t, c), V[t, c], Y[t, c]) for t, c in sel])
        want = [(None, V[t, c], Y[t, c]) for t, c in sel]
        if showfit and kind == "iv":
            for t, c in sel:
                v = V[t, c]
                lo, hi = (0, v.max()) if v[np.argmax(np.abs(v))] > 0 else (v.min(), 0)
                g = np.linspace(lo, hi, 10)
                want.append((None, g, g / np.asarray(o.rfit)[t, c]))
        L = lines_of(ax)
        match(m, tag + ":lines", L, want, rtol=1e-8)
        # points and their line share a colour, different curves do not
        if len({p[3] for p in P}) != len(P):
            m.expect(tag + ":distinct-colours", False, f"{[p[3] for p in P]}")
        for p in P:
            m.expect(tag + ":colour", any(l[3] == p[3] and like(l[1], p[1]) and like(l[2], p[2]) for l in L))
        B = bars_of(ax)
        nb = 2 if which == "IBIS" else 1
        m.expect(tag + ":bars", len(B) == nb * len(sel), f"{len(B)} sets of error bars for {len(sel)} curves")
        for t, c in sel:
            x, y, e, xe = V[t, c], Y[t, c], E[t, c], VE[t, c]
            want = [np.column_stack([x, y - e, x, y + e])] + ([np.column_stack([x - xe, y, x + xe, y])] if which == "IBIS" else [])
            for w in want:
                ok = any(b.shape == w.shape and all(like(b[:, k], w[:, k], 1e-8) for k in range(4)) for b in B)
                m.expect(tag + ":bar-lengths", ok, f"{tag} no error bars {w[:2]}")
        m.expect(tag + ":legend", sorted(legend(ax)) == sorted(lab(t, c) for t, c in sel), f"{legend(ax)}")

    for kind in ("iv", "rv", "pv"):
        (ta, ts), (ca, cs) = pick(rng, T), pick(rng, C)
        fit = bool(rng.random() < .5)
        kw = dict(showfit=fit) if kind == "iv" else {}
        with canvas() as (tmp, out):
            if which == "IV":
                r = m.call(fns[kind], o, temps=ta, chans=ca, **kw)
                if m.expect("iv:returns-figure", isinstance(r, tuple) and len(r) == 2):
                    m.expect("iv:returned-axes", r[1] is r[0].axes[0])
            else:
                m.call(getattr(o, "plot_" + kind), temps=ta, chans=ca, **kw)
            f = new_figs()
            if m.expect("iv:one-figure", len(f) == 1):
                judge(f"{which}:{kind}", f[0], kind, ts, cs, fit)
    (ta, ts), (ca, cs) = pick(rng, T), pick(rng, C)
    fit = bool(rng.random() < .5)
    with canvas() as (tmp, out):
        if which == "IV" and rng.random() < .5:
            m.call(QP.plot_all_curves, o, temps=ta, chans=ca, showfit=fit)
        else:
            m.call(o.plot_all_curves, temps=ta, chans=ca, showfit=fit)
        f = new_figs()
        if m.expect("iv:three-figures", len(f) == 3):
            for fig, kind in zip(f, ("iv", "rv", "pv")):
                judge(f"{which}:all:{kind}", fig, kind, ts, cs, fit)


# ---------------------------------------------------------------------- dI/dV
def scen_didv(m, rng):
    from . import didv_fit as D_
    poles = int(rng.choice([1, 2, 2, 3, 3]))
    p, a, i = D_.simulate(rng, poles, "hi" if poles > 1 else None, ntr=12, **(dict(noise=float(10 ** rng.uniform(-1.2, -.3))) if rng.random() < .6 else {}))
    flip = bool(rng.random() < .3)
    if flip:
        # data whose drive starts half a period later
        a = dict(a, raw=np.roll(a["raw"], i["P"] // 2, axis=1))
    D = D_.make(m, a, add180phase=flip)
    with contextlib.redirect_stdout(io.StringIO()):
        m.call(D.processtraces)
    done = [k for k in (1, 2, 3) if rng.random() < .8 and k <= poles]
    if rng.random() < .1:
        done = []
    for k in list(done):
        # different cut-offs: the offsets differ, and the best fit is not
        # always the one with most poles
        c = float(rng.choice([2e4, 5e4, 5.5 * i["sg"], 9.5 * i["sg"]]) if k < poles else rng.choice([2e4, 5e4]))
        try:
            D_.fit(m, D, k, **(dict(fcutoff=c) if rng.random() < (.4 if k == poles else .8) else {}))
        except CodeRaised as e:
            # a fit of the wrong order may have no curvature left
            if k == poles and c > 1e4 and poles < 3 or not isinstance(e.exc, np.linalg.LinAlgError):
                raise
            done.remove(k)
    judge_didv(m, rng, D, a, i, done)


def scen_priors(m, rng):
    from . import didv_fit as D_, didv_priors as P_
    poles = int(rng.choice([1, 2]))
    p, a, i, names, truth = P_.problem(rng, poles)
    mean, cov, idx, sd = P_.priors_for(rng, names, truth, poles, .01)
    D = D_.make(m, a, qp.DIDVPriors)
    D_.fit(m, D, poles, priors=mean, priorscov=cov)
    judge_didv(m, rng, D, a, i, [poles])


def judge_didv(m, rng, D, a, i, done):
    res = {k: m.call(D.fitresult, k) for k in done}
    ref = R.process(a["raw"], a["fs"], a["sgfreq"], a["sgamp"], a["rsh"], 1.0, a.get("dutycycle", .5))
    if not m.visible(D, "_time", "_didvmean", "_didvstd", "_freq"):
        return
    t = np.asarray(D._time); T = 1 / a["sgfreq"]
    y = ref["tmean"] - ref["offset"]
    mean, std, freq = np.asarray(D._didvmean), np.asarray(D._didvstd), np.asarray(D._freq)
    par = lambda k: res[k].get("smallsignalparams", res[k]["params"])
    dt = min((res[k]["cost"], res[k]["params"]["dt"]) for k in done)[1] if done else 0.0
    m.note(fits=done, dt=dt, best_is_last=bool(done and dt == res[done[-1]]["params"]["dt"]), costs=[float(res[k]["cost"]) for k in done])
    def curve(k):
        return t + res[k]["params"]["dt"], qp.squarewaveresponse(t, a["sgamp"], a["sgfreq"], a.get("dutycycle", .5), **par(k))

    def selection():
        c = int(rng.integers(4))
        if c == 0:
            return "all", list(done)
        if c == 1:
            k = int(rng.integers(1, 4)); return k, [q for q in done if q == k]
        s = sorted(set(int(v) for v in rng.integers(1, 4, size=2)))
        return (s if c == 2 else np.array(s)), [q for q in done if q in s]

    yscale = np.abs(y).max() * 1e6

    def judge_time(tag, ax, sel, extra=()):
        L = lines_of(ax)
        want = [("Mean", t * 1e6, y * 1e6)] + [(f"{k}-Pole Fit", curve(k)[0] * 1e6, curve(k)[1] * 1e6) for k in sel] + list(extra)
        match(m, tag, L, want, rtol=1e-7)
        m.expect(tag + ":legend", sorted(legend(ax)) == sorted(w[0] for w in want), f"{legend(ax)}")

    for name in ("plot_full_trace", "plot_single_period_of_trace", "plot_zoomed_in_trace", "plot_didv_flipped"):
        arg, sel = selection()
        z = float(rng.uniform(.02, .9))
        with canvas() as (tmp, out):
            m.call(getattr(D, name), poles=arg, **(dict(zoomfactor=z) if "zoom" in name else {}))
            f = new_figs()
            if not m.expect("didv:one-figure", len(f) == 1):
                continue
            ax = f[0].axes[0]
            judge_time("didv:" + name[5:], ax, sel, [("Flipped Data", (t - T / 2) * 1e6, -y * 1e6)] if "flipped" in name else [])
            lim = {"plot_full_trace": (t[0], t[-1]), "plot_single_period_of_trace": (t[0], t[0] + T),
                   "plot_zoomed_in_trace": (dt + t[0] + (.5 - z / 2) * T, dt + t[0] + (.5 + z / 2) * T)}.get(name)
            if lim:
                m.close("didv:limits", np.array(ax.get_xlim()), np.array(lim) * 1e6, rtol=1e-9, detail=name)
    good = (np.abs(mean / std) > 2) & (freq > 0)
    ph = np.exp(2j * np.pi * dt * freq)
    pos = freq > 0
    adm = {k: 1 / R.Z(freq, par(k)) for k in done}
    for name, parts in (("plot_re_im_didv", (np.real, np.imag)), ("plot_abs_phase_didv", (np.abs, np.angle))):
        arg, sel = selection()
        with canvas() as (tmp, out):
            m.call(getattr(D, name), poles=arg)
            f = new_figs()
            if not m.expect("didv:two-figures", len(f) == 2):
                continue
            for fig, fn in zip(f, parts):
                ax = fig.axes[0]; tag = "didv:" + fn.__name__
                pts = fn(mean * ph)[good]
                if fn is np.angle:
                    # the two ends of the circle are the same angle
                    for lst, want in ((points_of(ax), [("Mean", freq[good], pts)]),
                                      (lines_of(ax), [("1-$\\sigma$ Bounds", freq[good], fn((mean + std) * ph)[good]), (None, freq[good], fn((mean - std) * ph)[good])]
                                       + [(f"{k}-Pole Fit", freq[pos], fn(adm[k])[pos]) for k in sel])):
                        left = list(lst)
                        for lab, x, w in want:
                            hit = [q for q, g in enumerate(left) if (lab is None or g[0] == lab) and like(g[1], x) and len(g[2]) == len(w)
                                   and np.all(np.abs(np.exp(1j * g[2]) - np.exp(1j * w)) < 1e-6)]
                            if not m.expect(tag, bool(hit), f"{tag}: no curve {lab}"):
                                break
                            left.pop(hit[0])
                        else:
                            m.expect(tag + ":nothing-else", not left)
                    m.close(tag + ":limits", np.array(ax.get_ylim()), np.array([-np.pi, np.pi]), rtol=1e-9)
                else:
                    match(m, tag + ":points", points_of(ax), [("Mean", freq[good], pts)])
                    match(m, tag + ":curves", lines_of(ax), [("1-$\\sigma$ Bounds", freq[good], fn((mean + std) * ph)[good]), (None, freq[good], fn((mean - std) * ph)[good])]
                          + [(f"{k}-Pole Fit", freq[pos], fn(adm[k])[pos]) for k in sel], rtol=1e-7)
                    low = pts[freq[good] < 1e5]
                    b = max(low.max(), -low.min())
                    m.close(tag + ":limits", np.array(ax.get_ylim()), np.array([0 if fn is np.abs else -b, b]), rtol=1e-9)
                m.close(tag + ":frequency-range", np.array(ax.get_xlim()), np.array([freq[pos].min(), freq[pos].max()]), rtol=1e-9)
                m.expect(tag + ":log-frequency", ax.get_xscale() == "log" and ax.get_yscale() == "linear")
                m.expect(tag + ":legend", sorted(legend(ax)) == sorted(["Mean", "1-$\\sigma$ Bounds"] + [f"{k}-Pole Fit" for k in sel]), f"{legend(ax)}")
    arg, sel = selection()
    with canvas() as (tmp, out):
        m.call(D.plot_re_vs_im_dvdi, poles=arg)
        f = new_figs()
        if m.expect("didv:one-figure", len(f) == 1):
            ax = f[0].axes[0]
            z = 1 / (mean * ph)[good]
            match(m, "didv:impedance:points", points_of(ax), [("Mean", z.real, z.imag)], rtol=1e-7)
            match(m, "didv:impedance:curves", lines_of(ax), [(f"{k}-Pole Fit", (1 / adm[k])[pos].real, (1 / adm[k])[pos].imag) for k in sel], rtol=1e-7)


# ------------------------------------------------------------------ pulse fits
def scen_nonlin(m, rng):
    from . import nonlin as N
    npole = int(rng.choice([1, 2, 3, 4]))
    fs = float(rng.choice([625e3, 1.25e6]))
    n = int(rng.choice([3000, 8001, 12000, 14001, 16384]))
    t0b = int(rng.choice([15, 100, 600, 1500, 4000, 5000])) if n > 9000 else int(rng.choice([15, 100, 600, 1300]))
    x = list(N.draw(rng, npole, fs, t0b))
    kw = {} if npole != 1 else dict(taurise=float(6 / fs))
    _, psd = N.psd_for(rng, n, fs, 1e-18)
    o = m.call(qp.OFnonlin, psd, fs)
    pulse = np.fft.ifft(N.spectrum(npole, x, n, fs, **kw) * np.sqrt(fs * n)).real
    off = float(rng.normal()) * np.abs(pulse).max()
    pulse = pulse + rng.normal(size=n) * np.abs(pulse).max() * 1e-2 + off
    with canvas() as (tmp, out):
        v, e, cov, c2, good = m.call(o.fit_falltimes, pulse, npolefit=npole, guess=tuple(x), lgcfullrtn=True, lgcplot=True, **kw)
        f = new_figs()
        m.note(npole=npole, n=n, t0=t0b)
        if not m.expect("nonlin:one-figure", len(f) == 1 and len(f[0].axes) == 4):
            return
        ax = f[0].axes
        v = np.asarray(v, float)
        full = list(v) if npole != 1 else [v[0], kw["taurise"], v[1], v[2]]
        fr = np.fft.fftfreq(n, 1 / fs); cf = fr > 0
        tt = np.arange(n) / fs
        model = {1: "twopole", 2: "twopole", 3: "threepole", 4: "fourpole"}[npole]
        spec = np.abs(getattr(o, model)(*full))[cf]
        tm = getattr(o, model + "time")(*full)
        F_ = {g[0]: g for g in lines_of(ax[0])}
        m.expect("nonlin:spectra", set(F_) == {"Pulse", "Fit", "$\\sqrt{PSD}$"}, f"{sorted(F_)}")
        if m.viol:
            return
        P = np.abs(np.fft.fft(pulse) / np.sqrt(fs * n))[cf]
        match(m, "nonlin:frequency", lines_of(ax[0]), [("Pulse", fr[cf], P), ("Fit", fr[cf], spec), ("$\\sqrt{PSD}$", fr[cf], np.sqrt(psd)[cf])], rtol=1e-7)
        nb = int(fs * v[-1]) - 1000
        if nb > 0:
            base = np.mean(pulse[:nb])
        elif nb + 10000 < n:
            base = np.mean(pulse[nb + 10000:])
        else:
            base = None             # any baseline level will do, but there must be one
            g = dict((q[0], q[2]) for q in lines_of(ax[2])).get("Pulse")
            if m.expect("nonlin:finite", g is not None and np.all(np.isfinite(g))):
                base = np.mean(pulse - g)
                m.expect("nonlin:baseline", pulse.min() <= base <= pulse.max())
        if base is None:
            return
        match(m, "nonlin:time", lines_of(ax[2]), [("Pulse", tt * 1e3, pulse - base), ("Time Domain", tt * 1e3, tm)], rtol=1e-7)
        Z = lines_of(ax[1])
        # the zoomed panel is a window of the full one, around the pulse
        ok = len(Z) == 2
        if m.expect("nonlin:zoom", ok, f"{len(Z)} curves"):
            for g, w in zip(sorted(Z), sorted(lines_of(ax[2]))):
                k0 = int(round(g[1][0] * 1e-3 * fs)) if len(g[1]) else 0
                m.expect("nonlin:zoom-window", len(g[1]) and like(g[1], w[1][k0:k0 + len(g[1])]) and like(g[2], w[2][k0:k0 + len(g[2])]), g[0])
                it = int(v[-1] * fs)
                m.expect("nonlin:zoom-covers-peak", k0 <= it < k0 + len(g[1]), f"{k0} {it} {len(g[1])}")
        # numbers printed in the legend panel
        txt = [t.get_text() for l in ax[3].get_children() if isinstance(l, matplotlib.legend.Legend) for t in l.get_texts()]
        nums = [f"{v[0]*1e6:.4f} +\\- {e[0]*1e6:.4f}", f"{v[-1]*1e3:.4f} +\\- {e[-1]*1e3:.4f}"]
        if npole == 2:
            nums += [f"{v[1]*1e6:.4f} +\\- {e[1]*1e6:.4f}", f"{v[2]*1e6:.4f} +\\- {e[2]*1e6:.4f}"]
        elif npole == 3:
            nums += [f"{v[k]*1e6:.4f} +\\- {e[k]*1e6:.4f}" for k in (1, 2, 3, 4)]
        elif npole == 4:
            nums += [f"{v[k]*1e6:.4f} +\\- {e[k]*1e6:.4f}" for k in range(1, 7)]
        for q in nums:
            m.expect("nonlin:numbers", any(q in s for s in txt), f"{q} not in {txt}")


def scen_nsmb(m, rng):
    from . import nsmb as S_
    S = S_.Setup(m, rng, nt=int(rng.choice([32, 48, 65, 128])), nb=int(rng.integers(3, 6)))
    x, a0, d0 = S.data(rng)
    amp = rng.normal(size=(S.ns + S.nb, 1)) * 10 ** rng.uniform(-3, 0)
    d = float(rng.integers(-S.nt // 2, S.nt // 2)) / S.fs
    shifts = sorted(int(v) for v in rng.integers(0, S.nt, size=S.nb)) if rng.random() < .5 else None
    xl = (3, S.nt - 5) if rng.random() < .4 else None
    lp = float(S.fs * rng.choice([.02, .1, .3, .5, 2.])) if rng.random() < .5 else None
    m.note(nt=S.nt, nb=S.nb, ns=S.ns, lp=lp)
    X = x.reshape(1, -1)
    with canvas() as (tmp, out):
        m.call(QP.plotnsmb, X.copy(), S.fs, d, amp, S.sf if S.sf.shape[0] == S.ns + S.nb else S.sf.T, S.ns, S.nb, S.nt, S.psddnu.reshape(1, -1),
               lpFiltFreq=lp, xlim=xl, background_templates_shifts=shifts)
        f = new_figs()
        if not m.expect("nsmb:one-figure", len(f) == 1):
            return
        ax = f[0].axes[0]
        bins = np.arange(S.nt, dtype=float)
        sf = S.sf if S.sf.shape[0] == S.ns + S.nb else S.sf.T
        w = 2 * np.pi * np.fft.fftfreq(S.nt, 1 / S.fs)
        comp = np.array([amp[k, 0] * np.real(np.fft.ifft(sf[k] * (np.exp(-1j * np.where(np.arange(S.nt) > S.nt / 2, w, np.abs(w)) * d) if k < S.ns else 1)) * S.nt) for k in range(S.ns + S.nb)])
        tot = comp.sum(axis=0)
        low = comp[-1] + comp[-2]
        L = [g for g in lines_of(ax) if len(g[1]) != 2]
        V = sorted(g[1][0] for g in lines_of(ax) if len(g[1]) == 2)
        filt = lp is not None and lp < S.fs / 2
        want = [("Data", bins, x.ravel())] + [(None, bins, comp[k] + low) for k in range(S.ns, S.ns + S.nb - 2)] + [("Signal Fit", bins, comp[0] + low)]
        if filt:
            want.append(("Data (LP filtered)", bins, qp.utils.lowpassfilter(x.reshape(1, -1), lp, S.fs).ravel()))
        tl = [g for g in L if g[0].startswith("Total Fit")]
        if m.expect("nsmb:total", len(tl) == 1 and like(tl[0][1], bins) and like(tl[0][2], tot, 1e-7), f"{[g[0] for g in L]}"):
            r = np.fft.fft(x.ravel() - tot) / S.nt
            c2 = float(np.sum(np.abs(r) ** 2 / S.psddnu.ravel()))
            q = float(tl[0][0].split("=")[1])
            m.close("nsmb:chi2", q, c2, rtol=1e-6, atol=.051)
        match(m, "nsmb:curves", [g for g in L if not g[0].startswith("Total Fit")], want, rtol=1e-7)
        m.expect("nsmb:start-times", V == ([] if shifts is None else [float(v) for v in shifts]), f"{V} {shifts}")
        m.expect("nsmb:xlim", xl is None or np.allclose(ax.get_xlim(), xl))
        m.expect("nsmb:sample-length", f"{1e6/S.fs:.2f}" in ax.get_xlabel(), ax.get_xlabel())


def scen_nsmb_fit(m, rng):
    """The plot asked of a fit is the plot of what that fit returns."""
    from . import nsmb as S_, saving as W
    S = S_.Setup(m, rng, nt=int(rng.choice([32, 48, 65])), nb=int(rng.integers(3, 5)))
    x, a0, d0 = S.data(rng)
    sh = sorted(int(v) for v in rng.integers(0, S.nt, size=S.nb)) if rng.random() < .5 else None
    m.note(nt=S.nt, nb=S.nb, shifts=sh is not None)
    for k, fn in W.fits(m, rng, S, x, sh):
        with canvas():
            r = fn(lgcplot=True)
            f = new_figs()
            if not m.expect("fit:one-figure", len(f) == 1, k):
                continue
            got = W.snapshot(f[0])
            plt.close("all")
            if k == "of_mb":
                amp, t0 = np.r_[0.0, np.atleast_1d(r[0])], 0.0
            else:
                amp, t0 = np.atleast_1d(r[0]), float(np.ravel(r[1])[0])
            m.call(QP.plotnsmb, x[None, :].copy(), S.fs, t0, amp[:, None], S.sf.T, S.ns, S.nb, S.nt, S.psddnu.T, lpFiltFreq=30e3, background_templates_shifts=sh)
            f = new_figs()
            if m.expect("fit:one-figure", len(f) == 1, k):
                m.expect("fit:picture", W.same(got, W.snapshot(f[0])), f"{k}: drawn {[l[0] for l in got[0]['lines']]}")


SCENARIOS = {"nsmb_fit": (scen_nsmb_fit, 12, 200), "noise": (scen_noise, 16, 250), "sim": (scen_sim, 16, 250), "iv": (scen_iv, 24, 400), "didv": (scen_didv, 40, 400), "priors": (scen_priors, 6, 80),
             "nonlin": (scen_nonlin, 16, 250), "nsmb": (scen_nsmb, 24, 400)}
