"""C21: multi-channel noise analysis is self-consistent."""
import os, pickle, tempfile, shutil
import numpy as np
from scipy.signal import detrend
from qetpy import Noise
import qetpy.plotting as P
from ..core import near

NAMES = ["PAS1", "PBS1", "PCS1", "PDS1", "PES1"]


def data(rng, nch=None, nmin=2):
    nch = nch or int(rng.integers(1, 5))
    nt = int(rng.integers(max(nmin, nch + 1), 14)); n = int(rng.choice([16, 17, 33, 64, int(rng.integers(8, 120))]))
    if rng.random() < .015:
        n = int(rng.choice([1000, 1001, 2048, int(rng.integers(4096, 5000))])); nt = nch + 2
    elif rng.random() < .015:
        nt = int(rng.integers(60, 300))
    mix = rng.normal(size=(nch, nch)) * .6 + np.eye(nch)
    kind = str(rng.choice(["mixed", "independent", "scaled", "anticorrelated"]))
    x = rng.normal(size=(nt, nch, n))
    if kind == "mixed":
        x = np.einsum("ij,tjn->tin", mix, x)
    elif kind == "scaled":
        x = x * 10 ** rng.uniform(-4, 4, size=(1, nch, 1))
    elif kind == "anticorrelated" and nch > 1:
        x[:, 1] = -x[:, 0] + .3 * x[:, 1]
    x = x * 10 ** rng.uniform(-9, 2) + (rng.normal(size=(1, nch, 1)) * 1e-3 if rng.random() < .3 else 0)
    if rng.random() < .15:      # digitiser counts
        x = x - x.mean(axis=(0, 2), keepdims=True)
        x = np.rint(x / np.abs(x).max(axis=(0, 2), keepdims=True) * 30000 + rng.integers(-2000, 2000)).astype(rng.choice(["i2", "i4", "i8"]))
    fs = float(10 ** rng.uniform(0, 6.5)); gain = float(rng.choice([1.0, -1, 10 ** rng.uniform(-3, 6)]))
    return x, fs, gain, nch, nt, n, kind


def scen_psd(m, rng):
    x, fs, gain, nch, nt, n, kind = data(rng)
    two = nch == 1 and rng.random() < .5
    arg = x[:, 0] if two else x
    m.note(nch=nch, nt=nt, n=n, kind=kind, fs=fs, gain=gain, twodim=bool(two))
    c = arg.copy()
    o = m.call(Noise, arg, fs, NAMES[:nch], tracegain=gain)
    m.call(o.calculate_psd)
    m.expect("unmodified", np.array_equal(c, arg))
    y = x / gain
    w = np.abs(np.fft.fft(y)) ** 2 / (n * fs)
    two_sided = w.mean(axis=0)
    h = n // 2 + 1
    ref = two_sided[:, :h].copy()
    ref[:, 1:(n + 1) // 2] *= 2
    sc = ref.max(axis=-1, keepdims=True)
    m.expect("psd-shape", o.psd.shape == (nch, h), f"{o.psd.shape}")
    if m.viol:
        return
    m.close("freqs", o.freqs, np.fft.rfftfreq(n, 1 / fs), rtol=1e-12)
    m.close("psd", o.psd / sc, ref / sc, rtol=0, atol=1e-10, detail=f"n={n}")
    m.close("power", o.psd.sum(axis=-1) * fs / n / (y ** 2).mean(axis=(0, 2)), np.ones(nch), rtol=1e-9)
    m.expect("split:non-negative", np.all(o.real_psd >= 0) and np.all(o.imag_psd >= 0))
    m.close("split", (o.real_psd + o.imag_psd) / sc, o.psd / sc, rtol=0, atol=1e-12)
    fac = np.where((np.arange(h) > 0) & (np.arange(h) < (n + 1) // 2), 2.0, 1.0)
    m.close("real", o.real_psd / sc, (np.real(np.fft.rfft(y)) ** 2).mean(axis=0) * fac / (n * fs) / sc, rtol=0, atol=1e-10)
    m.close("time-axis", o.time, np.arange(n) / fs, rtol=1e-12)
    m.expect("names", [o.chandict[k] for k in NAMES[:nch]] == list(range(nch)))
    b = float(10 ** rng.uniform(-3, 3))
    o2 = m.call(Noise, arg, fs, NAMES[:nch], tracegain=gain * b)
    m.call(o2.calculate_psd)
    m.close("gain", o2.psd * b ** 2 / sc, o.psd / sc, rtol=1e-9)
    # the object keeps what it was built from
    tm = np.arange(n) / fs - float(rng.normal()) if rng.random() < .5 else None
    nm = str(rng.choice(["noise", "my noise 3"]))
    o4 = m.call(Noise, arg, fs, NAMES[:nch], tracegain=gain, name=nm, time=tm)
    m.expect("attributes", o4.fs == fs and list(o4.channames) == NAMES[:nch] and o4.name == nm and o4.tracegain == gain
             and np.allclose(o4.traces, x / gain, rtol=1e-14, atol=0), f"{o4.fs} {o4.channames} {o4.name} {o4.tracegain}")
    m.close("time-given", o4.time, np.arange(n) / fs if tm is None else tm, rtol=1e-12)
    m.call(o4.calculate_psd)
    m.close("psd-with-time", o4.psd / sc, o.psd / sc, rtol=1e-12)
    m.raises("one-trace", ValueError, Noise, x[0, 0], fs, NAMES[:1])
    m.raises("name-count", ValueError, Noise, x, fs, NAMES[:nch + 1])
    if nch == 1:
        m.raises("corr-needs-two", ValueError, o.calculate_corrcoeff)
        m.raises("csd-needs-two", ValueError, o.calculate_csd)
    # a channel by itself gives the same
    k = int(rng.integers(nch))
    o3 = m.call(Noise, x[:, k:k + 1], fs, [NAMES[k]], tracegain=gain)
    m.call(o3.calculate_psd)
    m.close("channel-alone", o3.psd[0] / sc[k], o.psd[k] / sc[k], rtol=1e-12)


def csd_ref(x, y, fs):
    n = x.shape[-1]
    k = np.arange(n)
    win = .5 - .5 * np.cos(2 * np.pi * k / n)
    X = np.fft.rfft((x - x.mean(axis=-1, keepdims=True)) * win)
    Y = np.fft.rfft((y - y.mean(axis=-1, keepdims=True)) * win)
    s = np.conj(X) * Y / (fs * (win ** 2).sum())
    s[..., 1:(n + 1) // 2] *= 2
    return s


def scen_csd(m, rng):
    x, fs, gain, nch, nt, n, kind = data(rng, nch=int(rng.integers(2, 5)))
    m.note(nch=nch, nt=nt, n=n, kind=kind, fs=fs, gain=gain)
    o = m.call(Noise, x, fs, NAMES[:nch], tracegain=gain)
    order = str(rng.choice(["csd", "uncorr", "psd,csd", "csd,csd"]))
    if order == "uncorr":
        m.call(o.calculate_uncorr_noise)
    else:
        if "psd" in order:
            m.call(o.calculate_psd)
        m.call(o.calculate_csd)
        if order == "csd,csd":
            m.call(o.calculate_csd)
    h = n // 2 + 1
    C = o.csd
    m.expect("csd-shape", C.shape == (nch, nch, h) and o.real_csd.shape == C.shape, f"{C.shape}")
    if m.viol:
        return
    y = x / gain
    d = np.sqrt(np.abs(np.array([C[i, i] for i in range(nch)])))   # (nch, h)
    g = d[:, None] * d[None, :]
    m.close("hermitian", C / g, np.conj(np.swapaxes(C, 0, 1)) / g, rtol=0, atol=1e-10)
    m.expect("bounded", np.all(np.abs(C) <= g * (1 + 1e-9)), f"{np.max(np.abs(C)/g)}")
    ev = min(np.linalg.eigvalsh((C / g)[:, :, k]).min() for k in range(h))
    m.expect("positive", ev > -1e-9, f"{ev}")
    G = g.max(axis=-1, keepdims=True)
    m.expect("diagonal-real", np.all(np.abs([C[i, i].imag for i in range(nch)]) <= 1e-12 * d ** 2))
    R = np.empty_like(C); S = np.empty(C.shape); T = np.empty(C.shape)
    for i in range(nch):
        for j in range(nch):
            a = csd_ref(y[:, i], y[:, j], fs)
            R[i, j] = a.mean(axis=0); S[i, j] = a.real.std(axis=0); T[i, j] = a.imag.std(axis=0)
    m.close("csd", C / G, R / G, rtol=0, atol=1e-9, detail=f"n={n}")
    m.close("csd-std", np.where(S > 0, o.real_csd_std, S) / G, S / G, rtol=0, atol=1e-9)
    big = T > 1e-12 * G
    m.close("csd-std:imag", np.where(big, o.imag_csd_std, T) / G, T / G, rtol=0, atol=1e-9)
    m.expect("std-non-negative", np.all(o.real_csd_std >= 0) and np.all(o.imag_csd_std >= 0))
    pos = C.real > 0
    m.close("real-csd:positive", np.where(pos, o.real_csd, 0) / G, np.where(pos, C.real, 0) / G, rtol=0, atol=1e-12)
    m.close("real-csd:symmetric", o.real_csd / G, np.swapaxes(o.real_csd, 0, 1) / G, rtol=0, atol=1e-10)
    ip = C.imag > 0
    m.close("imag-csd:positive", np.where(ip, o.imag_csd, 0) / G, np.where(ip, C.imag, 0) / G, rtol=0, atol=1e-12)
    # decorrelation
    cond = max(np.linalg.cond((C / g)[:, :, k]) for k in range(h))
    if cond < 1e8:
        if order != "uncorr":
            m.call(o.calculate_uncorr_noise)
        tot = d ** 2
        m.expect("uncorr-shape", o.uncorrnoise.shape == (nch, h) and o.corrnoise.shape == (nch, h))
        tol = 1e-15 * cond + 1e-10
        m.close("uncorr+corr", (o.uncorrnoise + o.corrnoise) / tot, np.ones_like(tot), rtol=1e-9)
        m.expect("uncorr-bounds", np.all(o.uncorrnoise > 0) and np.all(o.uncorrnoise <= tot * (1 + tol)), f"{np.max(o.uncorrnoise/tot)}")
        m.expect("corr-bounds", np.all(o.corrnoise >= -tol * tot), f"{np.min(o.corrnoise/tot)}")
        # what is left of channel i after regressing on the others (Schur)
        i = int(rng.integers(nch)); k = int(rng.integers(h))
        M = (R / g)[:, :, k]
        r = [q for q in range(nch) if q != i]
        w = (M[i, i] - M[i, r] @ np.linalg.solve(M[np.ix_(r, r)], M[r, i])).real
        m.close("uncorr", o.uncorrnoise[i, k] / tot[i, k], w, rtol=1e-6 + tol * 10, atol=1e-9, detail=f"chan {i} bin {k}")
        # rescaling another channel changes nothing
        s = 10 ** rng.uniform(-3, 3, size=nch) * rng.choice([-1, 1], size=nch); s[i] = 1
        o2 = m.call(Noise, x * s[None, :, None], fs, NAMES[:nch], tracegain=gain)
        m.call(o2.calculate_uncorr_noise)
        m.close("uncorr:others-rescaled", o2.uncorrnoise[i] / tot[i], o.uncorrnoise[i] / tot[i], rtol=0, atol=1e-5 + 1e4 * tol)
    # drifts
    t = np.arange(n)
    cst = rng.normal(size=(nt, nch, 1)) * np.abs(x).max()
    o3 = m.call(Noise, x + cst, fs, NAMES[:nch], tracegain=gain)
    m.call(o3.calculate_csd)
    m.close("offset-immune", o3.csd / G, C / G, rtol=0, atol=1e-9 * (np.abs(y).max() ** 2 / fs / G.min() + 1) + 1e-9)


def scen_slope(m, rng):
    x, fs, gain, nch, nt, n, kind = data(rng)
    given = bool(rng.random() < .4)
    t = np.cumsum(rng.uniform(.5, 1.5, size=n)) / fs if given else None
    tt = t if given else np.arange(n) / fs
    x = x / np.abs(x).max(axis=(0, 2), keepdims=True)
    drift = rng.normal(size=(nt, nch, 1)) * tt / tt.max() * 10 ** rng.uniform(-1, 2)
    m.note(nch=nch, nt=nt, n=n, given=given, kind=kind, gain=gain)
    a = m.call(Noise, x, fs, NAMES[:nch], tracegain=gain, time=t)
    b = m.call(Noise, x + drift, fs, NAMES[:nch], tracegain=gain, time=t)
    raw = x.copy()
    for o in (a, b):
        m.call(o.remove_trace_slope)
    m.expect("unmodified", np.array_equal(raw, x))
    D = 1 + np.abs(drift).max()
    m.close("drift-removed", (b.traces - a.traces) * gain / D, np.zeros_like(x), atol=1e-9)
    tc = tt - tt.mean()
    res = (a.traces * gain * tc).sum(axis=-1) / np.sqrt((tc ** 2).sum() * n)
    m.close("no-slope-left", res, np.zeros_like(res), atol=1e-9)
    # only a line was subtracted
    d = x - a.traces * gain
    k = (d @ tc) / (tc @ tc)
    m.close("only-a-line", d, k[..., None] * tt, rtol=1e-7, atol=1e-9)
    s = (x @ tc) / (tc @ tc)
    m.close("the-slope", k * tt.max(), s * tt.max(), rtol=1e-7, atol=1e-9)
    m.call(b.remove_trace_slope)
    m.close("idempotent", (b.traces - a.traces) * gain / D, np.zeros_like(x), atol=1e-8)
    m.call(a.calculate_psd); m.call(b.calculate_psd)
    sc = a.psd.max()
    m.close("psd-immune", b.psd / sc, a.psd / sc, rtol=0, atol=1e-8 * D ** 2)


def scen_corr(m, rng):
    x, fs, gain, nch, nt, n, kind = data(rng, nch=int(rng.integers(2, 5)), nmin=3)
    m.note(nch=nch, nt=nt, n=n, kind=kind, gain=gain)
    o = m.call(Noise, x, fs, NAMES[:nch], tracegain=gain)
    m.call(o.calculate_corrcoeff)
    r = o.corrcoeff; h = n // 2 + 1
    m.expect("shape", r.shape == (nch, nch, h), f"{r.shape}")
    if m.viol:
        return
    m.expect("range", np.all(np.abs(r) <= 1 + 1e-12))
    m.close("symmetric", r, np.swapaxes(r, 0, 1), rtol=0, atol=1e-12)
    m.close("diagonal", np.array([r[i, i] for i in range(nch)]), np.ones((nch, h)), rtol=0, atol=1e-12)
    A = np.abs(np.fft.rfft(x)) * 1e0
    i, j = rng.choice(nch, size=2, replace=False); k = int(rng.integers(h))
    u, v = A[:, i, k] - A[:, i, k].mean(), A[:, j, k] - A[:, j, k].mean()
    # rounding of the transforms, relative to the spread of each bin's amplitude
    loss = 1e-14 * np.sqrt((A ** 2).sum(-1)).max(0)[:, None] / A.std(0)
    pair = loss[:, None] + loss[None]
    m.close("pearson", r[i, j, k], (u @ v) / np.sqrt((u @ u) * (v @ v)), rtol=0, atol=1e-7 + pair[i, j, k], detail=f"{i},{j} bin {k}")
    s = 10 ** rng.uniform(-2, 2, size=nch) * rng.choice([-1, 1], size=nch)
    o2 = m.call(Noise, x * s[None, :, None], fs, NAMES[:nch])
    m.call(o2.calculate_corrcoeff)
    m.expect("gain-free", np.all(np.abs(o2.corrcoeff - r) <= 1e-6 + pair), f"changes of up to {np.abs(o2.corrcoeff - r).max()}")
    p = rng.permutation(nch)
    o3 = m.call(Noise, x[:, p], fs, [NAMES[q] for q in p], tracegain=gain)
    m.call(o3.calculate_corrcoeff)
    m.expect("channel-order", o3.corrcoeff.shape == r.shape
             and np.all(np.abs(o3.corrcoeff - r[np.ix_(p, p)]) <= 1e-7 + pair[np.ix_(p, p)]), "depends on the order of the channels")
    # shared signal gives full correlation
    x2 = x.astype(float); x2[:, 1] = x2[:, 0] * float(rng.normal() + 3)
    o4 = m.call(Noise, x2, fs, NAMES[:nch])
    m.call(o4.calculate_corrcoeff)
    m.close("copies", o4.corrcoeff[0, 1], np.ones(h), rtol=0, atol=1e-6)


def eq(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and np.array_equal(a, b)
    return a == b


def scen_history(m, rng):
    """Calls in any order, plots, saves and loads: state is a function of the data."""
    x, fs, gain, nch, nt, n, kind = data(rng, nch=int(rng.integers(2, 5)))
    d = tempfile.mkdtemp(prefix="qpmon-")
    try:
        mk = lambda: m.call(Noise, x, fs, list(NAMES[:nch]), tracegain=gain, name="my noise run")
        o, ref = mk(), mk()
        for f in (ref.calculate_psd, ref.calculate_csd, ref.calculate_corrcoeff, ref.calculate_uncorr_noise):
            m.call(f)
        ops = list(rng.permutation(["psd", "csd", "corr", "uncorr", "psd", "csd", "save", "plot", "plotnone"]))
        m.note(nch=nch, nt=nt, n=n, ops=ops)
        nplots = 0
        for op in ops:
            if op == "psd":
                m.call(o.calculate_psd)
            elif op == "csd":
                m.call(o.calculate_csd)
            elif op == "corr":
                m.call(o.calculate_corrcoeff)
            elif op == "uncorr":
                m.call(o.calculate_uncorr_noise)
            elif op == "save":
                m.call(o.save, d if rng.random() < .5 else d + "/")
                with open(os.path.join(d, "my_noise_run.pkl"), "rb") as f:
                    l = pickle.load(f)
                m.expect("save-load", set(vars(l)) == set(vars(o)) and all(eq(v, vars(l)[k]) for k, v in vars(o).items()))
                o = l
            elif op == "plot":
                before = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in vars(o).items()}
                which = int(rng.integers(5))
                sv = bool(rng.random() < .6)
                had = set(os.listdir(d))
                kw = dict(lgcsave=sv, savepath=d + "/") if sv else {}
                if which == 0:
                    m.call(o.plot_psd, lgcoverlay=bool(rng.random() < .5), **kw); ready = o.psd is not None; e = "_PSD"
                elif which == 1:
                    m.call(o.plot_reim_psd, **kw); ready = o.psd is not None; e = "_ReIm_PSD"
                elif which == 2:
                    m.call(o.plot_corrcoeff, nwindow=5, lgcsmooth=bool(rng.random() < .5), **kw); ready = o.corrcoeff is not None; e = "corr"
                elif which == 3:
                    m.call(o.plot_csd, whichcsd=["01", "00"], lgcreal=bool(rng.random() < .7), **kw); ready = o.csd is not None; e = "csd"
                else:
                    m.call(o.plot_decorrelatednoise, lgcoverlay=bool(rng.random() < .5), lgcsum=True, lgccorrelated=True, **kw); ready = o.uncorrnoise is not None; e = "deCorr"
                new = set(os.listdir(d)) - had
                m.expect("plot-saves", bool(new) == (sv and ready) and all(e in q for q in new), f"plot {which} save={sv} ready={ready}: {new}")
                m.expect("plot-pure", all(eq(before[k], v) for k, v in vars(o).items()))
        for k in ("psd", "real_psd", "imag_psd", "csd", "real_csd", "imag_csd", "corrcoeff", "uncorrnoise", "corrnoise", "traces", "freqs"):
            m.expect("history:" + k, eq(getattr(o, k), getattr(ref, k)))
        # once the slopes are taken off, everything computed again describes the new traces
        flat = mk()
        for q in (o, flat):
            m.call(q.remove_trace_slope)
            for f in rng.permutation(["calculate_psd", "calculate_csd", "calculate_corrcoeff", "calculate_uncorr_noise"]) if q is o else \
                    ("calculate_csd", "calculate_psd", "calculate_corrcoeff", "calculate_uncorr_noise"):
                m.call(getattr(q, f))
        if q.csd is not None:
            m.call(o.calculate_uncorr_noise)
        for k in ("psd", "real_psd", "imag_psd", "csd", "real_csd", "imag_csd", "corrcoeff", "uncorrnoise", "corrnoise", "traces", "freqs"):
            m.expect("recomputed:" + k, near(getattr(o, k), getattr(flat, k), 1e-7))
    finally:
        shutil.rmtree(d)


def scen_compare(m, rng):
    d = tempfile.mkdtemp(prefix="qpmon-")
    try:
        x, fs, gain, nch, nt, n, kind = data(rng, nch=int(rng.integers(2, 4)))
        os_ = []
        for i in range(2):
            o = m.call(Noise, x * (1 + i), fs, list(NAMES[:nch]), tracegain=gain, name=f"run {i}")
            m.call(o.calculate_psd); m.call(o.calculate_uncorr_noise)
            os_.append(o)
        before = [{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in vars(o).items()} for o in os_]
        dec = bool(rng.random() < .5)
        m.note(nch=nch, dec=dec)
        m.call(P.compare_noise, os_, NAMES[:nch] + ["nope"], lgcdecorrelatednoise=dec, lgcsave=True, savepath=d + "/")
        m.expect("one-figure-per-channel", set(os.listdir(d)) == {f"{c}_PSD_comparison.png" for c in NAMES[:nch]}, f"{os.listdir(d)}")
        m.expect("compare-pure", all(eq(b[k], v) for o, b in zip(os_, before) for k, v in vars(o).items()))
    finally:
        shutil.rmtree(d)


SCENARIOS = {"psd": (scen_psd, 300, 4000), "csd": (scen_csd, 250, 3000), "slope": (scen_slope, 150, 2000),
             "corr": (scen_corr, 200, 2500), "history": (scen_history, 40, 400), "compare": (scen_compare, 4, 40)}
