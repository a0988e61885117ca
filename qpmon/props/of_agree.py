"""C07: function, object, batch and single-trace filters agree."""
import numpy as np
import qetpy as qp
from ..ref import *
from .of import setup
from .of_window import tiny, draw_request


def tri(m, tag, a, b, r, fs, asc=None, csc=None, tie=None):
    asc = r.ascale if asc is None else asc
    csc = r.chi0 if csc is None else csc
    m.close(tag + ":chi2", a[-1], b[-1], rtol=0, atol=1e-9 * csc, detail=f"{a} vs {b}")
    if tie:
        return
    m.close(tag + ":time", a[-2] * fs, b[-2] * fs, atol=1e-6, detail=f"{a} vs {b}")
    for i in range(len(a) - 2):
        m.close(tag + ":amp", a[i], b[i], rtol=0, atol=1e-8 * asc, detail=f"{a} vs {b}")


def scen_pairs(m, rng):
    sig, t, psd, fs, cp, inorm = (tiny if rng.random() < 0.3 else setup)(m, rng)
    n = len(t)
    r = OFRef(sig, t, psd, fs, cp, inorm)
    amps, chi = r.scan()
    of = m.call(qp.OptimumFilter, sig, t, psd, fs, coupling=cp, integralnorm=inorm)
    k, out, _, _ = draw_request(rng, n)
    al = window_mask(n, k, out)
    if not al.any():
        k, out = None, False
        al = window_mask(n)
    tie = np.sum(chi[al] <= chi[al].min() + 1e-9 * r.chi0) > 1
    a = m.call(qp.ofamp, sig, t, psd, fs, coupling=cp, nconstrain=k, lgcoutsidewindow=out, integralnorm=inorm, lgcsigma=True)
    b = m.call(of.ofamp_withdelay, nconstrain=k, lgcoutsidewindow=out)
    tri(m, "ofamp", a[:3], b, r, fs, tie=tie)
    m.close("ofamp:sigma", a[3], m.call(of.energy_resolution), rtol=1e-10)
    a = m.call(qp.ofamp, sig, t, psd, fs, withdelay=False, coupling=cp, integralnorm=inorm)
    b = m.call(of.ofamp_nodelay)
    tri(m, "nodelay", a, (b[0], 0.0, b[1]), r, fs)
    m.close("nopulse", m.call(qp.chi2_nopulse, sig, psd, fs, coupling=cp), m.call(of.chi2_nopulse), rtol=1e-10)
    if inorm:
        return
    fc = float(rng.choice([fs * rng.uniform(0, .6), fs / n * rng.integers(0, n // 2 + 2)]))
    amp = float(r.ascale * rng.normal()); t0 = float(rng.uniform(-.5, .5) * n / fs)
    m.close("lowfreq", m.call(qp.chi2lowfreq, sig, t, amp, t0, psd, fs, fcutoff=fc, coupling=cp),
            m.call(of.chi2_lowfreq, amp, t0, fcutoff=fc), rtol=1e-9, atol=1e-12 * r.chi0)
    m.close("lowfreq-default", m.call(qp.chi2lowfreq, sig, t, amp, t0, psd, fs, coupling=cp),
            m.call(of.chi2_lowfreq, amp, t0), rtol=1e-9, atol=1e-12 * r.chi0)
    # pileup
    t1 = float(rng.uniform(-.5, .5) * n / fs) if rng.random() < 0.5 else int(rng.integers(-(n // 2), n - n // 2)) / fs
    a1 = amp
    sc = r.chi0 + a1 * a1 * r.norm
    V = r.without((a1, t1)); _, c2 = r.scan(V)
    a = m.call(qp.ofamp_pileup, sig, t, psd, fs, a1=a1, t1=t1, coupling=cp, nconstrain2=k, lgcoutsidewindow=out)
    b = m.call(of.ofamp_pileup_iterative, a1, t1, nconstrain=k, lgcoutsidewindow=out)
    tri(m, "pileup", a[2:], b, r, fs, np.sqrt(sc / r.norm), sc, tie=np.sum(c2[al] <= c2[al].min() + 1e-9 * sc) > 1)
    a = m.call(qp.ofamp_pileup, sig, t, psd, fs, coupling=cp)
    w = m.call(of.ofamp_withdelay)
    b = m.call(of.ofamp_pileup_iterative, w[0], w[1])
    if np.sum(chi <= chi.min() + 1e-9 * r.chi0) == 1:
        V = r.without((w[0], w[1])); _, c2 = r.scan(V)
        tri(m, "pileup-own", a[2:], b, r, fs, tie=np.sum(c2 <= c2.min() + 1e-9 * r.chi0) > 1)
        m.close("pileup-own:first", [a[0], a[1]], w[:2], rtol=0, atol=1e-8 * max(r.ascale, n / fs))
        m.close("pileup-own:first-amp", a[0], w[0], rtol=0, atol=1e-8 * r.ascale)
    a1_, a2_, cs, cond = r.two_pulse()
    rel = 1e-8 + 1e-13 * cond[al].max()
    if np.isfinite(rel) and rel < 1e-5:
        a = m.call(qp.ofamp_pileup_stationary, sig, t, psd, fs, coupling=cp, nconstrain=k, lgcoutsidewindow=out)
        b = m.call(of.ofamp_pileup_stationary, nconstrain=k, lgcoutsidewindow=out)
        m.close("stationary:chi2", a[3], b[3], rtol=0, atol=rel * r.chi0)
        if np.sum(cs[al] <= cs[al].min() + 10 * rel * r.chi0) == 1:
            m.close("stationary:time", a[2] * fs, b[2] * fs, atol=1e-6)
            m.close("stationary:amps", a[:2], b[:2], rtol=0, atol=r.ascale * 1e-7 * np.sqrt(cond[al].max()))


def scen_batch(m, rng):
    sig, t, psd, fs, cp, inorm = (tiny if rng.random() < 0.3 else setup)(m, rng)
    n = len(t); nb = int(rng.choice([1, 2, 3, 7, 20]))
    sigs = np.array([np.asarray(gen_signal(rng, t, psd, fs)[1], float) * 10 ** rng.uniform(-1, 1) for _ in range(nb)])
    if nb > 2 and rng.random() < 0.5:
        sigs[1] = sigs[0]
    k, out, _, _ = draw_request(rng, n)
    if not window_mask(n, k, out).any():
        k, out = None, False
    al = window_mask(n, k, out)
    wd = bool(rng.random() < 0.7); sg = bool(rng.random() < 0.5)
    m.note(nb=nb, k=k, out=out, withdelay=wd)
    kw = dict(withdelay=wd, coupling=cp, lgcsigma=sg, integralnorm=inorm)
    if wd:
        kw.update(nconstrain=k, lgcoutsidewindow=out)
    B = m.call(qp.ofamp, sigs, t, psd, fs, **kw)
    for j in range(3):
        m.expect("batch:shape", np.shape(B[j]) == ((nb,) if nb > 1 else ()), f"{j}: {np.shape(B[j])} for {nb} traces")
    chis, amax = np.zeros(nb), np.zeros(nb)
    clear = np.ones(nb, bool)        # traces whose best delay is not decided by rounding
    for i in range(nb):
        S = m.call(qp.ofamp, sigs[i], t, psd, fs, **kw)
        r = OFRef(sigs[i], t, psd, fs, cp, inorm)
        _, chi = r.scan()
        tie = wd and np.sum(chi[al] <= chi[al].min() + 1e-9 * r.chi0) > 1
        clear[i] = not tie
        chis[i], amax[i] = r.chi0, r.ascale
        row = tuple(np.atleast_1d(B[j])[i] for j in range(3))
        tri(m, "batch", row, S[:3], r, fs, tie=tie)
        if sg:
            m.close("batch:sigma", B[3], S[3], rtol=1e-12)
        # a 2-D array with this one row is the same thing
        if i == 0:
            O = m.call(qp.ofamp, sigs[:1], t, psd, fs, **kw)
            m.expect("one-row:scalar", np.ndim(O[0]) == 0 and np.ndim(O[1]) == 0 and np.ndim(O[2]) == 0)
            tri(m, "one-row", O[:3], S[:3], r, fs, tie=tie)
    p = rng.permutation(nb)
    P = m.call(qp.ofamp, sigs[p], t, psd, fs, **kw)
    unit = [np.where(amax > 0, amax, 1), np.full(nb, n / fs), np.where(chis > 0, chis, 1)]
    for j in range(3):
        w = clear[p] if j < 2 else np.ones(nb, bool)
        u = unit[j][p][w]
        m.close("batch:permute", np.atleast_1d(P[j])[w] / u, np.atleast_1d(B[j])[p][w] / u, rtol=0, atol=1e-9)
    if nb > 1:
        h = nb // 2 + 1
        w = clear[:h]
        C = m.call(qp.ofamp, sigs[:h], t, psd, fs, **kw)
        m.close("batch:prefix", np.atleast_1d(C[0])[w] / unit[0][:h][w], np.atleast_1d(B[0])[:h][w] / unit[0][:h][w], rtol=0, atol=1e-9)


def scen_reject(m, rng):
    """A spectrum of another length than the trace is refused, not cut or broadcast."""
    sig, t, psd, fs, cp, inorm = (tiny if rng.random() < .5 else setup)(m, rng)
    n = len(t)
    k = int(rng.choice([1, n // 2 + 1, n - 1, n + 1, 2 * n, max(n - int(rng.integers(1, n)), 1)]))
    if k == n:
        k = n + 1
    bad = np.resize(psd, k)
    m.note(n=n, k=k)
    m.raises("psd-length:ofamp", ValueError, qp.ofamp, sig, t, bad, fs, coupling=cp)
    m.raises("psd-length:nodelay", ValueError, qp.ofamp, sig, t, bad, fs, withdelay=False, coupling=cp)
    m.raises("psd-length:pileup", ValueError, qp.ofamp_pileup, sig, t, bad, fs, coupling=cp)
    m.raises("psd-length:stationary", ValueError, qp.ofamp_pileup_stationary, sig, t, bad, fs, coupling=cp)
    m.raises("psd-length:batch", ValueError, qp.ofamp, np.stack([sig, sig]), t, bad, fs, coupling=cp)


SCENARIOS = {"pairs": (scen_pairs, 500, 6000), "batch": (scen_batch, 300, 4000), "reject": (scen_reject, 60, 400)}
