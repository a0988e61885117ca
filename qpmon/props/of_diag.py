"""C08: chi-square diagnostics and resolutions match their definitions."""
import numpy as np
import qetpy as qp
from ..ref import *
from .of import setup


def scen_chi2(m, rng):
    sig, t, psd, fs, cp, inorm = setup(m, rng)
    n = len(t)
    r = OFRef(sig, t, psd, fs, cp, inorm)
    of = m.call(qp.OptimumFilter, sig, t, psd, fs, coupling=cp, integralnorm=inorm)
    m.close("nopulse", m.call(of.chi2_nopulse), r.chi0, rtol=1e-9)
    m.close("nopulse-fn", m.call(qp.chi2_nopulse, sig, psd, fs, coupling=cp), r.chi0, rtol=1e-9)
    amps, chi = r.scan()
    af = np.abs(r.f)
    for _ in range(4):
        q = rng.random()
        if q < 0.3:
            b = int(np.argmin(chi)); a, t0 = float(amps[b]), (b - n // 2) / fs
        elif q < 0.5:
            a, t0 = 0.0, float(rng.normal())
        else:
            a, t0 = float(r.ascale * rng.normal()), float(rng.uniform(-.7, .7) * n / fs)
        M = np.abs(r.V - a * r.S * np.exp(-2j * np.pi * r.f * t0)) ** 2 * r.w
        sc = r.chi0 + a * a * r.norm
        prev = 0.0
        cuts = [0.0, fs / n * int(rng.integers(0, n // 2 + 1)), fs * rng.uniform(0, .5), fs / 2, fs * 2,
                fs / n * (int(rng.integers(0, n // 2 + 1)) + 0.5)]
        for fc in sorted(float(c) for c in cuts):
            edge = np.abs(af - fc) < 1e-9 * fs           # equality decided by rounding: accept both
            sure, maybe = M[(af <= fc) & ~edge].sum(), M[(af <= fc) | edge].sum()
            x = m.call(of.chi2_lowfreq, a, t0, fcutoff=fc)
            want = maybe
            k = int(round(fc * n / fs))
            if edge.any() and len({fc, k * fs / n, k * (fs / n), fs / n * k, k / (n * (1 / fs)),
                                   k * (1 / (n * (1 / fs)))}) > 1:
                # on a bin only up to rounding: either reading is right
                want = sure if abs(x - sure) < abs(x - maybe) else maybe
            m.close("lowfreq", x, want, rtol=0, atol=1e-10 * sc, detail=f"fcutoff={fc} a={a} t0={t0}")
            m.expect("lowfreq:monotone", x >= prev - 1e-10 * sc and x >= 0, f"{x} after {prev}")
            prev = x
            if not inorm:
                y = m.call(qp.chi2lowfreq, sig, t, a, t0, psd, fs, fcutoff=fc, coupling=cp)
                m.close("lowfreq-fn", y, want, rtol=0, atol=1e-10 * sc)
        m.close("lowfreq:full", prev, r.chi2((a, t0)), rtol=0, atol=1e-9 * sc)
    m.close("lowfreq:default", m.call(of.chi2_lowfreq, float(amps[0]), 0.0),
            np.sum((np.abs(r.V - amps[0] * r.S) ** 2 * r.w)[af <= 1e4]), rtol=0, atol=1e-9 * (r.chi0 + amps[0]**2*r.norm))


def scen_resolution(m, rng):
    sig, t, psd, fs, cp, inorm = setup(m, rng)
    n = len(t)
    r = OFRef(sig, t, psd, fs, cp, inorm)
    of = m.call(qp.OptimumFilter, sig, t, psd, fs, coupling=cp, integralnorm=inorm)
    e = m.call(of.energy_resolution)
    m.close("energy", e, r.norm ** -0.5, rtol=1e-10)
    a = float(r.ascale * np.exp(rng.normal()) * rng.choice([-1, 1]))
    tr = m.call(of.time_resolution, a)
    m.close("time", tr, 1 / (abs(a) * np.sqrt(np.sum((2 * np.pi * r.f) ** 2 * np.abs(r.S) ** 2 * r.w))), rtol=1e-10)
    m.close("time:amp-scaling", m.call(of.time_resolution, 3 * a) * 3, tr, rtol=1e-9)
    f = m.call(qp.ofamp, sig, t, psd, fs, coupling=cp, integralnorm=inorm, lgcsigma=True)
    m.close("energy-fn", f[3], e, rtol=1e-10)
    f = m.call(qp.ofamp, sig, t, psd, fs, withdelay=False, coupling=cp, integralnorm=inorm, lgcsigma=True)
    m.close("energy-fn-nodelay", f[3], e, rtol=1e-10)
    c = float(10 ** rng.uniform(-2, 2))
    o2 = m.call(qp.OptimumFilter, sig, t, psd * c, fs, coupling=cp, integralnorm=inorm)
    m.close("energy:psd-scaling", m.call(o2.energy_resolution), e * np.sqrt(c), rtol=1e-9)
    m.close("time:psd-scaling", m.call(o2.time_resolution, a), tr * np.sqrt(c), rtol=1e-9)
    o3 = m.call(qp.OptimumFilter, sig, t * c, psd, fs, coupling=cp, integralnorm=inorm)
    m.close("energy:template-scaling", m.call(o3.energy_resolution), e if inorm else e / c, rtol=1e-9)
    # signal independent
    m.call(of.update_signal, np.asarray(sig, float)[::-1].copy())
    m.close("energy:signal-independent", m.call(of.energy_resolution), e, rtol=1e-12)


def scen_ensemble(m, rng):
    """Exact ensemble variance: noise with exactly this PSD at every frequency."""
    n = int(rng.integers(8, 41)); fs = gen_fs(rng)
    tk, t = gen_template(rng, n); pk, psd = gen_psd(rng, n, fs)
    cp = str(rng.choice(["AC", "DC"])); inorm = bool(rng.random() < .3) and abs(t.sum()) > 0.05 * np.abs(t).sum()
    m.note(n=n, fs=fs, template=tk, psd=pk, coupling=cp, integralnorm=inorm, p1=float(psd[1]))
    # a complete orthonormal set of white-noise directions, coloured: the
    # average of a^2 over the set is the ensemble variance of the amplitude
    Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    tot = 0.0
    totf = []
    for q in Q:
        s = np.fft.ifft(np.fft.fft(q) * np.sqrt(psd * fs)).real
        of = m.call(qp.OptimumFilter, s, t, psd, fs, coupling=cp, integralnorm=inorm)
        a, _ = m.call(of.ofamp_nodelay)
        tot += a * a
        totf.append(m.call(qp.ofamp, s, t, psd, fs, withdelay=False, coupling=cp, integralnorm=inorm)[0])
    e = m.call(of.energy_resolution)
    m.close("ensemble:class", np.sqrt(tot), e, rtol=1e-7)
    m.close("ensemble:function", np.sqrt(np.sum(np.square(totf))), e, rtol=1e-7)


SCENARIOS = {"chi2": (scen_chi2, 500, 6000), "resolution": (scen_resolution, 300, 4000), "ensemble": (scen_ensemble, 80, 800)}
