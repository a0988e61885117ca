"""C01: optimum filter fits are truthful and globally minimal."""
import numpy as np
import qetpy as qp
from ..ref import *


def setup(m, rng, big=False):
    n = gen_nbins(rng, big)
    fs = gen_fs(rng)
    tk, t = gen_template(rng, n)
    pk, psd = gen_psd(rng, n, fs)
    sk, sig = gen_signal(rng, t, psd, fs)
    coupling = str(rng.choice(["AC", "AC", "DC"]))
    inorm = bool(rng.random() < 0.3) and abs(t.sum()) > 0.05 * np.abs(t).sum()
    m.note(n=n, fs=fs, template=tk, psd=pk, signal=sk, coupling=coupling, integralnorm=inorm, s0=float(sig[0]))
    return sig, t, psd, fs, coupling, inorm


def judge(m, tag, r, amp, t0, chi2, allowed=None, need_sign=0, at=None):
    """A fit claims (amp, t0, chi2): truthful, amplitude-optimal, delay-optimal."""
    n = r.n
    ctol = 1e-9 * r.chi0
    m.close(tag + ":chi2-truthful", chi2, r.chi2((amp, t0)), rtol=0, atol=ctol, detail=f"amp={amp} t0={t0}")
    ph = np.exp(-2j * np.pi * r.f * t0)
    best_a = np.real(np.sum((r.S * ph).conj() * r.V * r.w)) / r.norm
    m.close(tag + ":amp-optimal", amp, best_a, rtol=0, atol=1e-8 * r.ascale)
    b = t0 * r.fs
    m.expect(tag + ":delay-on-grid", abs(b - round(b)) < 1e-6, f"t0={t0} is not a whole bin")
    k = int(round(b)) + n // 2
    if not m.expect(tag + ":delay-in-trace", 0 <= k < n, f"delay bin {k - n // 2} outside the trace of {n} bins"):
        return
    if at is not None:
        m.expect(tag + ":delay-as-asked", k - n // 2 == at, f"bin {k - n // 2} asked {at}")
        return
    amps, chi = r.scan()
    ok = np.ones(n, bool) if allowed is None else allowed.copy()
    if need_sign:
        # bins whose amplitude is clearly of the wanted sign must compete
        ok &= need_sign * amps > 1e-9 * r.ascale
    if ok.any():
        m.expect(tag + ":global-min", chi2 <= chi[ok].min() + ctol,
                 f"returned {chi2} at bin {k - n // 2}, but bin {int(np.flatnonzero(ok)[np.argmin(chi[ok])]) - n // 2} "
                 f"reaches {chi[ok].min()} (chi0 {r.chi0})")


def scen_class(m, rng):
    sig, t, psd, fs, coupling, inorm = setup(m, rng, m.thorough)
    r = OFRef(sig, t, psd, fs, coupling, inorm)
    of = m.call(qp.OptimumFilter, sig, t, psd, fs, coupling=coupling, integralnorm=inorm)
    amp, t0, chi2 = m.call(of.ofamp_withdelay)
    judge(m, "withdelay", r, amp, t0, chi2)
    amp, chi2 = m.call(of.ofamp_nodelay)
    judge(m, "nodelay", r, amp, 0.0, chi2, at=0)
    n = r.n
    for wc in {int(rng.integers(-(n // 2), n - n // 2)), -(n // 2), n - n // 2 - 1, 1}:
        amp, chi2 = m.call(of.ofamp_nodelay, windowcenter=wc)
        judge(m, "nodelay-at", r, amp, wc / fs, chi2, at=wc)


def scen_function(m, rng):
    sig, t, psd, fs, coupling, inorm = setup(m, rng, m.thorough)
    r = OFRef(sig, t, psd, fs, coupling, inorm)
    amp, t0, chi2 = m.call(qp.ofamp, sig, t, psd, fs, coupling=coupling, integralnorm=inorm)
    judge(m, "ofamp", r, amp, t0, chi2)
    amp, t0, chi2, sigma = m.call(qp.ofamp, sig, t, psd, fs, withdelay=False, coupling=coupling,
                                  integralnorm=inorm, lgcsigma=True)
    judge(m, "ofamp-nodelay", r, amp, t0, chi2, at=0)
    m.close("ofamp:sigma", sigma, 1 / np.sqrt(r.norm), rtol=1e-10)
    # batches
    nb = int(rng.integers(2, 6))
    sigs = np.array([gen_signal(rng, t, psd, fs)[1] for _ in range(nb)])
    for wd in (True, False):
        amp, t0, chi2 = m.call(qp.ofamp, sigs, t, psd, fs, withdelay=wd, coupling=coupling, integralnorm=inorm)
        m.expect("batch:shape", np.shape(amp) == np.shape(t0) == np.shape(chi2) == (nb,),
                 f"{np.shape(amp)} {np.shape(t0)} {np.shape(chi2)}")
        for i in range(nb):
            ri = OFRef(sigs[i], t, psd, fs, coupling, inorm)
            judge(m, "batch", ri, amp[i], t0[i], chi2[i], at=None if wd else 0)


def scen_interp(m, rng):
    sig, t, psd, fs, coupling, inorm = setup(m, rng)
    n = len(t)
    if rng.random() < 0.6:
        # clear pulse, often at the very edge of the delay range
        k = int(rng.choice([-(n // 2), n - n // 2 - 1, 0, 1, -1, int(rng.integers(-(n // 2), n - n // 2))]))
        res = 1 / np.sqrt(np.sum(np.abs(np.fft.fft(t) / fs) ** 2 / psd) * fs / n)
        sig = colored(rng, psd, fs) * 0.2 + 40 * res * np.roll(t, k)
        m.note(edge=k)
    r = OFRef(sig, t, psd, fs, coupling, inorm)
    of = m.call(qp.OptimumFilter, sig, t, psd, fs, coupling=coupling, integralnorm=inorm)
    amp, t0, chi2 = m.call(of.ofamp_withdelay, interpolate_t0=True)
    amps, chi = r.scan()
    cand = np.flatnonzero(chi <= chi.min() + 1e-9 * r.chi0)
    if len(cand) > 3:
        return
    if parabola_ok(m, "interp:parabola", chi, amps, cand, fs, t0, amp, chi2, n, r.ascale, r.chi0) is not None:
        m.expect("interp:within-a-bin", min(abs(t0 * fs - (c - n // 2)) for c in cand) <= 1)
        m.expect("interp:not-above-best-bin", chi2 <= chi.min() + 1e-9 * r.chi0)


def scen_large(m, rng):
    """Realistic trace lengths; the minimum is probed on a sample of delays."""
    n = int(rng.choice([4096, 5001, 16384, 32500, 32501]))
    fs = 625e3
    rise, fall = rng.uniform(5, 40), rng.uniform(20, 200)
    t = pulse(n, n // 2, rise, fall + rise)
    f = np.abs(np.fft.fftfreq(n, 1 / fs))
    psd = 1e-22 * (1 + 3 / np.maximum(f / 1e3, .02)) / (1 + (f / 8e4) ** 2) + 1e-24
    res = 1 / np.sqrt(np.sum(np.abs(np.fft.fft(t) / fs) ** 2 / psd) * fs / n)
    k = int(rng.integers(-(n // 2), n - n // 2))
    sig = colored(rng, psd, fs) + res * 10 ** rng.uniform(-0.5, 2) * np.roll(t, k) + rng.normal() * 1e-6
    cp = str(rng.choice(["AC", "DC"]))
    m.note(n=n, k=k, coupling=cp, s0=float(sig[0]))
    r = OFRef(sig, t, psd, fs, cp)
    of = m.call(qp.OptimumFilter, sig, t, psd, fs, coupling=cp)
    ff = m.call(qp.ofamp, sig, t, psd, fs, coupling=cp)
    for tag, (amp, t0, chi2) in (("class", m.call(of.ofamp_withdelay)), ("fn", ff)):
        m.close("large:chi2-truthful", chi2, r.chi2((amp, t0)), rtol=0, atol=1e-8 * r.chi0)
        kk = int(round(t0 * fs))
        probe = np.r_[rng.integers(-(n // 2), n - n // 2, 25), kk - 1, kk + 1, kk - 2, kk + 2, k, 0, -(n // 2)]
        for b in probe:
            ph = np.exp(-2j * np.pi * r.f * (b / fs))
            a = np.real(np.sum((r.S * ph).conj() * r.V * r.w)) / r.norm
            m.expect("large:global-min", chi2 <= r.chi0 - a * a * r.norm + 1e-8 * r.chi0, f"bin {b} beats {kk}")


SCENARIOS = {"class": (scen_class, 800, 12000), "function": (scen_function, 400, 8000),
             "interp": (scen_interp, 500, 8000), "large": (scen_large, 16, 300)}
