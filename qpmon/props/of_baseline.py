"""C06: joint pulse + constant baseline fit."""
import numpy as np
import qetpy as qp
from ..ref import *
from .of import setup
from .of_window import draw_request, judge_choice, interp_choice


def scen_joint(m, rng):
    sig, t, psd, fs, cp, _ = setup(m, rng)
    n = len(t)
    r = OFRef(sig, t, psd, fs, cp)
    ja, jb, jc = r.joint_baseline()
    full = r.chi0_full()
    asc = np.sqrt(full / np.sum(np.abs(r.S) ** 2 * r.wfull))
    of = m.call(qp.OptimumFilter, sig, t, psd, fs, coupling=cp)
    amp, t0, chi2 = m.call(of.ofamp_baseline)
    k = int(round(t0 * fs)) + n // 2
    m.expect("joint:on-grid", abs(t0 * fs - round(t0 * fs)) < 1e-6 and 0 <= k < n, f"t0={t0}")
    m.expect("joint:global-min", chi2 <= jc.min() + 1e-8 * full, f"{chi2} vs {jc.min()} (bin {np.argmin(jc)-n//2})")
    m.close("joint:chi2", chi2, jc[k % n], rtol=0, atol=1e-8 * full)
    m.close("joint:amp", amp, ja[k % n], rtol=0, atol=1e-6 * asc)
    # truthful: residual with that pulse and the best constant for it
    V = r.without((amp, t0))
    base = V[0].real * fs / n
    m.close("joint:truthful", chi2, r.chi2_w(r.wfull, [(amp, t0)], base), rtol=0, atol=1e-8 * full)
    if len(np.flatnonzero(jc <= jc.min() + 1e-8 * full)) > 1:
        return
    b = jb[np.argmin(jc)]
    Vb = r.without(base=b)
    amps, chi = r.scan(Vb, r.wfull)
    e = float(np.sum(np.abs(Vb) ** 2 * r.wfull))
    for _ in range(3):
        kk, out, c, sgn = draw_request(rng, n)
        al = window_mask(n, kk, out, c)
        res = m.call(of.ofamp_baseline, nconstrain=kk, lgcoutsidewindow=out, windowcenter=c, pulse_direction_constraint=sgn)
        judge_choice(m, "fixed", n, fs, amps, chi, e, al, sgn, res, asc, full)
        res = m.call(of.ofamp_baseline, nconstrain=kk, lgcoutsidewindow=out, windowcenter=c,
                     pulse_direction_constraint=sgn, interpolate_t0=True)
        interp_choice(m, "fixed", n, fs, amps, chi, al, sgn, res, asc, full)
    # immunity to a constant
    off = float(rng.normal() * np.abs(np.asarray(sig, float)).max() * rng.choice([0.1, 1, 30.0]))
    s2 = full + (off * n / fs) ** 2 * fs / n / psd[0]
    of2 = m.call(qp.OptimumFilter, np.asarray(sig, float) + off, t, psd, fs, coupling=cp)
    o = m.call(of2.ofamp_baseline)
    m.close("constant:amp", o[0], amp, rtol=0, atol=1e-6 * asc * np.sqrt(s2 / full))
    m.close("constant:chi2", o[2], chi2, rtol=0, atol=1e-7 * s2)
    if np.sum(jc <= jc.min() + 1e-6 * s2) == 1:
        m.close("constant:time", o[1] * fs, t0 * fs, atol=1e-6)


def scen_couplings(m, rng):
    """The baseline fit uses the finite zero-frequency PSD whatever the coupling."""
    sig, t, psd, fs, _, _ = setup(m, rng)
    n = len(t)
    r = OFRef(sig, t, psd, fs, "DC")
    full = r.chi0
    asc = r.ascale
    ja, jb, jc = r.joint_baseline()
    if np.sum(jc <= jc.min() + 1e-7 * full) > 1:
        m.expect("skip:undecidable", True)
        return
    a = m.call(m.call(qp.OptimumFilter, sig, t, psd, fs, coupling="AC").ofamp_baseline)
    b = m.call(m.call(qp.OptimumFilter, sig, t, psd, fs, coupling="DC").ofamp_baseline)
    m.close("coupling:amp", a[0], b[0], rtol=0, atol=1e-8 * asc)
    m.close("coupling:time", a[1] * fs, b[1] * fs, atol=1e-6)
    m.close("coupling:chi2", a[2], b[2], rtol=0, atol=1e-8 * full)


def scen_recover(m, rng):
    sig, t, psd, fs, cp, _ = setup(m, rng)
    n = len(t)
    A = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-8, 3)); B = float(abs(A) * rng.normal() * rng.choice([0.0, 0.1, 1, 10]))
    k = int(rng.integers(-(n // 2), n - n // 2))
    s = A * np.roll(t, k) + B
    m.note(A=A, B=B, k=k)
    r = OFRef(s, t, psd, fs, cp)
    ja, jb, jc = r.joint_baseline()
    if np.sum(jc <= jc.min() + 1e-6 * r.chi0_full()) > 1:
        m.expect("skip:undecidable", True)
        return
    of = m.call(qp.OptimumFilter, s, t, psd, fs, coupling=cp)
    a, t0, x = m.call(of.ofamp_baseline)
    asc = np.sqrt(r.chi0_full() / np.sum(np.abs(r.S) ** 2 * r.wfull))
    m.close("recover:amp", a, A, rtol=1e-7, atol=1e-9 * asc)
    m.close("recover:time", t0 * fs, k, atol=1e-6)
    m.close("recover:chi2", x, 0, atol=1e-9 * r.chi0_full())


SCENARIOS = {"joint": (scen_joint, 400, 5000), "couplings": (scen_couplings, 200, 2000), "recover": (scen_recover, 300, 4000)}
