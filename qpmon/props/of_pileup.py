"""C05: two-pulse fits are truthful and minimal."""
import numpy as np
import qetpy as qp
from ..ref import *
from .of import setup
from .of_window import tiny, draw_request


def first_pulse(rng, r, n, fs):
    amps, chi = r.scan()
    kind = str(rng.choice(["fit", "grid", "grid", "offgrid", "interp", "zero", "ends", "float-noise"]))
    b = int(np.argmin(chi))
    if kind in ("grid", "float-noise"):
        b = int(rng.integers(n))
    if kind == "zero":
        b = n // 2
    if kind == "ends":
        b = int(rng.choice([0, n - 1]))
    t1 = (b - n // 2) / fs
    if kind == "offgrid":
        t1 = float(rng.uniform(-0.5, 0.5) * n / fs)
    if kind == "interp":
        t1 += float(rng.uniform(-0.5, 0.5) / fs)
    if kind == "float-noise":
        t1 = float(np.nextafter(t1, rng.choice([-1, 1]) * np.inf)) if rng.random() < .5 else (b - n // 2) * (1 / fs)
    ph = np.exp(-2j * np.pi * r.f * t1)
    a1 = float(np.real(np.sum((r.S * ph).conj() * r.V * r.w)) / r.norm) * float(rng.choice([1, 1, 0.6, -1, 2]))
    return kind, a1, float(t1)


def judge_second(m, tag, r, a1, t1, res, allowed):
    a2, t2, chi2 = res
    n, fs = r.n, r.fs
    V = r.without((a1, t1))
    amps, chi = r.scan(V)
    sc = r.chi0 + a1 * a1 * r.norm
    m.close(tag + ":chi2-truthful", chi2, r.chi2((a1, t1), (a2, t2)), rtol=0, atol=1e-9 * sc,
            detail=f"a1={a1} t1={t1} ({t1*fs} bins) a2={a2} t2={t2}")
    k = int(round(t2 * fs)) + n // 2
    if m.expect(tag + ":allowed", abs(t2 * fs - round(t2 * fs)) < 1e-6 and 0 <= k < n and allowed[k], f"t2 {t2*fs} bins"):
        m.close(tag + ":amp-optimal", a2, amps[k], rtol=0, atol=1e-8 * np.sqrt(sc / r.norm))
        m.expect(tag + ":global-min", chi2 <= chi[allowed].min() + 1e-9 * sc, f"{chi2} vs {chi[allowed].min()}")
        m.expect(tag + ":not-worse-than-single", chi2 <= r.chi2((a1, t1)) + 1e-9 * sc)


def scen_iterative(m, rng):
    sig, t, psd, fs, cp, inorm = (tiny if rng.random() < 0.3 else setup)(m, rng)
    n = len(t)
    r = OFRef(sig, t, psd, fs, cp, inorm)
    of = m.call(qp.OptimumFilter, sig, t, psd, fs, coupling=cp, integralnorm=inorm)
    firsts = []
    for _ in range(4):
        kind, a1, t1 = first_pulse(rng, r, n, fs)
        firsts.append([kind, a1, t1])
        k, out, c, _s = draw_request(rng, n)
        al = window_mask(n, k, out, c)
        if not al.any() or rng.random() < 0.4:
            k, out, c = None, True, 0
            al = np.ones(n, bool)
        res = m.call(of.ofamp_pileup_iterative, a1, t1, nconstrain=k, lgcoutsidewindow=out, windowcenter=c)
        judge_second(m, "iterative", r, a1, t1, res, al)
        sgn = int(rng.choice([-1, 1]))
        amps, chi = r.scan(r.without((a1, t1)))
        asc = np.sqrt((r.chi0 + a1 * a1 * r.norm) / r.norm)
        one = np.flatnonzero(al)[np.argmin(sgn * amps[al])]          # most likely of the refused polarity
        if sgn * amps[one] < -1e-6 * asc:
            z = m.call(of.ofamp_pileup_iterative, a1, t1, nconstrain=1, lgcoutsidewindow=False,
                       windowcenter=int(one) - n // 2, pulse_direction_constraint=sgn)
            m.expect("iterative:no-second-pulse", z[0] == 0 and z[1] == 0, f"{z}")
            m.close("iterative:no-second-chi2", z[2], r.chi2((a1, t1)), rtol=0, atol=1e-9 * (r.chi0 + a1 * a1 * r.norm))
        if rng.random() < 0.4:
            V = r.without((a1, t1)); amps, chi = r.scan(V)
            sc = r.chi0 + a1 * a1 * r.norm
            cand = np.flatnonzero(chi <= chi.min() + 1e-9 * sc)
            if len(cand) <= 3:
                i = m.call(of.ofamp_pileup_iterative, a1, t1, interpolate_t0=True)
                parabola_ok(m, "iterative:interp", chi, amps, cand, fs, i[1], i[0], i[2], n, np.sqrt(sc / r.norm), sc)
        if not inorm:
            al = window_mask(n, k, out, 0)
            if al.any():
                f = m.call(qp.ofamp_pileup, sig, t, psd, fs, a1=a1, t1=t1, coupling=cp, nconstrain2=k, lgcoutsidewindow=out)
                m.expect("fn:first-kept", f[0] == a1 and f[1] == t1)
                judge_second(m, "fn", r, a1, t1, f[2:], al)
    m.note(firsts=firsts)
    if not inorm:
        k1 = None if rng.random() < 0.5 else int(rng.integers(1, n))
        f = m.call(qp.ofamp_pileup, sig, t, psd, fs, coupling=cp, nconstrain1=k1,
                   **[{}, {"a1": 3.0}, {"t1": 2 / fs}][int(rng.integers(3))])
        amps, chi = r.scan()
        al = window_mask(n, k1)
        b = int(round(f[1] * fs)) + n // 2
        m.expect("fn:first-in-window", 0 <= b < n and al[b], f"{f}")
        m.close("fn:first-amp", f[0], amps[b % n], rtol=0, atol=1e-8 * r.ascale)
        m.expect("fn:first-best", chi[b % n] <= chi[al].min() + 1e-9 * r.chi0)
        judge_second(m, "fn-own", r, f[0], f[1], f[2:], np.ones(n, bool))


def scen_stationary(m, rng):
    sig, t, psd, fs, cp, inorm = (tiny if rng.random() < 0.3 else setup)(m, rng)
    n = len(t)
    r = OFRef(sig, t, psd, fs, cp, inorm)
    ra1, ra2, chi, cond = r.two_pulse()
    of = m.call(qp.OptimumFilter, sig, t, psd, fs, coupling=cp, integralnorm=inorm)
    for j in range(4):
        k, out, c, _s = draw_request(rng, n)
        al = window_mask(n, k, out, c)
        if not al.any() or j == 0:
            k, out, c = None, True, 0
            al = np.ones(n, bool)
        if j == 1:
            k, out, c = 1, False, 0           # only the coincident pulse
            al = window_mask(n, k, out, c)
        cm = cond[al].max()
        rel = 1e-8 + 1e-13 * cm
        if not np.isfinite(rel) or rel > 1e-4:
            continue
        rs = [("class", m.call(of.ofamp_pileup_stationary, nconstrain=k, lgcoutsidewindow=out, windowcenter=c))]
        if c == 0 and not inorm:
            rs.append(("function", m.call(qp.ofamp_pileup_stationary, sig, t, psd, fs, coupling=cp,
                                          nconstrain=k, lgcoutsidewindow=out)))
        for tag, (a1, a2, t2, x) in rs:
            tag = "stationary-" + tag
            sc = r.chi0 + (a1 ** 2 + a2 ** 2) * r.norm
            m.close(tag + ":chi2-truthful", x, r.chi2((a1, 0.0), (a2, t2)), rtol=0, atol=sc * rel,
                    detail=f"a1={a1} a2={a2} t2={t2*fs} bins")
            b = int(round(t2 * fs)) + n // 2
            if m.expect(tag + ":allowed", 0 <= b < n and al[b] and abs(t2 * fs - round(t2 * fs)) < 1e-6):
                m.close(tag + ":joint-optimum", x, chi[b], rtol=0, atol=r.chi0 * rel)
                m.expect(tag + ":global-min", x <= chi[al].min() + r.chi0 * rel, f"{x} at {b - n//2} vs {chi[al].min()}")
                if b != n // 2 and cond[b] < 1e5:
                    m.close(tag + ":amps", [a1, a2], [ra1[b], ra2[b]], rtol=0, atol=1e-6 * r.ascale * np.sqrt(cond[b]))
                elif b == n // 2:
                    m.close(tag + ":coincident-sum", a1 + a2, ra1[b] + ra2[b], rtol=0, atol=1e-7 * r.ascale)
            if c == 0 and k is None:
                amps, c1 = r.scan()
                m.expect(tag + ":not-worse-than-single", x <= c1[n // 2] + r.chi0 * rel)
    m.expect("stationary:reached", True)


def scen_recover(m, rng):
    sig, t, psd, fs, cp, inorm = setup(m, rng)
    inorm = False
    n = len(t)
    A1 = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-7, 2))
    A2 = float(A1 * rng.choice([-1, 1]) * rng.uniform(0.1, 1.5))
    stat = rng.random() < 0.5
    k1 = 0 if stat else int(rng.integers(-(n // 2), n - n // 2))
    k2 = int(rng.integers(-(n // 2), n - n // 2))
    if k2 == k1:
        k2 = k1 + 1 if k1 + 1 < n - n // 2 else k1 - 1
    off = float(rng.normal() * abs(A1)) if cp == "AC" and rng.random() < 0.5 else 0.0
    s = A1 * np.roll(t, k1) + A2 * np.roll(t, k2) + off
    m.note(A1=A1, A2=A2, k1=k1, k2=k2, stat=bool(stat))
    r = OFRef(s, t, psd, fs, cp)
    of = m.call(qp.OptimumFilter, s, t, psd, fs, coupling=cp)
    if stat:
        ra1, ra2, chi, cond = r.two_pulse()
        if np.sum(chi <= 1e-6 * r.chi0) != 1 or cond[k2 + n // 2] > 1e5:
            m.expect("skip:undecidable", True)
            return
        for tag, (a1, a2, t2, x) in (("class", m.call(of.ofamp_pileup_stationary)),
                                     ("function", m.call(qp.ofamp_pileup_stationary, s, t, psd, fs, coupling=cp))):
            m.close("recover-stationary:times", t2 * fs, k2, atol=1e-6)
            m.close("recover-stationary:amps", [a1, a2], [A1, A2], rtol=1e-5)
            m.close("recover-stationary:chi2", x, 0, atol=1e-7 * r.chi0)
    else:
        V = r.without((A1, k1 / fs)); amps, chi = r.scan(V)
        if np.sum(chi <= 1e-6 * r.chi0) != 1:
            m.expect("skip:undecidable", True)
            return
        for tag, (a2, t2, x) in (("class", m.call(of.ofamp_pileup_iterative, A1, k1 / fs)),
                                 ("function", m.call(qp.ofamp_pileup, s, t, psd, fs, a1=A1, t1=k1 / fs, coupling=cp)[2:])):
            m.close("recover-iterative:times", t2 * fs, k2, atol=1e-6)
            m.close("recover-iterative:amps", a2, A2, rtol=1e-6)
            m.close("recover-iterative:chi2", x, 0, atol=1e-8 * r.chi0)


SCENARIOS = {"iterative": (scen_iterative, 500, 8000), "stationary": (scen_stationary, 300, 4000),
             "recover": (scen_recover, 500, 6000)}
