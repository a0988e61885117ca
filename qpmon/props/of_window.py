"""C02: window and polarity requests are honoured, and the fit is best among what they allow."""
import numpy as np
import qetpy as qp
from ..ref import *
from .of import setup


def draw_request(rng, n, allow_none=True):
    r = rng.random()
    if allow_none and r < 0.12:
        k = None
    elif r < 0.25:
        k = int(rng.choice([1, 2, 3]))
    elif r < 0.4:
        k = int(rng.choice([n - 2, n - 1, n, n + 1, 2 * n, n // 2]))
    else:
        k = int(rng.integers(1, n + 3))
    k = None if k is None else max(k, 1)
    out = bool(rng.random() < 0.4)
    r = rng.random()
    if r < 0.3:
        c = 0
    elif r < 0.5:
        c = int(rng.choice([-(n // 2), n - n // 2 - 1, -(n // 2) + 1, n - n // 2 - 2]))
    else:
        c = int(rng.integers(-(n // 2), n - n // 2))
    return k, out, c, int(rng.choice([-1, 0, 0, 1]))


def judge_choice(m, tag, n, fs, amps, chi, empty_chi, allowed, sign, res, ascale, cscale, truthful=None):
    """(amp, t0, chi2) must be a best allowed bin of the per-bin reference fits."""
    amp, t0, chi2 = res
    cand = allowed.copy()
    sure = allowed.copy()
    if sign:
        sure &= sign * amps > 1e-8 * ascale
        cand &= sign * amps > -1e-8 * ascale
    ctol = 1e-8 * cscale
    if amp == 0 and t0 == 0 and abs(chi2 - empty_chi) <= ctol and not sure.any():
        m.expect(tag + ":empty", True)
        return
    b = t0 * fs
    if not m.expect(tag + ":on-grid", abs(b - round(b)) < 1e-6, f"t={t0}"):
        return
    k = int(round(b)) + n // 2
    if not m.expect(tag + ":in-window", 0 <= k < n and allowed[k],
                    f"bin {k - n // 2} not allowed; allowed bins {[int(i) - n // 2 for i in np.flatnonzero(allowed)][:40]} amp={amp} chi2={chi2} empty_chi={empty_chi}"):
        return
    if sign:
        m.expect(tag + ":sign", sign * amp > 0, f"amp {amp} for direction {sign}")
    m.close(tag + ":amp", amp, amps[k], rtol=0, atol=1e-7 * ascale)
    m.close(tag + ":chi2", chi2, chi[k], rtol=0, atol=ctol)
    if sure.any():
        j = np.flatnonzero(sure)[np.argmin(chi[sure])]
        m.expect(tag + ":best", chi2 <= chi[j] + ctol,
                 f"bin {k - n // 2} ({chi2}) chosen over allowed bin {j - n // 2} ({chi[j]})")


def interp_choice(m, tag, n, fs, amps, chi, allowed, sign, res, ascale, cscale):
    amp, t0, chi2 = res
    ok = allowed.copy()
    if sign:
        ok &= sign * amps > 0
        if (np.abs(amps) < 1e-8 * ascale).any():
            return
    if not ok.any():
        return
    best = chi[ok].min()
    cand = np.flatnonzero(ok & (chi <= best + 1e-9 * cscale))
    # only circular local minima have a meaningful vertex
    for c in cand:
        if not (chi[(c - 1) % n] >= chi[c] and chi[(c + 1) % n] >= chi[c]):
            return
    if len(cand) > 3:
        return
    parabola_ok(m, tag + ":interp", chi, amps, cand, fs, t0, amp, chi2, n, ascale, cscale)


def tiny(m, rng):
    """Small traces make every boundary of a window likely to matter."""
    if rng.random() < 0.5:
        return setup(m, rng)
    n = int(rng.integers(8, 26)); fs = gen_fs(rng)
    tk, t = gen_template(rng, n)
    pk, psd = gen_psd(rng, n, fs)
    sk, sig = gen_signal(rng, t, psd, fs)
    cp = str(rng.choice(["AC", "DC"]))
    m.note(n=n, fs=fs, template=tk, psd=pk, signal=sk, coupling=cp, s0=float(sig[0]))
    return sig, t, psd, fs, cp, False


def scen_withdelay(m, rng):
    sig, t, psd, fs, cp, inorm = tiny(m, rng)
    n = len(t)
    r = OFRef(sig, t, psd, fs, cp, inorm)
    amps, chi = r.scan()
    of = m.call(qp.OptimumFilter, sig, t, psd, fs, coupling=cp, integralnorm=inorm)
    reqs = []
    for _ in range(6):
        k, out, c, sgn = draw_request(rng, n)
        reqs.append([k, out, c, sgn])
        al = window_mask(n, k, out, c)
        res = m.call(of.ofamp_withdelay, nconstrain=k, lgcoutsidewindow=out, windowcenter=c,
                     pulse_direction_constraint=sgn)
        judge_choice(m, "withdelay", n, fs, amps, chi, r.chi0, al, sgn, res, r.ascale, r.chi0)
        if rng.random() < 0.4:
            res = m.call(of.ofamp_withdelay, nconstrain=k, lgcoutsidewindow=out, windowcenter=c,
                         pulse_direction_constraint=sgn, interpolate_t0=True)
            interp_choice(m, "withdelay", n, fs, amps, chi, al, sgn, res, r.ascale, r.chi0)
        if c == 0 and sgn == 0 and al.any():
            f = m.call(qp.ofamp, sig, t, psd, fs, coupling=cp, nconstrain=k, lgcoutsidewindow=out, integralnorm=inorm)
            judge_choice(m, "ofamp", n, fs, amps, chi, r.chi0, al, 0, f, r.ascale, r.chi0)
    m.note(reqs=reqs)
    # the fixed-delay fit is the single-bin window
    c = int(rng.integers(-(n // 2), n - n // 2))
    a, x = m.call(of.ofamp_nodelay, windowcenter=c)
    m.close("nodelay:chi2", x, chi[c + n // 2], rtol=0, atol=1e-8 * r.chi0)
    m.close("nodelay:amp", a, amps[c + n // 2], rtol=0, atol=1e-7 * r.ascale)
    a2, t2, x2 = m.call(of.ofamp_withdelay, nconstrain=1, windowcenter=c)
    m.close("one-bin:amp", a2, a, rtol=0, atol=1e-7 * r.ascale)
    m.close("one-bin:chi2", x2, x, rtol=0, atol=1e-8 * r.chi0)
    m.close("one-bin:time", t2 * fs, c, rtol=0, atol=1e-6)


def scen_function_batch(m, rng):
    sig, t, psd, fs, cp, inorm = tiny(m, rng)
    n = len(t); nb = int(rng.integers(2, 6))
    sigs = np.array([gen_signal(rng, t, psd, fs)[1] for _ in range(nb)])
    k = max(1, int(rng.integers(1, n))); out = bool(rng.random() < 0.5)
    al = window_mask(n, k, out, 0)
    if not al.any():
        k, out = 1, False
        al = window_mask(n, k, out, 0)
    m.note(k=k, out=out, nb=nb)
    a, t0, x = m.call(qp.ofamp, sigs, t, psd, fs, coupling=cp, nconstrain=k, lgcoutsidewindow=out, integralnorm=inorm)
    for i in range(nb):
        r = OFRef(sigs[i], t, psd, fs, cp, inorm)
        amps, chi = r.scan()
        judge_choice(m, "batch", n, fs, amps, chi, r.chi0, al, 0, (a[i], t0[i], x[i]), r.ascale, r.chi0)


def scen_baseline(m, rng):
    sig, t, psd, fs, cp, _ = tiny(m, rng)
    n = len(t)
    r = OFRef(sig, t, psd, fs, cp)
    ja, jb, jc = r.joint_baseline()
    full = r.chi0_full()
    near = np.flatnonzero(jc <= jc.min() + 1e-9 * full)
    if len(near) > 1:
        m.expect("baseline:ambiguous-skip", True)
        near = near[:1] if np.ptp(jb[near]) < 1e-9 * np.abs(jb).max() else []
    of = m.call(qp.OptimumFilter, sig, t, psd, fs, coupling=cp)
    normf = np.sum(np.abs(r.S) ** 2 * r.wfull)
    reqs = []
    for _ in range(5):
        k, out, c, sgn = draw_request(rng, n)
        reqs.append([k, out, c, sgn])
        al = window_mask(n, k, out, c)
        res = m.call(of.ofamp_baseline, nconstrain=k, lgcoutsidewindow=out, windowcenter=c, pulse_direction_constraint=sgn)
        ires = m.call(of.ofamp_baseline, nconstrain=k, lgcoutsidewindow=out, windowcenter=c,
                      pulse_direction_constraint=sgn, interpolate_t0=True)
        for kk in near:
            V = r.without(base=jb[kk])
            amps, chi = r.scan(V, r.wfull)
            e = float(np.sum(np.abs(V) ** 2 * r.wfull))
            sc = np.sqrt(full / normf)
            judge_choice(m, "baseline", n, fs, amps, chi, e, al, sgn, res, sc, full)
            interp_choice(m, "baseline", n, fs, amps, chi, al, sgn, ires, sc, full)
    m.note(reqs=reqs)


def scen_pileup(m, rng):
    sig, t, psd, fs, cp, inorm = tiny(m, rng)
    n = len(t)
    r = OFRef(sig, t, psd, fs, cp, inorm)
    amps, chi = r.scan()
    b = int(np.argmin(chi)) if rng.random() < 0.5 else int(rng.integers(n))
    a1 = float(amps[b] * rng.choice([1.0, 0.5, -1.0]))
    t1 = (b - n // 2) / fs
    V = r.without((a1, t1))
    amps2, chi2 = r.scan(V)
    e = float(np.sum(np.abs(V) ** 2 * r.w))
    sc = r.chi0 + a1 * a1 * r.norm
    asc = np.sqrt(sc / r.norm)
    of = m.call(qp.OptimumFilter, sig, t, psd, fs, coupling=cp, integralnorm=inorm)
    reqs = []
    for _ in range(5):
        k, out, c, sgn = draw_request(rng, n)
        reqs.append([k, out, c, sgn])
        al = window_mask(n, k, out, c)
        res = m.call(of.ofamp_pileup_iterative, a1, t1, nconstrain=k, lgcoutsidewindow=out, windowcenter=c,
                     pulse_direction_constraint=sgn)
        judge_choice(m, "pileup", n, fs, amps2, chi2, e, al, sgn, res, asc, sc)
        if rng.random() < 0.4:
            res = m.call(of.ofamp_pileup_iterative, a1, t1, nconstrain=k, lgcoutsidewindow=out, windowcenter=c,
                         pulse_direction_constraint=sgn, interpolate_t0=True)
            interp_choice(m, "pileup", n, fs, amps2, chi2, al, sgn, res, asc, sc)
        if al.any() and not inorm and c == 0:
            f = m.call(qp.ofamp_pileup, sig, t, psd, fs, a1=a1, t1=t1, coupling=cp, nconstrain2=k, lgcoutsidewindow=out)
            judge_choice(m, "pileup-fn", n, fs, amps2, chi2, e, al, 0, f[2:], asc, sc)
            m.expect("pileup-fn:given-first", f[0] == a1 and f[1] == t1)
        if al.any() and not inorm:
            # the function's own first pulse obeys its window
            k1 = max(1, int(rng.integers(1, n + 1)))
            f = m.call(qp.ofamp_pileup, sig, t, psd, fs, coupling=cp, nconstrain1=k1)
            judge_choice(m, "pileup-fn:first", n, fs, amps, chi, r.chi0, window_mask(n, k1), 0,
                         (f[0], f[1], r.chi2((f[0], f[1]))), r.ascale, r.chi0)
    m.note(reqs=reqs, a1=a1, t1=t1)


def scen_stationary(m, rng):
    sig, t, psd, fs, cp, inorm = tiny(m, rng)
    n = len(t)
    r = OFRef(sig, t, psd, fs, cp, inorm)
    a1, a2, chi, cond = r.two_pulse()
    reqs = []
    of = m.call(qp.OptimumFilter, sig, t, psd, fs, coupling=cp, integralnorm=inorm)
    for _ in range(5):
        k, out, c, _ = draw_request(rng, n)
        al = window_mask(n, k, out, c)
        if not al.any():
            continue
        reqs.append([k, out, c])
        ctol = r.chi0 * (1e-8 + 1e-13 * cond[al].max())
        if not np.isfinite(ctol) or ctol > 1e-3 * r.chi0:
            continue
        rs = [("stationary", m.call(of.ofamp_pileup_stationary, nconstrain=k, lgcoutsidewindow=out, windowcenter=c))]
        if c == 0 and not inorm:
            rs.append(("stationary-fn", m.call(qp.ofamp_pileup_stationary, sig, t, psd, fs, coupling=cp,
                                               nconstrain=k, lgcoutsidewindow=out)))
        for tag, (x1, x2, t2, xc) in rs:
            b = int(round(t2 * fs)) + n // 2
            if m.expect(tag + ":in-window", 0 <= b < n and al[b] and abs(t2 * fs - round(t2 * fs)) < 1e-6,
                        f"bin {b - n // 2} not allowed for {k, out, c}"):
                m.expect(tag + ":best", xc <= chi[al].min() + ctol, f"{xc} at {b - n // 2} vs {chi[al].min()}")
                m.close(tag + ":chi2", xc, chi[b], rtol=0, atol=ctol)
    m.note(reqs=reqs)
    m.expect("stationary:done", True)


def scen_invalid(m, rng):
    sig, t, psd, fs, cp, _ = tiny(m, rng)
    n = len(t)
    of = m.call(qp.OptimumFilter, sig, t, psd, fs, coupling=cp)
    for fn, a in ((of.ofamp_withdelay, ()), (of.ofamp_baseline, ()), (of.ofamp_pileup_iterative, (1.0, 0.0)),
                  (of.ofamp_pileup_stationary, ())):
        for bad in (0, -1, -n):
            m.raises("invalid:window", ValueError, fn, *a, nconstrain=bad)
        for bad in (-(n // 2) - 1, n - n // 2, 3 * n):
            m.raises("invalid:center", ValueError, fn, *a, nconstrain=5, windowcenter=bad)
            m.raises("invalid:center-free", ValueError, fn, *a, windowcenter=bad)
        if fn != of.ofamp_pileup_stationary:
            for bad in (2, -2, 5):
                m.raises("invalid:direction", ValueError, fn, *a, pulse_direction_constraint=bad)
        # the extreme legal centres are legal
        for c in (-(n // 2), n - n // 2 - 1):
            m.call(fn, *a, nconstrain=3, lgcoutsidewindow=False, windowcenter=c)
            m.expect("valid:center", True)
    m.raises("invalid:fn", ValueError, qp.ofamp, sig, t, psd, fs, nconstrain=0)


SCENARIOS = {"withdelay": (scen_withdelay, 900, 12000), "batch": (scen_function_batch, 200, 3000),
             "baseline": (scen_baseline, 400, 5000), "pileup": (scen_pileup, 500, 8000),
             "stationary": (scen_stationary, 300, 4000), "invalid": (scen_invalid, 24, 200)}
