"""C04: an optimum-filter object with any history behaves like a fresh one."""
import numpy as np
import qetpy as qp
from ..ref import *
from .of_window import draw_request


def draw_op(rng, n, fs, amp):
    op = str(rng.choice(["withdelay", "nodelay", "baseline", "pileup", "stationary", "nopulse", "lowfreq",
                         "energy", "time"]))
    k, out, c, sgn = draw_request(rng, n)
    ip = bool(rng.random() < 0.3)
    if op == "withdelay":
        return "ofamp_withdelay", (), dict(nconstrain=k, lgcoutsidewindow=out, windowcenter=c,
                                           pulse_direction_constraint=sgn, interpolate_t0=ip)
    if op == "nodelay":
        return "ofamp_nodelay", (), (dict(windowcenter=c) if rng.random() < 0.6 else {})
    if op == "baseline":
        return "ofamp_baseline", (), dict(nconstrain=k, lgcoutsidewindow=out, windowcenter=c,
                                          pulse_direction_constraint=sgn, interpolate_t0=ip)
    if op == "pileup":
        t1 = (int(rng.integers(-(n // 2), n - n // 2)) + (rng.random() if rng.random() < 0.3 else 0)) / fs
        return "ofamp_pileup_iterative", (float(amp * rng.normal()), float(t1)), dict(
            nconstrain=k, lgcoutsidewindow=out, windowcenter=c, pulse_direction_constraint=sgn, interpolate_t0=ip)
    if op == "stationary":
        if not window_mask(n, k, out, c).any():
            k = None
        return "ofamp_pileup_stationary", (), dict(nconstrain=k, lgcoutsidewindow=out, windowcenter=c)
    if op == "nopulse":
        return "chi2_nopulse", (), {}
    if op == "lowfreq":
        return "chi2_lowfreq", (float(amp * rng.normal()), float(rng.normal() * n / fs / 4)), dict(
            fcutoff=float(fs * rng.uniform(0, 0.6)))
    if op == "energy":
        return "energy_resolution", (), {}
    return "time_resolution", (float(amp),), {}


class Scale:
    """Natural sizes of amplitudes and chi-squares for one trace."""

    def __init__(self, sig, t, psd, fs, tie=False):
        r = OFRef(sig, t, psd, fs, "DC")
        self.c = r.chi0
        self.a = r.ascale
        self.tie = tie            # symmetric template or noiseless trace: exact ties exist
        self.fs = fs

    def agree(self, meth, got, want, args=()):
        g = np.atleast_1d(np.asarray(got, float)); w = np.atleast_1d(np.asarray(want, float))
        if g.shape != w.shape:
            return False
        a, c = self.a, self.c
        if meth == "ofamp_pileup_iterative" and len(args):
            c = c + args[0] ** 2 * (c / a ** 2 if a > 0 else 1)
            a = np.hypot(a, args[0])
        if meth == "chi2_lowfreq":
            c = c + args[0] ** 2 * (c / a ** 2 if a > 0 else 1)
        sc = {"ofamp_withdelay": (a, 1e-3 / self.fs * 1e8, c), "ofamp_baseline": (a, 1e-3 / self.fs * 1e8, c),
              "ofamp_pileup_iterative": (a, 1e-3 / self.fs * 1e8, c), "ofamp_nodelay": (a, c),
              "ofamp_pileup_stationary": (a, a, 1e-3 / self.fs * 1e8, c), "chi2_nopulse": (c,),
              "chi2_lowfreq": (c,)}.get(meth)
        tol = 1e-10 * np.maximum(np.abs(g), np.abs(w))
        tol = np.where(np.isnan(tol), 0, tol)
        if sc is not None:
            tol = tol + 1e-10 * np.array(sc)
        ok = (np.abs(g - w) <= tol) | (np.isnan(g) & np.isnan(w)) | (g == w)
        if ok.all():
            return True
        return bool(self.tie and ok[-1])


def scen_history(m, rng):
    n = gen_nbins(rng); fs = gen_fs(rng)
    tk, t = gen_template(rng, n)
    pk, psd = gen_psd(rng, n, fs)
    cp = str(rng.choice(["AC", "DC"])); inorm = bool(rng.random() < 0.25) and abs(t.sum()) > 0.05 * np.abs(t).sum()
    res = 1 / np.sqrt(np.sum(np.abs(np.fft.fft(t) / fs) ** 2 / psd) * fs / n)
    amp = res * 20 * (t.sum() / fs if inorm else 1)
    ks = [gen_signal(rng, t, psd, fs) for _ in range(4)]
    sigs = [k[1] for k in ks]
    ties = [tk == "bump" or k[0].startswith("clean") for k in ks]
    if rng.random() < 0.3:
        sigs.append(np.zeros(n)); ties.append(True)
    if rng.random() < 0.5:      # signals that a careless comparison could take for the first one
        twin = sigs[0].copy()
        how = int(rng.integers(4))
        if how == 0: twin = np.roll(twin, int(rng.integers(1, n)))
        elif how == 1: twin = twin[::-1].copy()
        elif how == 2: twin[int(rng.integers(1, n))] += amp * 3
        else: twin = -twin
        sigs.append(twin); ties.append(True)
    scales = [Scale(s, t if not inorm else t * fs / t.sum(), psd, fs, tie) for s, tie in zip(sigs, ties)]
    cur = 0
    buf = np.array(sigs[0], float)      # one buffer that the caller keeps refilling
    reuse = float(rng.choice([0, 0.5, 1]))
    of = m.call(qp.OptimumFilter, buf if reuse else sigs[0], t, psd, fs, coupling=cp, integralnorm=inorm)
    hist = ["new0"]
    pool = [draw_op(rng, n, fs, amp) for _ in range(int(rng.integers(2, 6)))]
    lastval = {}
    for step in range(int(rng.integers(8, 30))):
        if rng.random() < 0.3:
            cur = int(rng.integers(len(sigs)))
            if rng.random() < reuse:
                m.refill(buf, sigs[cur])
                m.call(of.update_signal, buf)
                hist.append(f"buf{cur}")
            else:
                m.call(of.update_signal, sigs[cur].copy())
                hist.append(f"sig{cur}")
        meth, a, kw = pool[int(rng.integers(len(pool)))] if rng.random() < 0.6 else draw_op(rng, n, fs, amp)
        hist.append(meth)
        got = m.call(getattr(of, meth), *a, **kw)
        fresh = qp.OptimumFilter(sigs[cur], t, psd, fs, coupling=cp, integralnorm=inorm)
        want = m.call(getattr(fresh, meth), *a, **kw)
        m.expect("history:" + meth, scales[cur].agree(meth, got, want, a), f"after {hist}: {meth}{a}{kw} = {got}, fresh object says {want}")
        # a fresh object that first saw another method must agree as well
        if rng.random() < 0.3:
            other = qp.OptimumFilter(sigs[(cur + 1) % len(sigs)], t, psd, fs, coupling=cp, integralnorm=inorm)
            m2, a2, kw2 = draw_op(rng, n, fs, amp)
            m.call(getattr(other, m2), *a2, **kw2)
            m.call(other.update_signal, sigs[cur])
            got2 = m.call(getattr(other, meth), *a, **kw)
            m.expect("history-2step:" + meth, scales[cur].agree(meth, got2, want, a),
                     f"[{m2}{a2}{kw2}, update_signal, {meth}{a}{kw}] = {got2}, fresh object says {want}")
    m.note(n=n, fs=fs, coupling=cp, history=hist)


def scen_pairs(m, rng):
    """Every ordered pair (method before the update, method after it), all options default-ish."""
    n = int(rng.integers(8, 60)); fs = gen_fs(rng)
    tk, t = gen_template(rng, n); pk, psd = gen_psd(rng, n, fs)
    cp = str(rng.choice(["AC", "DC"]))
    s0 = gen_signal(rng, t, psd, fs)[1]; k1, s1 = gen_signal(rng, t, psd, fs)
    res = 1 / np.sqrt(np.sum(np.abs(np.fft.fft(t) / fs) ** 2 / psd) * fs / n)
    ops = [("ofamp_withdelay", (), {}), ("ofamp_nodelay", (), {}), ("ofamp_nodelay", (), dict(windowcenter=2)),
           ("ofamp_baseline", (), {}), ("ofamp_pileup_iterative", (5 * res, 2 / fs), {}),
           ("ofamp_pileup_stationary", (), {}), ("chi2_nopulse", (), {}), ("chi2_lowfreq", (5 * res, 1 / fs), {}),
           ("chi2_lowfreq", (2 * res, -1 / fs), dict(fcutoff=fs / 9)), ("energy_resolution", (), {}),
           ("time_resolution", (3 * res,), {}), ("ofamp_withdelay", (), dict(nconstrain=3)),
           ("ofamp_withdelay", (), dict(pulse_direction_constraint=-1))]
    m.note(n=n, fs=fs, coupling=cp, pairs=len(ops) ** 2, s0=float(s0[0]))
    sc = Scale(s1, t, psd, fs, tk == "bump" or k1.startswith("clean"))
    want = {}
    for i, (meth, a, kw) in enumerate(ops):
        want[i] = getattr(qp.OptimumFilter(s1, t, psd, fs, coupling=cp), meth)(*a, **kw)
    for i, (m1, a1, kw1) in enumerate(ops):
        for j, (m2, a2, k2) in enumerate(ops):
            of = m.call(qp.OptimumFilter, s0, t, psd, fs, coupling=cp)
            m.call(getattr(of, m1), *a1, **kw1)
            m.call(of.update_signal, s1)
            got = m.call(getattr(of, m2), *a2, **k2)
            m.expect("pair", sc.agree(m2, got, want[j], a2), f"[{m1}{a1}{kw1}, update_signal, {m2}{a2}{k2}] = {got}, fresh {want[j]}")
            # same signal, no update
            of = m.call(qp.OptimumFilter, s1, t, psd, fs, coupling=cp)
            m.call(getattr(of, m1), *a1, **kw1)
            got = m.call(getattr(of, m2), *a2, **k2)
            m.expect("pair-same", sc.agree(m2, got, want[j], a2), f"[{m1}{a1}{kw1}, {m2}{a2}{k2}] = {got}, fresh {want[j]}")


def scen_caller(m, rng):
    """The caller may reuse its own buffers after handing them over."""
    n = gen_nbins(rng); fs = gen_fs(rng)
    tk, t = gen_template(rng, n); pk, psd = gen_psd(rng, n, fs)
    cp = str(rng.choice(["AC", "DC"]))
    s0 = np.asarray(gen_signal(rng, t, psd, fs)[1], float); s1 = np.asarray(gen_signal(rng, t, psd, fs)[1], float)
    m.note(n=n, fs=fs, coupling=cp, s0=float(s0[0]))
    buf, tb, pb = s0.copy(), t.copy(), psd.copy()
    of = m.call(qp.OptimumFilter, buf, tb, pb, fs, coupling=cp)
    if rng.random() < 0.5:
        m.refill(buf, s1)
        m.call(of.update_signal, buf)
        cur = s1
    else:
        cur = s0
    for a, v in ((buf, 7.0), (tb, -3.0), (pb, 1e9)):
        m.refill(a, v)
    fresh = qp.OptimumFilter(cur, t, psd, fs, coupling=cp)
    sc = Scale(cur, t, psd, fs, True)
    for meth, a in (("ofamp_withdelay", ()), ("ofamp_nodelay", ()), ("ofamp_baseline", ()), ("chi2_nopulse", ()),
                    ("energy_resolution", ()), ("ofamp_pileup_stationary", ()), ("chi2_lowfreq", (1.0, 0.0)),
                    ("time_resolution", (1.0,))):
        got = m.call(getattr(of, meth), *a); want = getattr(fresh, meth)(*a)
        m.expect("buffers:" + meth, sc.agree(meth, got, want, a), f"{meth} changed after the caller reused its arrays: {got} vs {want}")


SCENARIOS = {"history": (scen_history, 400, 6000), "pairs": (scen_pairs, 24, 200), "buffers": (scen_caller, 60, 600)}
