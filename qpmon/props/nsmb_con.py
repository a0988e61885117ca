"""C11: polarity-constrained multi-template optimum filter."""
import io, contextlib
import numpy as np
from scipy.optimize import nnls
import qetpy as qp
from .nsmb import Setup, delay_of


def con_solve(S, x, d, con, backgrounds_only=False):
    """Constrained weighted least squares by an independent NNLS solver."""
    M = S.design(d)
    idx = np.arange(1, S.nb + 1) if backgrounds_only else np.arange(S.nb + 1)
    con = np.asarray(con)[idx]
    F = np.fft.fft(M[:, idx], axis=0) / S.nt / np.sqrt(S.w)[:, None]
    X = np.fft.fft(x) / S.nt / np.sqrt(S.w)
    sc = np.linalg.norm(F, axis=0)
    A = np.concatenate([F.real, F.imag]) / sc
    b = np.r_[X.real, X.imag]
    cols, back = [], []
    for i in range(len(idx)):
        if con[i] >= 0:
            cols.append(A[:, i]); back.append((i, 1))
        if con[i] <= 0:
            cols.append(-A[:, i]); back.append((i, -1))
    bs = np.linalg.norm(b)
    z, _ = nnls(np.stack(cols, 1), b / bs, maxiter=500)
    a = np.zeros(S.nb + 1)
    for v, (i, sg) in zip(z, back):
        a[idx[i]] += sg * v * bs / sc[i]
    return a, S.chi(x - M @ a)


def run_con(m, S, x, wins, sig, bkg, lf=500):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = m.call(qp.of_nsmb_con, x, S.phi, S.Pfs, S.P, S.sf.T, S.st, S.psddnu.T, S.fs, wins, S.ns, S.nb, S.bc, lf,
                   bkgpolarityconstraint=bkg, sigpolarityconstraint=sig)
    return r


def parabola(t, c, a):
    """vertex of the parabola through three points; amplitude parabola there"""
    def coef(y):
        return ((y[2] - 2 * y[1] + y[0]) / 2, (y[2] - y[0]) / 2, y[1])
    h = t[1] - t[0]
    p, q, r = coef(c)
    u = -q / (2 * p)
    p2, q2, r2 = coef(a)
    return t[1] + u * h, p * u * u + q * u + r, p2 * u * u + q2 * u + r2


def scen_con(m, rng):
    corr = rng.random() < .4
    S = Setup(m, rng, nt=int(rng.choice([16, 21, 24, 32, 45])), nb=int(rng.integers(1, 6)), correlated=bool(corr))
    noisy = rng.random() < .8
    x, a0, d0 = S.data(rng, 1.0 if noisy else 0.0)
    if rng.random() < .3:                         # pulse sitting exactly at a trace edge
        d0 = int(rng.choice([0, S.nt - 1, S.nt // 2]))
        a0[0] = S.sig * 50 / np.abs(S.s).max()
        x = S.design(d0) @ a0 + noisy * S.sig * rng.normal(size=S.nt)
    sig = None if rng.random() < .2 else np.array([float(rng.choice([-1, 0, 1]))])
    bkg = None if rng.random() < .2 else rng.choice([-1.0, 0.0, 1.0], size=S.nb)
    if rng.random() < .15:
        bkg = np.full(S.nb, float(rng.choice([-1, 1])))
        sig = np.array([float(rng.choice([-1, 1]))])
    con = np.r_[0.0 if sig is None else sig[0], np.zeros(S.nb) if bkg is None else bkg]
    if max(S.cond_unscaled(d) for d in range(0, S.nt, max(1, S.nt // 8))) > 1e9:
        return
    k, w = S.window(rng)
    # secondary windows are indexed from the start of the trace
    a = int(rng.integers(0, S.nt - 2)); b = int(rng.integers(a + 2, S.nt + 1))
    cwin = [np.arange(a, b)] if rng.random() < .6 else []
    if cwin and rng.random() < .5:
        cwin.append(np.arange(S.nt)[None, :])
    if rng.random() < .4:                         # windows with holes
        cwin.append(np.sort(rng.choice(S.nt, size=int(rng.integers(2, S.nt)), replace=False)))
    if rng.random() < .6:                         # windows that end on the way to the pulse
        q = (d0 + S.nt // 2) % S.nt; k = int(rng.integers(2, 8))
        e = np.arange(q, q + k) if rng.random() < .5 else np.arange(q - k, q + 1)
        e = e[(e >= 0) & (e < S.nt)]
        if len(e) > 1:
            cwin.append(e)
    lf = int(rng.integers(1, S.nt + 20))
    m.note(noisy=bool(noisy), window=k, con=[float(c) for c in con], d0=d0, cw=len(cwin))
    (amp, t0, chi2, chilf, resid, ca, cc, ct, ampi, ti, chii, cai, cci, cti) = \
        run_con(m, S, x, [w[None, :].copy()] + [c.copy() for c in cwin], sig, bkg, lf)
    dset = np.unique(np.mod(w, S.nt))
    sols = {d: con_solve(S, x, d, con) for d in range(S.nt)}
    call = np.array([sols[d][1] for d in range(S.nt)])
    aall = np.array([sols[d][0] for d in range(S.nt)])
    base = S.chi(x)
    tol = 1e-7 * base
    amp = np.atleast_1d(amp)
    d, raw = delay_of(S, t0)
    m.expect("con:time", abs(raw - np.rint(raw)) < 1e-6 and d in dset and -S.nt / 2 <= raw <= S.nt / 2, f"delay {raw}")
    m.expect("con:sign", np.all((con == 0) | (con * amp >= -1e-10 * np.abs(amp).max())), f"amps {amp} con {con}")
    r = x - S.design(d) @ amp
    m.close("con:chi2-is-residual", np.ravel(chi2)[0], S.chi(r), rtol=1e-8, atol=1e-10 * base)
    m.close("con:resid", np.ravel(resid), r, rtol=0, atol=1e-9 * np.abs(x).max())
    m.close("con:chi2lf", np.ravel(chilf)[0], S.chi(r, lf), rtol=1e-7, atol=1e-10 * base)
    m.close("con:constrained-minimum", np.ravel(chi2)[0], call[d], rtol=1e-7, atol=tol)
    m.expect("con:best-in-window", call[d] <= call[dset].min() + tol, f"{call[d]} best {call[dset].min()}")
    free = S.solve(x, d)
    m.expect("con:not-below-free", np.ravel(chi2)[0] >= free[1] - tol)
    if np.all((con == 0) | (con * free[0] > 0)):
        m.close("con:equals-free-when-allowed", np.ravel(chi2)[0], free[1], rtol=1e-7, atol=tol)
        m.close("con:amps-free", amp / np.abs(free[0]).max(), free[0] / np.abs(free[0]).max(), rtol=1e-4)
    # between-bin estimate: vertex of the circular three-point parabola
    n3 = call[[(d - 1) % S.nt, d, (d + 1) % S.nt]]
    curv = n3[0] - 2 * n3[1] + n3[2]
    if n3[1] < min(n3[0], n3[2]) and curv > 1e-5 * base:
        tt, c3, a3 = parabola(np.array([-1, 0, 1.0]), n3, aall[[(d - 1) % S.nt, d, (d + 1) % S.nt], 0])
        off = float(np.ravel(ti)[0]) * S.fs - raw
        off -= S.nt * np.rint(off / S.nt)
        m.close("interp:time", off, tt, rtol=0, atol=1e-4)
        m.close("interp:chi2", np.ravel(chii)[0], c3, rtol=1e-6, atol=1e-6 * base)
        m.close("interp:amp", np.ravel(ampi)[0], a3, rtol=1e-5, atol=1e-5 * np.abs(aall[:, 0]).max())
    for i, cw in enumerate(cwin):
        cw = np.ravel(cw)
        dd = np.mod(cw - S.nt // 2, S.nt)
        g = float(ct[i]) * S.fs
        j = int(np.rint(g))
        m.expect("cwindow:in-window", abs(g - j) < 1e-6 and j in cw, f"{g}")
        if j in cw:
            m.expect("cwindow:best", call[(j - S.nt // 2) % S.nt] <= call[dd].min() + tol)
            m.close("cwindow:chi2", cc[i], call[dd].min(), rtol=1e-7, atol=tol)
            if np.sum(call[dd] <= call[dd].min() + 10 * tol) == 1:
                m.close("cwindow:amp", ca[0, i], aall[(j - S.nt // 2) % S.nt, 0], rtol=1e-5, atol=1e-6 * np.abs(aall[:, 0]).max())
            if np.any(np.diff(cw) != 1):
                continue
            e = (j - S.nt // 2) % S.nt
            bend = call[(e - 1) % S.nt] - 2 * call[e] + call[(e + 1) % S.nt]
            m.expect("cwindow:interp-near", abs(float(cti[i]) * S.fs - g) <= .5 + 1e-3 + 3 * tol / max(bend, tol) and cci[i] <= cc[i] + tol,
                     f"{cti[i]*S.fs} vs {g}, {cci[i]} vs {cc[i]}")
            if np.sum(call[dd] <= call[dd].min() + 10 * tol) > 1:
                continue
            if j in (cw[0], cw[-1]):
                m.close("cwindow:edge-not-interpolated", [cti[i] * S.fs, cci[i], cai[0, i]], [ct[i] * S.fs, cc[i], ca[0, i]],
                        rtol=1e-9, atol=0)
            else:
                q = [(j - S.nt // 2 + o) % S.nt for o in (-1, 0, 1)]
                if call[q[0]] - 2 * call[q[1]] + call[q[2]] > 1e-5 * base:
                    tt, c3, a3 = parabola(np.array([-1, 0, 1.0]), call[q], aall[q, 0])
                    m.close("cwindow:interp-time", float(cti[i]) * S.fs - g, tt, rtol=0, atol=1e-4)
                    m.close("cwindow:interp-chi2", cci[i], c3, rtol=1e-6, atol=1e-6 * base)
                    m.close("cwindow:interp-amp", cai[0, i], a3, rtol=1e-5, atol=1e-5 * np.abs(aall[:, 0]).max())


def scen_mb_con(m, rng):
    corr = rng.random() < .5
    S = Setup(m, rng, nb=int(rng.integers(1, 7)), correlated=bool(corr))
    x, a0, d0 = S.data(rng)
    bkg = rng.choice([-1.0, 0.0, 1.0], size=S.nb)
    if S.cond_unscaled(0) > 1e9:
        return
    lf = int(rng.integers(1, S.nt + 20))
    m.note(con=[float(c) for c in bkg], corr=bool(corr))
    amp, chi2, chilf = m.call(qp.of_mb, x, S.phi, S.sf.T, S.st, S.iB, S.Bm, S.psddnu.T, S.fs, S.ns, S.nb, lf,
                              bkgpolarityconstraint=bkg)
    amp = np.atleast_1d(amp)
    con = np.r_[0, bkg]
    a, c = con_solve(S, x, 0, con, True)
    base = S.chi(x)
    m.expect("mbcon:sign", np.all((bkg == 0) | (bkg * amp >= -1e-10 * np.abs(amp).max())), f"amps {amp} con {bkg}")
    r = x - S.B @ amp
    m.close("mbcon:chi2-is-residual", np.ravel(chi2)[0], S.chi(r), rtol=1e-8, atol=1e-10 * base)
    m.close("mbcon:chi2lf", np.ravel(chilf)[0], S.chi(r, lf), rtol=1e-7, atol=1e-10 * base)
    m.close("mbcon:constrained-minimum", np.ravel(chi2)[0], c, rtol=1e-7, atol=1e-7 * base)


def scen_vs_free(m, rng):
    """With no polarity constraint at all the two filters are the same filter."""
    S = Setup(m, rng, nt=int(rng.choice([16, 24, 33])), nb=int(rng.integers(1, 5)))
    x, a0, d0 = S.data(rng)
    if max(S.cond_unscaled(d) for d in range(0, S.nt, 4)) > 1e8:
        return
    k, w = S.window(rng)
    iP = m.call(qp.of_nsmb_getiP, S.P)
    f = m.call(qp.of_nsmb, x, S.phi, S.sf.T, S.st, iP, S.psddnu.T, S.fs, [w[None, :].copy()], S.ns, S.nb, S.bc, 500)
    g = run_con(m, S, x, [w[None, :].copy()], None, None)
    base = S.chi(x)
    m.note(window=k)
    m.close("free:chi2", np.ravel(f[2])[0], np.ravel(g[2])[0], rtol=1e-7, atol=1e-8 * base)
    m.close("free:chi2lf", np.ravel(f[3])[0], np.ravel(g[3])[0], rtol=1e-6, atol=1e-8 * base)
    m.close("free:time", np.ravel(f[1])[0] * S.fs, np.ravel(g[1])[0] * S.fs, atol=1e-9)
    m.close("free:amps", f[0] / np.abs(f[0]).max(), np.atleast_1d(g[0]) / np.abs(f[0]).max(), rtol=1e-5)


def scen_bank(m, rng):
    """A bank of overlapping one-sided templates: the route to the constrained
    minimum passes through amplitudes that have to be given up again."""
    S = Setup(m, rng, nt=int(rng.choice([24, 33, 48, 64])), nb=int(rng.integers(3, 7)), bank=True)
    if S.cond_unscaled(0) > 1e7:
        return
    con = np.r_[float(rng.choice([-1, 0, 1])), rng.choice([1.0, 1.0, 1.0, -1.0, 0.0], size=S.nb)]
    t = np.arange(S.nt)
    x = np.zeros(S.nt)
    for _ in range(int(rng.integers(1, 4))):          # shapes in between those of the bank
        x += rng.choice([1, 1, 1, -1]) * rng.uniform(.2, 3) * np.roll(np.exp(-t / (S.nt / rng.uniform(2, 14))), int(rng.integers(0, 5)))
    if rng.random() < .7:                             # the ends of the bank, looking like its middle
        u = S.B / np.abs(S.B).max(axis=0)
        x = u[:, 0] * rng.uniform(.3, 3) + u[:, -1] * rng.uniform(.3, 3) + (rng.random() < .3) * u[:, 1]
        con[1:] = np.abs(con[1:])
    x = x * S.sig * 10 ** rng.uniform(0, 3) + S.sig * rng.normal(size=S.nt)
    base = S.chi(x)
    m.note(con=[float(c) for c in con])
    amp, chi2, chilf = m.call(qp.of_mb, x, S.phi, S.sf.T, S.st, S.iB, S.Bm, S.psddnu.T, S.fs, S.ns, S.nb, 500,
                              bkgpolarityconstraint=con[1:])
    a, c = con_solve(S, x, 0, con, True)
    m.expect("bank:mb:sign", np.all((con[1:] == 0) | (con[1:] * amp >= -1e-10 * np.abs(amp).max())), f"amps {amp} con {con}")
    m.close("bank:mb:constrained-minimum", np.ravel(chi2)[0], c, rtol=1e-7, atol=1e-8 * base)
    m.close("bank:mb:residual", np.ravel(chi2)[0], S.chi(x - S.B @ np.atleast_1d(amp)), rtol=1e-7, atol=1e-9 * base)
    if S.nt <= 33 and S.cond_unscaled(int(rng.integers(S.nt))) < 1e7:
        k, w = S.window(rng)
        r = run_con(m, S, x, [w[None, :].copy()], con[:1], con[1:])
        amp = np.atleast_1d(r[0])
        d, raw = delay_of(S, r[1])
        call = {j: con_solve(S, x, j, con)[1] for j in np.unique(np.mod(w, S.nt))}
        m.expect("bank:sign", np.all((con == 0) | (con * amp >= -1e-10 * np.abs(amp).max())), f"amps {amp} con {con}")
        m.close("bank:constrained-minimum", np.ravel(r[2])[0], min(call.values()), rtol=1e-7, atol=1e-8 * base)
        m.close("bank:residual", np.ravel(r[2])[0], S.chi(x - S.design(d) @ amp), rtol=1e-7, atol=1e-9 * base)


SCENARIOS = {"bank": (scen_bank, 600, 6000), "con": (scen_con, 500, 5000), "mb_con": (scen_mb_con, 400, 4000), "vs_free": (scen_vs_free, 100, 1000)}
