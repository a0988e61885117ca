"""C10 (and shared pieces of C11/C12): multi-template optimum filters, judged
by direct evaluation of the noise-weighted residual of the trace."""
import numpy as np
import qetpy as qp
from .. import ref


class Setup:
    """One filter set-up together with its reference (definition-level) model."""

    def __init__(self, m, rng, nt=None, nb=None, correlated=False, bank=False):
        big = rng.random() < .015
        self.nt = nt = int(nt or (rng.choice([256, 401, 1000, 1024]) if big else rng.choice([16, 25, 33, 48, 64, 97, 128])))
        self.nb = nb = int(nb or rng.integers(1, 7))
        self.fs = fs = float(rng.choice([1.0, 625e3, 1.25e6, 50.0]))
        t = np.arange(nt)
        s = np.exp(-t / (nt / rng.uniform(4, 8))) - np.exp(-t / (nt / rng.uniform(12, 30)))
        self.s = np.roll(s / s.max(), int(rng.integers(0, nt)) if rng.random() < .3 else 0)
        kind = "bank" if bank else "corr" if correlated else str(rng.choice(["noise", "pulses", "poly"]))
        if kind == "noise":
            B = rng.normal(size=(nt, nb))
        elif kind == "poly":
            B = np.stack([np.cos(np.pi * k * (t + .5) / nt) if k else np.ones(nt) for k in range(nb)], 1)
        elif kind == "bank":
            B = np.stack([np.roll(np.exp(-t / (nt / u)), int(o)) for u, o in
                          zip(np.geomspace(1.5, rng.uniform(10, 20), nb), rng.integers(0, 4, size=nb))], 1)
        else:
            off = [int(rng.integers(0, max(3, nt // 6))) if kind == "corr" else (k * nt) // (nb + 1) for k in range(nb)]
            B = np.stack([np.roll(np.exp(-t / (nt / rng.uniform(4, 9))), o) for o in off], 1)
        self.B = B * 10 ** rng.uniform(-2, 2, size=nb)
        level = 10 ** rng.uniform(-24, 2)
        f = np.abs(np.fft.fftfreq(nt))
        self.psd = level * (rng.uniform(.2, 2) + rng.uniform(0, 3) / (1 + (f / .1) ** 2) + .3 * np.cos(2 * np.pi * f) ** 2)
        self.kind = kind
        # the DC bin of a measured PSD says nothing (traces with their baselines taken off)
        self.psd[0] *= float(rng.choice([1, 1, 0, 1e-6, 1e-3, .5, 2, 1e3, 1e6, np.inf]))
        w = self.psd * fs / nt
        w[0] = w[1]
        self.w = w
        self.sig = np.sqrt(level * fs)           # rough noise amplitude
        m.note(nt=nt, nb=nb, fs=fs, kind=kind, level=level)
        self.psddnu, self.phi, self.Pfs, self.P, self.sf, self.st, self.iB, self.Bm, self.ns, self.nb_, self.bc, self.lf = \
            m.call(qp.of_nsmb_setup, self.s.copy(), self.B.copy(), self.psd.copy(), fs)
        self.s_scale = np.abs(self.s).max()

    def design(self, d):
        return np.concatenate([np.roll(self.s, d)[:, None], self.B], 1)

    def data(self, rng, noise=1.0):
        d = int(rng.integers(0, self.nt))
        a = rng.normal(size=self.nb + 1) * self.sig * 10 ** rng.uniform(-.5, 1.5) / np.abs(self.design(0)).max(axis=0)
        x = self.design(d) @ a
        if noise:
            x = x + noise * self.sig * rng.normal(size=self.nt)
        return x, a, d

    def chi(self, x, lf=None):
        """chi-square of a residual trace"""
        X = np.fft.fft(x) / self.nt
        c = np.abs(X) ** 2 / self.w
        return c[:lf].sum() if lf else c.sum()

    def solve(self, x, d, idx=None):
        """least squares of the trace on the delayed signal and the backgrounds"""
        M = self.design(d)
        idx = np.arange(self.nb + 1) if idx is None else np.asarray(idx, int)
        a = np.zeros(self.nb + 1)
        if idx.size:
            F = np.fft.fft(M[:, idx], axis=0) / self.nt / np.sqrt(self.w)[:, None]
            X = np.fft.fft(x) / self.nt / np.sqrt(self.w)
            sc = np.linalg.norm(F, axis=0)
            A = np.concatenate([F.real, F.imag]) / sc
            a[idx] = np.linalg.lstsq(A, np.r_[X.real, X.imag], rcond=1e-13)[0] / sc
        return a, self.chi(x - M @ a)

    def cond(self, d):
        F = np.fft.fft(self.design(d), axis=0) / np.sqrt(self.w)[:, None]
        F = F / np.linalg.norm(F, axis=0)
        return np.linalg.cond((F.conj().T @ F).real)

    def cond_unscaled(self, d):
        F = np.fft.fft(self.design(d), axis=0) / np.sqrt(self.w)[:, None]
        return np.linalg.cond((F.conj().T @ F).real)

    def window(self, rng):
        nt = self.nt
        k = str(rng.choice(["all", "range", "scatter", "negative", "single", "large"]))
        if k == "all":
            w = np.arange(nt)
        elif k == "range":
            a, b = sorted(rng.choice(nt + 1, size=2, replace=False)); w = np.arange(a, b)
        elif k == "scatter":
            w = rng.choice(nt, size=int(rng.integers(1, nt)), replace=False)
        elif k == "negative":
            w = np.arange(-int(rng.integers(1, nt // 2)), int(rng.integers(0, nt // 2)))
        elif k == "single":
            w = rng.integers(0, nt, size=1)
        else:
            w = np.arange(nt // 2, nt // 2 + int(rng.integers(1, nt)))
        return k, w.astype(int)


def delay_of(S, t0):
    d = np.ravel(t0) * S.fs
    return int(np.rint(d[0])) % S.nt, float(d[0])


def scen_fit(m, rng):
    S = Setup(m, rng)
    noisy = rng.random() < .7
    x, a0, d0 = S.data(rng, 1.0 if noisy else 0.0)
    k, w = S.window(rng)
    lf = int(rng.integers(1, S.nt + 20)) if rng.random() < .7 else 500
    m.note(noisy=bool(noisy), window=k, d0=d0, lfindex=lf)
    dset = np.unique(np.mod(w, S.nt))
    worst = max(S.cond_unscaled(d) for d in dset[:: max(1, len(dset) // 8)])
    iP = m.call(qp.of_nsmb_getiP, S.P)
    amp, t0, chi2, chilf, resid = m.call(qp.of_nsmb, x, S.phi, S.sf.T, S.st, iP, S.psddnu.T, S.fs, [w[None, :].copy()],
                                         S.ns, S.nb, S.bc, lf)
    if worst > 1e9:
        return
    sols = {d: S.solve(x, d) for d in dset}
    cs = np.array([sols[d][1] for d in dset])
    base = S.chi(x)
    d, raw = delay_of(S, t0)
    m.expect("time:on-grid-and-range", abs(raw - np.rint(raw)) < 1e-6 and -S.nt / 2 <= raw <= S.nt / 2, f"delay {raw} of {S.nt}")
    m.expect("time:in-window", d in sols, f"delay bin {d} outside the window")
    if d not in sols:
        return
    tol = 1e-9 * base * max(1, worst / 1e4)
    m.expect("delay:best-in-window", sols[d][1] <= cs.min() + tol, f"chi2 at returned delay {sols[d][1]} best {cs.min()}")
    m.close("amps:least-squares", amp / np.abs(sols[d][0]).max(), sols[d][0] / np.abs(sols[d][0]).max(), rtol=1e-7 * max(1, worst / 1e4))
    m.close("chi2:is-residual", np.ravel(chi2)[0], S.chi(x - S.design(d) @ amp), rtol=1e-7, atol=tol)
    m.close("chi2:minimum", np.ravel(chi2)[0], cs.min(), rtol=1e-7, atol=tol)
    r = x - S.design(d) @ amp
    m.close("resid", np.ravel(resid), r, rtol=1e-8, atol=1e-9 * np.abs(x).max())
    m.close("chi2lf", np.ravel(chilf)[0], S.chi(r, lf), rtol=1e-7, atol=tol)
    if not noisy and d0 in sols:
        m.close("recover:chi2", np.ravel(chi2)[0], 0, atol=tol * 10)
    if not noisy and d0 in sols and np.sum(cs <= cs.min() + 1e-6 * base) == 1:
        m.expect("recover:delay", d == d0, f"{d} != {d0}")
        m.close("recover:amps", amp, a0, rtol=1e-6 * max(1, worst / 1e4))
    # linear in the trace at fixed delay
    one = [np.array([[d]])]
    c = float(rng.choice([-3.0, 1e-3, 1e6]))
    y, _, _ = S.data(rng)
    A1 = m.call(qp.of_nsmb, x, S.phi, S.sf.T, S.st, iP, S.psddnu.T, S.fs, one, S.ns, S.nb, S.bc, lf)
    A2 = m.call(qp.of_nsmb, y, S.phi, S.sf.T, S.st, iP, S.psddnu.T, S.fs, one, S.ns, S.nb, S.bc, lf)
    A3 = m.call(qp.of_nsmb, c * x + y, S.phi, S.sf.T, S.st, iP, S.psddnu.T, S.fs, one, S.ns, S.nb, S.bc, lf)
    sc = np.abs(c * A1[0]).max() + np.abs(A2[0]).max()
    m.close("linear:amps", A3[0] / sc, (c * A1[0] + A2[0]) / sc, rtol=0, atol=1e-9 * max(1, worst / 1e4))
    m.close("fixed:same", A1[0], amp, rtol=1e-9 * max(1, worst / 1e4))


def scen_mb(m, rng):
    S = Setup(m, rng)
    x, a0, d0 = S.data(rng)
    noiseless = rng.random() < .3
    if noiseless:
        x = S.B @ a0[1:]
    lf = int(rng.integers(1, S.nt + 20))
    m.note(noiseless=bool(noiseless), lfindex=lf)
    if S.cond_unscaled(0) > 1e9:
        return
    amp, chi2, chilf = m.call(qp.of_mb, x, S.phi, S.sf.T, S.st, S.iB, S.Bm, S.psddnu.T, S.fs, S.ns, S.nb, lf)
    a, c = S.solve(x, 0, np.arange(1, S.nb + 1))
    amp = np.atleast_1d(amp)
    base = S.chi(x)
    r = x - S.B @ amp
    m.close("mb:amps", amp / np.abs(a).max(), a[1:] / np.abs(a).max(), rtol=1e-6)
    m.close("mb:chi2-is-residual", np.ravel(chi2)[0], S.chi(r), rtol=1e-8, atol=1e-9 * base)
    m.close("mb:chi2-minimum", np.ravel(chi2)[0], c, rtol=1e-7, atol=1e-9 * base)
    m.close("mb:chi2lf", np.ravel(chilf)[0], S.chi(r, lf), rtol=1e-7, atol=1e-9 * base)
    if noiseless:
        m.close("mb:recover", amp, a0[1:], rtol=1e-6)
    # adding a signal template can only lower chi-square
    iP = m.call(qp.of_nsmb_getiP, S.P)
    full = m.call(qp.of_nsmb, x, S.phi, S.sf.T, S.st, iP, S.psddnu.T, S.fs, [np.arange(S.nt)[None]], S.ns, S.nb, S.bc, lf)
    m.expect("mb:nested", np.ravel(full[2])[0] <= np.ravel(chi2)[0] * (1 + 1e-9) + 1e-8 * base)


SCENARIOS = {"fit": (scen_fit, 800, 8000), "mb": (scen_mb, 400, 4000)}
