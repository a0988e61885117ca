"""C09: non-linear pulse fits (OFnonlin, MuonTailFit)."""
import numpy as np
import qetpy as qp


def ft(parts, f, t0):
    """continuous Fourier transform of sum a*exp(-t/tau) (t>0), delayed by t0"""
    w = 2 * np.pi * f
    return sum(a * tau / (1 + 1j * w * tau) for a, tau in parts) * np.exp(-1j * w * t0)


def parts_of(npole, x, taurise=None, scaled=True):
    if npole == 4:
        A, B, C, r, f1, f2, f3, t0 = x
        return [(A, f1), (B, f2), (C, f3), (-(A + B + C), r)], t0
    if npole == 3:
        A, B, r, f1, f2, t0 = x
        return [(A, f1), (B, f2), (-(A + B), r)], t0
    if npole == 2:
        A, r, f1, t0 = x
    else:
        A, f1, t0 = x
        r = taurise
    if scaled:                       # A is the peak height of the pulse
        tp = np.log(f1 / r) * f1 * r / (f1 - r)
        A = A / (np.exp(-tp / f1) - np.exp(-tp / r))
    return [(A, f1), (-A, r)], t0


def spectrum(npole, x, n, fs, **kw):
    p, t0 = parts_of(npole, x, **kw)
    return ft(p, np.fft.fftfreq(n, 1 / fs), t0) * np.sqrt(fs / n)


def draw(rng, npole, fs, n):
    A = 10 ** rng.uniform(-8, 0)
    r = rng.uniform(4, 12) / fs
    f1 = r * rng.uniform(2.5, 6)
    f2 = f1 * rng.uniform(2.5, 4)
    f3 = f2 * rng.uniform(2.5, 4)
    t0 = (n * rng.uniform(0.2, 0.5)) / fs
    if npole == 4:
        return np.array([A, A * rng.uniform(.3, .8), A * rng.uniform(.2, .5), r, f1, f2, f3, t0])
    if npole == 3:
        return np.array([A, A * rng.uniform(.3, .8), r, f1, f2, t0])
    if npole == 2:
        return np.array([A, r, f1, t0])
    return np.array([A, f1, t0])


def psd_for(rng, n, fs, level):
    f = np.abs(np.fft.fftfreq(n, 1 / fs))
    k = str(rng.choice(["white", "pink", "roll"]))
    p = np.ones(n)
    if k == "pink":
        p = 1 + 10 / np.maximum(f * n / fs, 1)
    if k == "roll":
        p = 0.05 + 1 / (1 + (f / (fs * .2)) ** 2)
    return k, p * level


def names(p):
    return {4: ("fourpole", "fourpoletime"), 3: ("threepole", "threepoletime"), 2: ("twopole", "twopoletime")}[p]


def scen_models(m, rng):
    n = int(rng.integers(200, 1200)); fs = float(rng.choice([625e3, 1e5, 1.25e6, 1.0]))
    npole = int(rng.choice([1, 2, 3, 4]))
    x = draw(rng, npole, fs, n)
    if npole >= 3 and rng.random() < .4:
        x[1] *= -1
    if rng.random() < 0.2 and npole == 2:
        x[0] *= -1
    if npole <= 2 and rng.random() < .3:          # rise slower than (or close to) the fall: the same pulse shape
        x[1] = x[-2] * rng.choice([.5, .9, 1.1, 2, 5]) if npole == 2 else x[1]
    ratio = float(rng.choice([3, 3, 1.5, 1.1, .9, .4]))
    scaled = bool(rng.random() < 0.6) or npole > 2
    k = int(rng.integers(0, n // 2))
    x[-1] = k / fs if rng.random() < .5 else (k + 0.5) / fs
    m.note(n=n, fs=fs, npole=npole, x=[float(v) for v in x], scaled=scaled)
    o = m.call(qp.OFnonlin, np.ones(n), fs)
    o.scale_amplitude = scaled
    if npole == 1:
        o.taurise = float(x[1] / ratio)
        got = m.call(o.onepole, *x)
        want = spectrum(1, x, n, fs, taurise=x[1] / ratio, scaled=scaled)
        m.close("model:freq", got, want, rtol=1e-10)
        return
    fq, tm = names(npole)
    got = m.call(getattr(o, fq), *x)
    want = spectrum(npole, x, n, fs, scaled=scaled)
    m.close("model:freq", got, want, rtol=1e-10)
    parts, t0 = parts_of(npole, x, scaled=scaled)
    t = np.arange(n) / fs
    base = sum(a * np.exp(-t / tau) for a, tau in parts)
    g = m.call(getattr(o, tm), *x)
    ks = {int(np.floor(t0 * fs + 1e-6)), int(round(t0 * fs))}
    alt = []
    for s in ks | {s - 1 for s in ks} if abs(t0 * fs - round(t0 * fs)) < 1e-6 else ks:
        w = np.zeros(n); w[s:] = base[: n - s] if s >= 0 else 0
        alt.append(np.max(np.abs(g - w)))
    m.expect("model:time", min(alt) <= 1e-9 * np.abs(base).max(), f"time-domain {npole}-pole off by {min(alt)} of {np.abs(base).max()}")
    m.close("model:starts-at-zero", base[0], 0, atol=1e-9 * np.abs(base).max())
    if scaled and npole == 2:
        tt = np.linspace(0, 10 * max(x[1], x[2]), 40001)
        fine = sum(a * np.exp(-tt / tau) for a, tau in parts)
        pk = fine[np.argmax(np.abs(fine))]
        m.close("model:height", np.sign(x[0]) * g[np.argmax(np.abs(g))] <= abs(x[0]) * (1 + 1e-9), True)
        m.close("model:peak", pk, x[0], rtol=1e-5)
    # the two pictures agree: transform the sampled pulse placed on the grid
    kk = int(rng.integers(0, n // 3))
    y = x.copy(); y[-1] = 0.0
    td = m.call(getattr(o, tm), *y)
    F = np.fft.fft(td) / np.sqrt(fs * n)
    fd = m.call(getattr(o, fq), *y)
    taus = [p[1] for p in parts]
    if max(taus) < n / fs / 20:
        f = np.abs(np.fft.fftfreq(n, 1 / fs)); lo = f < fs / 60
        m.close("model:time-vs-freq", F[lo], fd[lo], rtol=0.08, atol=0)
    y[-1] = kk / fs
    m.close("model:delay-is-phase", m.call(getattr(o, fq), *y),
            fd * np.exp(-2j * np.pi * np.fft.fftfreq(n, 1 / fs) * kk / fs), rtol=1e-9)


def chi_of(npole, x, data, err, n, fs, **kw):
    return np.sum(np.abs(data - spectrum(npole, x, n, fs, **kw)) ** 2 / err ** 2)


def jac_of(npole, x, err, n, fs, **kw):
    J = np.empty((2 * n, len(x)))
    for i in range(len(x)):
        h = abs(x[i]) * 1e-5
        a, b = x.copy(), x.copy(); a[i] += h; b[i] -= h
        d = (spectrum(npole, a, n, fs, **kw) - spectrum(npole, b, n, fs, **kw)) / (2 * h) / err
        J[:n, i], J[n:, i] = d.real, d.imag
    return J


COARSE = "coarse-derivative-steps"


def emulate(npole, data, err, g, lo, hi, n, fs, **kw):
    """Where scipy's default (absolute 6e-6) derivative steps leave this problem.
    Only used to recognise the recorded finding, never to accept anything else."""
    from scipy.optimize import least_squares

    def res(x):
        d = data - spectrum(npole, x, n, fs, **kw)
        z = np.zeros(2 * n); z[0::2] = d.real / err; z[1::2] = d.imag / err
        return z
    return least_squares(res, x0=g, bounds=(lo, hi), x_scale=g, jac="3-point", xtol=2.3e-16, ftol=2.3e-16).x


def scen_fit(m, rng):
    npole = int(rng.choice([1, 1, 2, 2, 2, 3, 3, 4]))
    n = int(rng.choice([601, 800, 1001, 1600])); fs = float(rng.choice([625e3, 1e5, 1.0, 0.1, 10.0, 1.0]))
    x = draw(rng, npole, fs, n)
    if fs <= 10:                     # units in which the optimiser's own derivative steps are fine
        x[:max(1, npole - 1)] *= 10 ** rng.uniform(0, 2) / abs(x[0])
    scaled = bool(rng.random() < 0.7) or npole > 2
    kw = dict(scaled=scaled)
    fk = dict(scale_amplitude=scaled)
    if npole == 1:
        kw["taurise"] = fk["taurise"] = float(x[1] / (rng.uniform(3, 6) if rng.random() < .6 else rng.choice([2, 1.4, .7, .4])))
    spec = spectrum(npole, x, n, fs, **kw)
    noisy = bool(rng.random() < 0.6)
    snr = 10 ** rng.uniform(2, 4)
    level = np.mean(np.abs(spec) ** 2) / snr * (1 if npole < 4 else 1e-3)
    pk, psd = psd_for(rng, n, fs, level)
    pulse = np.fft.ifft(spec * np.sqrt(fs * n)).real
    if noisy:
        pulse = pulse + np.fft.ifft(np.fft.fft(rng.normal(size=n)) * np.sqrt(psd * fs)).real
    pulse = pulse + rng.normal() * abs(x[0])      # the baseline is not fitted and must not matter
    pert = 1 + rng.uniform(-.15, .15, size=len(x)) * (0.5 if npole == 4 else 1)
    g = x * pert; g[-1] = x[-1] + rng.uniform(-3, 3) / fs
    es = float(rng.choice([1, 1, 10, 250]))
    m.note(n=n, fs=fs, npole=npole, x=[float(v) for v in x], scaled=scaled, noisy=noisy, psd=pk, errscale=es)
    o = m.call(qp.OFnonlin, psd, fs)
    out = m.call(o.fit_falltimes, pulse, npolefit=npole, errscale=es, guess=tuple(g), lgcfullrtn=True, **fk)
    v, err, cov, chi2, ok = out
    v = np.asarray(v)
    m.expect("fit:shapes", v.shape == (len(x),) and np.shape(err) == (len(x),) and np.shape(cov) == (len(x), len(x)))
    data = np.fft.fft(pulse) / np.sqrt(fs * n)
    e = np.sqrt(psd / es); e[0] = np.sqrt(1e40 / es)
    c = chi_of(npole, v, data, e, n, fs, **kw)
    m.close("fit:chi2-truthful", chi2, c / (n - len(x)), rtol=1e-6, atol=1e-12)
    lo = np.minimum(g / 100, g * 100); hi = np.maximum(g / 100, g * 100)
    nf = {4: slice(3, 7), 3: slice(2, 5), 2: slice(1, 3), 1: slice(1, 2)}[npole]
    lo[nf], hi[nf] = g[nf] / 10, g[nf] * 10
    lo[-1], hi[-1] = g[-1] - 30 / fs, g[-1] + 30 / fs
    inside = np.all((v > lo + 1e-3 * np.abs(lo)) & (v < hi - 1e-3 * np.abs(hi))) or \
        np.all(np.abs(v / x - 1) < .3)
    m.expect("fit:within-bounds", np.all((v >= lo * (1 - 1e-12) - 1e-300) & (v <= hi * (1 + 1e-12))), f"{v} not in [{lo},{hi}]")
    J = jac_of(npole, v, e, n, fs, **kw)
    sc = np.linalg.norm(J, axis=0)
    H = (J / sc).T @ (J / sc)
    if inside and np.linalg.cond(H) < 1e7:
        C = np.linalg.inv(H) / np.outer(sc, sc)
        es_ = np.sqrt(np.diag(C))
        m.close("fit:errors", np.asarray(err) / es_, np.ones(len(x)), rtol=0, atol=0.02)
        m.close("fit:cov", np.asarray(cov) / np.outer(es_, es_), C / np.outer(es_, es_), rtol=0, atol=0.05)
        m.close("fit:errors-are-sqrt-cov", np.asarray(err) ** 2, np.diag(cov), rtol=1e-9)
        d = (data - spectrum(npole, v, n, fs, **kw)) / e
        r = np.concatenate([d.real, d.imag])
        step = C @ (J.T @ r)
        gain = r @ J @ step                       # chi2 drop promised by one more Gauss-Newton step
        ctrue = chi_of(npole, x, data, e, n, fs, **kw)
        good = gain <= 1e-4 * max(1.0, es) + 1e-6 * c and c <= ctrue * (1 + 1e-6) + 1e-6 * es
        mech = None
        if not good:
            ve = emulate(npole, data, e, g, lo, hi, n, fs, **kw)
            ce = chi_of(npole, ve, data, e, n, fs, **kw)
            if np.all(np.abs(ve - v) < 0.02 * es_) and abs(ce - c) < 1e-3 * c:
                mech = COARSE
        m.expect("fit:local-optimum", gain <= 1e-4 * max(1.0, es) + 1e-6 * c,
                 f"a Gauss-Newton step from the returned parameters lowers chi2 by {gain} of {c} (success={ok})", mech=mech)
        m.expect("fit:not-worse-than-truth", c <= ctrue * (1 + 1e-6) + 1e-6 * es, f"fit {c} truth {ctrue}", mech=mech)
        if not noisy:
            m.close("fit:recover", v / x, np.ones(len(x)), rtol=0, atol=2e-3 if npole < 4 else 2e-2, mech=mech)
        elif npole < 4:
            pull = (v - x) / (es_ * np.sqrt(es))
            m.expect("fit:pull", np.all(np.abs(pull) < 10), f"pulls {pull}", mech=mech)
    # plain return and error scale
    v2 = m.call(o.fit_falltimes, pulse, npolefit=npole, errscale=es, guess=tuple(g), **fk)
    m.close("fit:plain-return", v2, v, rtol=1e-8)
    out4 = m.call(o.fit_falltimes, pulse, npolefit=npole, errscale=4 * es, guess=tuple(g), lgcfullrtn=True, **fk)
    if inside and np.linalg.cond(H) < 1e7:
        m.close("errscale:params", (out4[0] - v) / es_, np.zeros(len(x)), rtol=0, atol=0.05)
        m.close("errscale:errors", out4[1] / err, np.full(len(x), 0.5), rtol=5e-3)
        m.close("errscale:chi2", out4[3], 4 * chi2, rtol=1e-3, atol=1e-9)
    # one fitter serves fits of every kind: what came before leaves no trace
    if rng.random() < .35:
        oth = int(rng.choice([q for q in (1, 2, 3) if q != npole]))
        z = draw(rng, oth, fs, n)
        z[-1] = x[-1]
        zk = dict(taurise=float(z[1] / 4)) if oth == 1 else {}
        if oth == 1:
            zk["scale_amplitude"] = bool(rng.random() < .5)
        one = m.call(o.fit_falltimes, pulse, npolefit=oth, errscale=es, guess=tuple(z), lgcfullrtn=True, **zk)
        new = m.call(m.call(qp.OFnonlin, psd, fs).fit_falltimes, pulse, npolefit=oth, errscale=es, guess=tuple(z), lgcfullrtn=True, **zk)
        again = m.call(o.fit_falltimes, pulse, npolefit=npole, errscale=es, guess=tuple(g), lgcfullrtn=True, **fk)
        for tag, got, want in (("other-kind", one, new), ("same-kind-again", again, out)):
            for nm, u, w in zip(("params", "errors", "cov", "chi2"), got, want):
                u, w = np.asarray(u, float), np.asarray(w, float)
                big = np.abs(w[np.isfinite(w)]).max(initial=0)
                m.expect(f"reuse:{tag}:{nm}", np.allclose(u, w, rtol=1e-6, atol=1e-12 * big, equal_nan=True), f"{u} instead of {w}"[:600])


def scen_default_guess(m, rng):
    """No guess given: the pulse (or template) itself seeds the fit."""
    npole = int(rng.choice([1, 2, 3, 4]))
    n = int(rng.choice([2001, 3000])); fs = 625e3
    r = rng.uniform(12e-6, 30e-6); f1 = rng.uniform(60e-6, 250e-6)
    t0 = rng.uniform(.2, .5) * n / fs
    A = 10 ** rng.uniform(-8, -5)
    if npole > 2:
        # near the built-in starting point, which depends on the pulse only through its peak
        j = lambda v: v * rng.uniform(.8, 1.25)
        x = np.array([A, A * j(.33), j(20e-6), j(100e-6), j(300e-6), t0] if npole == 3 else
                     [A, A * j(.33), A * j(.33), j(20e-6), j(100e-6), j(300e-6), j(500e-6), t0])
    else:
        x = np.array([A, r, f1, t0]) if npole == 2 else np.array([A, f1, t0])
    kw = dict(taurise=r) if npole == 1 else {}
    spec = spectrum(npole, x, n, fs, **kw)
    pulse = np.fft.ifft(spec * np.sqrt(fs * n)).real
    pulse -= pulse[: int(t0 * fs * 0.8)].mean()
    psd = np.full(n, np.mean(np.abs(spec) ** 2) * 1e-3)
    tmpl = rng.random() < 0.5
    m.note(npole=npole, x=[float(v) for v in x], template=bool(tmpl), n=n)
    o = m.call(qp.OFnonlin, psd, fs, template=pulse / pulse.max() if tmpl else None)
    v, err, cov, chi2, ok = m.call(o.fit_falltimes, pulse, npolefit=npole, lgcfullrtn=True, **kw)
    data = np.fft.fft(pulse) / np.sqrt(fs * n); e = np.sqrt(psd); e[0] = 1e20
    c = chi_of(npole, np.asarray(v), data, e, n, fs, **kw)
    m.close("default:chi2-truthful", chi2, c / (n - len(x)), rtol=1e-6, atol=1e-9)
    # the same fit, started from the pulse's peak
    k = int(np.argmax(pulse)); top = pulse[k - 7:k + 7].mean()
    if tmpl:
        t = pulse / pulse.max(); top = t[k - 7:k + 7].mean() * (pulse.max() - pulse.min())
    if npole > 2:
        g = [top] + [top / 3] * (npole - 2) + [20e-6, 100e-6, 300e-6, 500e-6][:npole] + [k / fs]
    else:
        end = int(300e-6 * fs)
        fall = (int(np.argmin(np.abs(pulse[k + 1:k + 1 + end] - .37 * top))) + 1) / fs
        g = [top, 20e-6, fall, k / fs] if npole == 2 else [top, fall, k / fs]
    g = np.array(g)
    d0 = chi_of(npole, g, data, e, n, fs, **kw)
    m.expect("default:improves", c <= d0 * (1 + 1e-9), f"chi2 {c} where the starting point has {d0}")
    good = np.all(np.abs(v / x - 1) < 1e-2) if npole < 3 else c < 1e-2 * d0
    mech = None
    if not good:
        lo, hi = np.minimum(g / 100, g * 100), np.maximum(g / 100, g * 100)
        nf = {4: slice(3, 7), 3: slice(2, 5), 2: slice(1, 3), 1: slice(1, 2)}[npole]
        lo[nf], hi[nf] = g[nf] / 10, g[nf] * 10
        lo[-1], hi[-1] = g[-1] - 30 / fs, g[-1] + 30 / fs
        ve = emulate(npole, data, e, g, lo, hi, n, fs, **kw)
        ce = chi_of(npole, ve, data, e, n, fs, **kw)
        if abs(ce - c) < 1e-2 * c:
            mech = COARSE
    m.expect("default:recover", good, f"{v} instead of {x}: chi2 {c}, at the start {d0}", mech=mech)
    bad = tuple(x)[:-1]
    m.raises("invalid:guess-length", ValueError, o.fit_falltimes, pulse, npolefit=npole, guess=bad, **kw)
    if npole == 1:
        m.raises("invalid:no-taurise", ValueError, o.fit_falltimes, pulse, npolefit=1, guess=tuple(x))
    p3 = draw(rng, 3, fs, n); p4 = draw(rng, 4, fs, n)
    m.raises("invalid:guess3", ValueError, o.fit_falltimes, pulse, npolefit=3, guess=tuple(p4))
    m.raises("invalid:guess4", ValueError, o.fit_falltimes, pulse, npolefit=4, guess=tuple(p3))


def scen_spread(m, rng):
    """Reported errors are the spread of fits over noise realisations."""
    npole = 2; n = 601; fs = 625e3
    x = draw(rng, npole, fs, n)
    spec = spectrum(npole, x, n, fs)
    psd = np.full(n, np.mean(np.abs(spec) ** 2) / 3000)
    pk, psd = psd_for(rng, n, fs, psd[0])
    o = m.call(qp.OFnonlin, psd, fs)
    vs, es = [], []
    for _ in range(40):
        p = np.fft.ifft(spec * np.sqrt(fs * n)).real + np.fft.ifft(np.fft.fft(rng.normal(size=n)) * np.sqrt(psd * fs)).real
        v, e, _, c, _ = m.call(o.fit_falltimes, p, npolefit=2, guess=tuple(x), lgcfullrtn=True)
        vs.append(v); es.append(e)
    ratio = np.std(vs, axis=0, ddof=1) / np.mean(es, axis=0)
    m.note(x=[float(v) for v in x], ratio=[float(q) for q in ratio], psd=pk)
    m.expect("spread", np.all((ratio > 0.55) & (ratio < 1.6)), f"spread over reported error {ratio}")


def scen_muon(m, rng):
    fs = float(rng.choice([625e3, 1e5])); n = int(rng.choice([801, 1000, 2001]))
    A = 10 ** rng.uniform(-7, 0); tau = n / fs / (rng.uniform(6, 20) if rng.random() < .6 else rng.uniform(1, 6))
    f = np.fft.fftfreq(n, 1 / fs)
    model = lambda a, t: ft([(a, t)], f, 0.0) * np.sqrt(fs / n)
    spec = model(A, tau)
    pk, psd = psd_for(rng, n, fs, np.mean(np.abs(spec) ** 2) / 10 ** rng.uniform(3, 5))
    noisy = bool(rng.random() < .6)
    s = np.fft.ifft(spec * np.sqrt(fs * n)).real
    if noisy:
        s = s + np.fft.ifft(np.fft.fft(rng.normal(size=n)) * np.sqrt(psd * fs)).real
    es = float(rng.choice([1, 20]))
    m.note(A=A, tau=tau, n=n, fs=fs, noisy=noisy, psd=pk, errscale=es)
    o = m.call(qp.MuonTailFit, psd, fs)
    m.close("muon:model", m.call(o.muontailfcn, A, tau), spec, rtol=1e-10)
    if np.argmin(np.abs(s - (s.max() - s.min()) / np.e)) < 5:
        return
    v, err, cov, chi2 = m.call(o.fitmuontail, s, lgcfullrtn=True, errscale=es)
    data = np.fft.fft(s) / np.sqrt(fs * n)
    e2 = psd / es
    c = lambda a, t: np.sum(np.abs(data - model(a, t)) ** 2 / e2)
    m.close("muon:chi2-truthful", chi2, c(*v), rtol=1e-8, atol=1e-12)
    m.expect("muon:not-worse-than-truth", chi2 <= c(A, tau) * (1 + 1e-8) + 1e-9)
    J = np.empty((2 * n, 2))
    for i in range(2):
        h = np.zeros(2); h[i] = v[i] * 1e-5
        d = (model(*(v + h)) - model(*(v - h))) / (2 * h[i]) / np.sqrt(e2)
        J[:n, i], J[n:, i] = d.real, d.imag
    C = np.linalg.inv(J.T @ J)
    m.close("muon:errors", err / np.sqrt(np.diag(C)), [1, 1], rtol=0, atol=.02)
    m.close("muon:cov", cov / np.sqrt(np.outer(np.diag(C), np.diag(C))), C / np.sqrt(np.outer(np.diag(C), np.diag(C))), rtol=0, atol=.04)
    d = (data - model(*v)) / np.sqrt(e2); r = np.concatenate([d.real, d.imag])
    st = C @ (J.T @ r)
    m.expect("muon:local-optimum", r @ J @ st <= 1e-4 * es + 1e-6 * chi2, f"step gains {r@J@st} of {chi2}")
    if not noisy:
        m.close("muon:recover", v / np.array([A, tau]), [1, 1], rtol=0, atol=1e-3)
    else:
        m.expect("muon:pull", np.all(np.abs((v - [A, tau]) / np.sqrt(np.diag(C) * es)) < 8))
    m.close("muon:plain", m.call(o.fitmuontail, s, errscale=es), v, rtol=1e-8)
    o4 = m.call(o.fitmuontail, s, lgcfullrtn=True, errscale=4 * es)
    m.close("muon:errscale", o4[1] / err, [.5, .5], rtol=2e-3)
    m.close("muon:errscale-chi2", o4[3], 4 * chi2, rtol=2e-3, atol=1e-3)


SCENARIOS = {"models": (scen_models, 300, 3000), "fit": (scen_fit, 160, 2500), "default": (scen_default_guess, 40, 500),
             "spread": (scen_spread, 4, 40), "muon": (scen_muon, 80, 1000)}
