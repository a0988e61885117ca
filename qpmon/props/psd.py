"""C20: power spectral densities conserve power and fold consistently."""
import numpy as np
from scipy import stats
import qetpy as qp
import qetpy as N


def rand_fs(rng):
    return float(rng.choice([1.0, 625e3, 1.25e6, 10 ** rng.uniform(-2, 7)]))


def rand_traces(rng):
    n = int(rng.choice([1, 2, 3, 4, 5, 7, 8, 64, 101, int(rng.integers(2, 400))]))
    if rng.random() < .02:
        n = int(rng.choice([1024, 4096, 16384, 32500, int(rng.integers(1000, 40000))]))
    lead = [(), (1,), (int(rng.integers(2, 12)),), (int(rng.integers(1, 6)), int(rng.integers(1, 5)))][int(rng.integers(4))]
    if rng.random() < .03:      # many short traces
        lead, n = (int(rng.integers(100, 3000)),), int(rng.integers(4, 40))
    kind = str(rng.choice(["white", "colored", "offset", "sine", "const", "impulse"]))
    x = rng.normal(size=lead + (n,))
    if kind == "colored":
        x = np.cumsum(x, axis=-1)
    elif kind == "offset":
        x = x + 50 * rng.normal(size=lead + (1,))
    elif kind == "sine":
        x = np.sin(2 * np.pi * int(rng.integers(0, n // 2 + 1)) * np.arange(n) / n + rng.uniform(0, 6)) * np.ones(lead + (1,))
    elif kind == "const":
        x = np.full(lead + (n,), float(rng.normal()))
    elif kind == "impulse":
        x = np.zeros(lead + (n,)); x[..., int(rng.integers(n))] = 1
    return x * 10 ** rng.uniform(-9, 3), kind, lead, n


def scen_calc(m, rng):
    x, kind, lead, n = rand_traces(rng)
    fs = rand_fs(rng)
    m.note(kind=kind, lead=list(lead), n=n, fs=fs)
    f1, p1 = m.call(N.calc_psd, x, fs=fs)
    f2, p2 = m.call(N.calc_psd, x, fs=fs, folded_over=False)
    out = lead[1:]
    m.expect("shape", p1.shape == out + (n // 2 + 1,) and p2.shape == out + (n,), f"{p1.shape} {p2.shape} lead {lead} n {n}")
    if m.viol:
        return
    m.close("freqs", f1, np.fft.rfftfreq(n, 1 / fs), rtol=1e-12)
    m.close("freqs:two-sided", f2, np.fft.fftfreq(n, 1 / fs), rtol=1e-12)
    ms = (x ** 2).mean(axis=-1)
    if lead:
        ms = ms.mean(axis=0)
    sc = np.max(ms) + 1e-300
    df = fs / n
    m.close("power", p1.sum(axis=-1) * df / sc, ms / sc, rtol=0, atol=1e-10, detail=f"{kind} n={n} lead={lead}")
    m.close("power:two-sided", p2.sum(axis=-1) * df / sc, ms / sc, rtol=0, atol=1e-10)
    m.expect("non-negative", np.all(p1 >= 0) and np.all(p2 >= 0))
    mean2 = x.mean(axis=-1) ** 2
    if lead:
        mean2 = mean2.mean(axis=0)
    m.close("dc", p1[..., 0] * df / sc, mean2 / sc, rtol=0, atol=1e-10, detail=f"n={n}")
    m.close("dc:two-sided", p2[..., 0] * df / sc, mean2 / sc, rtol=0, atol=1e-10)
    ps = p2[..., 1:]
    m.close("even", ps / sc * df, ps[..., ::-1] / sc * df, rtol=0, atol=1e-10)
    # folding two-sided gives the folded one
    if not out:
        g0 = p2.copy()
        fr, fo = m.call(N.foldpsd, p2, fs)
        m.close("fold:freqs", fr, f1, rtol=1e-12)
        m.close("fold", fo * df / sc, p1 * df / sc, rtol=0, atol=1e-10, detail=f"n={n}")
        m.expect("fold:pure", np.array_equal(g0, p2))
    else:
        for j in np.ndindex(out):
            fr, fo = m.call(N.foldpsd, p2[j], fs)
            m.close("fold", fo * df / sc, p1[j] * df / sc, rtol=0, atol=1e-10, detail=f"channel {j} of {out} n={n}")
            fj, pj = m.call(N.calc_psd, x[(slice(None),) + j], fs=fs)
            m.close("channel-by-channel", p1[j] * df / sc, pj * df / sc, rtol=0, atol=1e-10)
    # quadratic scaling
    a = float(rng.normal() * 10 ** rng.uniform(-3, 3))
    _, pa = m.call(N.calc_psd, a * x, fs=fs)
    m.close("scaling", pa * df / sc / a ** 2, p1 * df / sc, rtol=1e-9, atol=1e-15)
    # average over traces
    if lead and lead[0] > 1:
        each = [m.call(N.calc_psd, x[i], fs=fs)[1] for i in range(lead[0])] if not out else None
        if each is not None:
            m.close("average", p1 * df / sc, np.mean(each, axis=0) * df / sc, rtol=0, atol=1e-10)
        pr = m.call(N.calc_psd, x[rng.permutation(lead[0])], fs=fs)[1]
        m.close("trace-order", pr * df / sc, p1 * df / sc, rtol=0, atol=1e-10)
    # circular shifts and sampling rate only rescale
    k = int(rng.integers(0, n))
    m.close("shift", m.call(N.calc_psd, np.roll(x, k, axis=-1), fs=fs)[1] * df / sc, p1 * df / sc, rtol=0, atol=1e-10)
    b = float(10 ** rng.uniform(-2, 2))
    fb, pb = m.call(N.calc_psd, x, fs=fs * b)
    m.close("rate", pb * b * df / sc, p1 * df / sc, rtol=1e-10)
    m.close("rate:freqs", fb / b, f1, rtol=1e-10)
    # reference: explicit definition at one bin
    j = int(rng.integers(0, n // 2 + 1))
    dft = (x * np.exp(-2j * np.pi * j * np.arange(n) / n)).sum(axis=-1)
    w = np.abs(dft) ** 2
    if lead:
        w = w.mean(axis=0)
    two = 1 if j == 0 or (n % 2 == 0 and j == n // 2) else 2
    m.close("definition", p1[..., j] * df / sc, two * w / (n * n) / sc, rtol=0, atol=1e-9, detail=f"bin {j} of n={n}")


def scen_foldarr(m, rng):
    """Any (also unsymmetrised-length) two-sided PSD array, incl. infinities."""
    n = int(rng.integers(1, 300)); fs = rand_fs(rng)
    half = 10 ** rng.uniform(-3, 3, size=n // 2 + 1)
    p = np.array([half[min(k, n - k)] for k in range(n)])
    if rng.random() < .4:
        p[0] = np.inf
    if rng.random() < .2:
        p = np.round(p * 100).astype(int) if np.isfinite(p[0]) else p
    m.note(n=n, fs=fs, inf=bool(np.isinf(float(p[0]))), dtype=str(p.dtype))
    c = p.copy()
    f, q = m.call(N.foldpsd, p, fs)
    m.expect("unmodified", np.array_equal(p, c))
    w = np.array([p[k] * (1 if k == 0 or 2 * k == n else 2) for k in range(n // 2 + 1)], dtype=float)
    m.expect("fold-values", q.shape == w.shape and np.array_equal(q, w), f"n={n}")
    m.close("fold-freqs", f, np.arange(n // 2 + 1) * fs / n, rtol=1e-12)
    if np.isfinite(float(p[0])):
        m.close("fold-power", float(np.sum(q)), float(np.sum(p)), rtol=1e-12)


def scen_gen(m, rng):
    n = int(rng.choice([1, 2, 3, 8, 9, 32, 33, int(rng.integers(2, 120))])); fs = rand_fs(rng)
    nt = int(rng.choice([1, 2, 400, 1500]))
    shape = str(rng.choice(["white", "1/f", "line", "inf-dc", "zero-dc", "zeros", "tiny"]))
    k = np.minimum(np.arange(n), n - np.arange(n))
    p = {"white": np.ones(n), "1/f": 1 / np.maximum(k, 1) ** 1.5, "line": 1 + 100.0 * (k == n // 3),
         "inf-dc": np.where(k == 0, np.inf, 1 + 1.0 * k), "zero-dc": np.where(k == 0, 0.0, 2.0),
         "zeros": np.where(k % 2 == 1, 0.0, 1.0), "tiny": np.ones(n) * 1e-22}[shape]
    p = p * 10 ** rng.uniform(-3, 3)
    m.note(n=n, nt=nt, shape=shape, fs=fs)
    c = p.copy()
    x = m.call(N.gen_noise, p, fs=fs, ntraces=nt)
    m.expect("psd-unmodified", np.array_equal(p, c), f"the given psd was changed: {p[:3]} was {c[:3]}")
    m.expect("shape", x.shape == (nt, n), f"{x.shape}")
    m.expect("real", not np.iscomplexobj(x) and np.all(np.isfinite(x)))
    if m.viol:
        return
    w = np.where(np.isinf(c), 0, c)
    _, q = m.call(N.calc_psd, x, fs=fs, folded_over=False)
    sc = w.max() if w.max() > 0 else 1.0
    z = w == 0
    m.expect("empty-bins", np.all(q[z] <= 1e-20 * sc), f"{q[z][:5]}")
    if nt > 100:
        for j in range(n // 2 + 1):
            if w[j] == 0:
                continue
            dof = nt if j == 0 or 2 * j == n else 2 * nt
            v = q[j] / w[j] * dof
            pv = 2 * min(stats.chi2.cdf(v, dof), stats.chi2.sf(v, dof))
            m.expect("average-psd", pv > 1e-10, f"{shape} bin {j} of {n}: psd ratio {q[j]/w[j]:.4f} over {nt} traces")
        X = np.fft.fft(x) / np.sqrt(n * fs)
        ok = w > 0
        mu = np.abs(X.mean(axis=0))[ok] / np.sqrt(w[ok] / nt)
        m.expect("random-phase", np.all(mu < 7), f"{mu[mu >= 7]}")
        if n > 8:
            Y = X[:, 1:(n - 1) // 2 + 1]; s = np.sqrt(w[1:(n - 1) // 2 + 1])
            g = s > 0
            Y = Y[:, g] / s[g]
            if Y.shape[1] > 1:
                cc = np.abs((Y[:, :-1] * np.conj(Y[:, 1:])).mean(axis=0)) * np.sqrt(nt)
                m.expect("bins-independent", np.all(cc < 7), f"{cc.max()}")
                tt = np.abs((Y[:-1] * np.conj(Y[1:])).sum(axis=1)) / np.sqrt(Y.shape[1])
                m.expect("traces-independent", np.mean(tt) < 1.6, f"{np.mean(tt)}")
    elif nt == 2 and n > 3:
        m.expect("traces-differ", not np.array_equal(x[0], x[1]))
    # same random state: amplitude scales as the root of the psd and of the rate
    a = float(10 ** rng.uniform(-3, 3)); st = np.random.get_state()
    x0 = m.call(N.gen_noise, c, fs=fs, ntraces=nt)
    np.random.set_state(st)
    x1 = m.call(N.gen_noise, a * c, fs=fs, ntraces=nt)
    np.random.set_state(st)
    x2 = m.call(N.gen_noise, c, fs=a * fs, ntraces=nt)
    m.close("scales:psd", x1 / np.sqrt(a), x0, rtol=1e-9)
    m.close("scales:rate", x2 / np.sqrt(a), x0, rtol=1e-9)


def scen_smooth(m, rng):
    n = int(rng.choice([1, 2, 3, 4, 5, 16, 17, int(rng.integers(2, 300))]))
    if rng.random() < .02:
        n = int(rng.choice([1024, 4096, 16384, 32500, int(rng.integers(1000, 40000))]))
    k = np.minimum(np.arange(n), n - np.arange(n))
    kind = str(rng.choice(["noisy", "decreasing", "line", "flat", "rising", "steps"]))
    half = {"noisy": 10 ** rng.uniform(-2, 2, size=n // 2 + 1), "decreasing": np.sort(10 ** rng.uniform(-2, 2, size=n // 2 + 1))[::-1],
            "line": 1 / (1 + np.arange(n // 2 + 1.0)) + 5 * (np.arange(n // 2 + 1) == n // 4), "flat": np.ones(n // 2 + 1),
            "rising": 1 + np.arange(n // 2 + 1.0), "steps": np.repeat([5.0, 3.0, 3.0, 2.0], n)[: n // 2 + 1] if n else 0}[kind]
    half = half * 10 ** rng.uniform(-24, 3)
    p = half[k]
    m.note(n=n, kind=kind)
    c = p.copy()
    s = m.call(N.smooth_psd, p)
    m.expect("unmodified", np.array_equal(c, p))
    m.expect("length", s.shape == (n,))
    if m.viol:
        return
    m.close("dc", s[0], p[0], rtol=1e-12)
    m.close("even", s[1:], s[1:][::-1], rtol=1e-12)
    h = s[: n // 2 + 1]
    m.expect("non-increasing", np.all(np.diff(h) <= 1e-12 * p.max()), f"{kind} n={n} {np.diff(h).max() if h.size > 1 else 0}")
    if kind == "decreasing" or kind == "flat":
        m.close("keeps-smooth", s, p, rtol=1e-10)
    # touches the running minimum wherever a new minimum is reached
    run = np.minimum.accumulate(half)
    new = np.r_[True, run[1:] < run[:-1]]
    m.close("touches", h[new], half[new], rtol=1e-10)
    if not np.all(new[-1:]):
        pass
    a = float(10 ** rng.uniform(-5, 5))
    m.close("scales", m.call(N.smooth_psd, a * p) / a, s, rtol=1e-9)


SCENARIOS = {"calc": (scen_calc, 500, 8000), "foldarr": (scen_foldarr, 300, 4000),
             "gen": (scen_gen, 240, 3000), "smooth": (scen_smooth, 400, 5000)}
