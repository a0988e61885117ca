"""C30: calibration utilities satisfy circuit and energy conservation."""
import numpy as np
from qpmon.core import near
import qetpy.utils as U

E = 1.602176634e-19


def circuit(rng):
    rsh = float(10 ** rng.uniform(-3, -1.5)); rp = float(10 ** rng.uniform(-3, -1.5))
    rn = float(10 ** rng.uniform(-1.3, 0)); rl = rsh + rp
    r0 = rn * float(rng.uniform(.05, .9))
    ib = float(10 ** rng.uniform(-6, -3) * rng.choice([-1, 1]))
    return dict(rsh=rsh, rl=rl, rn=rn, r0=r0, ib=ib, i0=ib * rsh / (r0 + rl))


def scen_power(m, rng):
    c = circuit(rng)
    shape = [(int(rng.integers(2, 60)),), (int(rng.integers(1, 5)), int(rng.integers(2, 40))),
             (2, int(rng.integers(1, 4)), int(rng.integers(2, 30)))][int(rng.integers(3))]
    off = float(rng.normal() * 1e-6)
    r = c["rn"] * rng.uniform(.02, 1, size=shape)
    vb = c["ib"] * c["rsh"]
    i = vb / (r + c["rl"])
    m.note(ndim=len(shape), off=off, **c)
    p = m.call(U.powertrace_simple, i + off, off, c["ib"], c["rl"], c["rsh"])
    sc = np.abs(vb * i) + c["rl"] * i ** 2 + abs(vb) * abs(off) * 1e-3
    m.expect("shape", p.shape == shape)
    # bias power = load dissipation + TES dissipation
    m.close("joule", p / sc, i ** 2 * r / sc, rtol=0, atol=1e-9 * (1 + abs(off) / np.abs(i).min()))
    m.close("balance", (p + c["rl"] * i ** 2) / sc, vb * i / sc, rtol=0, atol=1e-9 * (1 + abs(off) / np.abs(i).min()))


def scen_energy(m, rng):
    c = circuit(rng)
    n = int(rng.integers(20, 120))
    lead = [(), (int(rng.integers(1, 5)),), (2, int(rng.integers(1, 4)))][int(rng.integers(3))]
    off = float(rng.normal() * 1e-7); fs = float(10 ** rng.uniform(4, 6.3))
    x = c["i0"] * (1 + .3 * rng.normal(size=lead + (n,))) + off
    pre = int(rng.integers(1, n // 2)); post = int(rng.integers(n // 2 + 1, n))
    vb = c["ib"] * c["rsh"]
    P = lambda i: (i - off) * vb - c["rl"] * (i - off) ** 2
    mode = str(rng.choice(["pre", "pre+post", "given", "given-scalar"]))
    kw = {}
    if mode == "pre":
        kw["indbasepre"] = pre; b = x[..., :pre].mean(axis=-1, keepdims=True)
    elif mode == "pre+post":
        kw.update(indbasepre=pre, indbasepost=post)
        b = np.concatenate([x[..., :pre], x[..., post:]], axis=-1).mean(axis=-1, keepdims=True)
    elif mode == "given":
        b = c["i0"] * (1 + .1 * rng.normal(size=lead + (1,))) + off
        kw["baseline"] = b
    else:
        b = float(c["i0"] * 1.05 + off)
        kw["baseline"] = b
    t = np.cumsum(rng.uniform(.2, 2, size=n)) / fs
    m.note(mode=mode, ndim=len(lead) + 1, n=n, fs=fs, **c)
    f = P(np.asarray(b)) - P(x)
    sc = np.abs(f).sum() + n * np.abs(P(x)).max()
    y = .5 * (f[..., 1:] + f[..., :-1])
    e = m.call(U.energy_absorbed, x, off, c["ib"], c["rl"], c["rsh"], fs=fs, **kw)
    m.close("energy-fs", np.asarray(e) * E * fs / sc, y.sum(axis=-1) / sc, rtol=0, atol=1e-9, detail=mode)
    e2 = m.call(U.energy_absorbed, x, off, c["ib"], c["rl"], c["rsh"], time=t, **kw)
    m.close("energy-time", np.asarray(e2) * E * fs / sc, (y * np.diff(t)).sum(axis=-1) * fs / sc, rtol=0, atol=1e-9, detail=mode)
    m.expect("shape", np.shape(e) == lead and np.shape(e2) == lead, f"{np.shape(e)} {lead}")
    if lead:
        k = tuple(int(rng.integers(s)) for s in lead)
        kw1 = dict(kw)
        if mode == "given":
            kw1["baseline"] = b[k]
        e1 = m.call(U.energy_absorbed, x[k], off, c["ib"], c["rl"], c["rsh"], fs=fs, **kw1)
        m.close("trace-by-trace", e1 * E * fs / sc, np.asarray(e)[k] * E * fs / sc, rtol=0, atol=1e-10)
    # a flat trace has absorbed nothing
    z = m.call(U.energy_absorbed, np.full(n, c["i0"] + off), off, c["ib"], c["rl"], c["rsh"], fs=fs, indbasepre=pre)
    m.close("quiescent", z * E * fs / sc, 0.0, atol=1e-9)
    m.raises("no-baseline", ValueError, U.energy_absorbed, x, off, c["ib"], c["rl"], c["rsh"], fs=fs)
    m.raises("no-time", ValueError, U.energy_absorbed, x, off, c["ib"], c["rl"], c["rsh"], indbasepre=pre)


def scen_muon(m, rng):
    """A muon drives the TES normal: the current rises (towards zero from
    negative bias) to the normal-state value and recovers."""
    c = circuit(rng)
    ib = -abs(c["ib"]); vb = ib * c["rsh"]
    i0 = vb / (c["r0"] + c["rl"]); inorm = vb / (c["rn"] + c["rl"])
    nb = int(rng.integers(100, 1500)); flat = int(rng.integers(205, 400)); tail = int(rng.integers(300, 800))
    off = float(rng.normal() * 3 * abs(i0))
    x = np.concatenate([np.full(nb, i0), np.full(flat, inorm), inorm + (i0 - inorm) * (1 - np.exp(-np.arange(1, tail + 1) / 80.0))]) + off
    k = int(nb * rng.uniform(.5, 1))
    # what averages out over the requested bins does not matter
    w = rng.exponential(size=k); w -= w.mean()
    x[:k] += abs(i0 - inorm) * .02 * w
    m.note(nb=nb, flat=flat, off=off, **dict(c, ib=ib, i0=i0))
    r = m.call(U.get_offset_from_muon, x, ib, c["rn"], c["rl"], rsh=c["rsh"], nbaseline=k)
    amp = abs(i0) + abs(off)
    m.close("offset", r[0], off, rtol=0, atol=1e-10 * amp)
    m.close("i0", r[2], i0, rtol=0, atol=1e-10 * amp)
    g = amp / abs(i0)
    m.close("r0", r[1], c["r0"], rtol=0, atol=1e-9 * g * (c["r0"] + c["rl"]))
    m.close("p0", r[3], i0 ** 2 * c["r0"], rtol=0, atol=1e-9 * g * (abs(vb * i0) + c["rl"] * i0 ** 2))
    o = m.call(U.get_offset_from_muon, x, ib, c["rn"], c["rl"], rsh=c["rsh"], nbaseline=k, lgcfullrtn=False)
    m.expect("short-form", o == r[0])
    p = m.call(U.powertrace_simple, np.full(1, i0 + off), r[0], ib, c["rl"], c["rsh"])
    m.close("consistent-power", p[0], r[3], rtol=1e-6 * g, atol=0)


def scen_g(m, rng):
    n = rng.choice([5, 5, 4, 6, 3, 2.5, 5.5])
    n = int(n) if n == int(n) else float(n)
    tc = float(10 ** rng.uniform(-2, -.5)); tb = tc * float(rng.uniform(0, .95)) if rng.random() < .9 else 0.0
    K = float(10 ** rng.uniform(-10, -6))
    p0 = K * (tc ** n - tb ** n)
    g = n * K * tc ** (n - 1)
    pe = p0 * float(rng.uniform(0, .3))
    m.note(n=float(n), tc=tc, tb=tb, K=K)
    kw = {} if n == 5 else dict(n=n)
    a, e = m.call(U.estimate_g, p0, tc, tb, p0_err=pe, **kw)
    m.close("g", a, g, rtol=1e-8)
    m.close("g-err", e, g * pe / p0, rtol=1e-8, atol=1e-30)
    sd = np.array([p0, tc, max(tb, .1 * tc)]) * 10 ** rng.uniform(-4, -1, size=3)
    B = rng.normal(size=(3, 4)); C = B @ B.T; C /= np.sqrt(np.outer(np.diag(C), np.diag(C)))
    cov = C * np.outer(sd, sd)
    a, e = m.call(U.estimate_g, p0, tc, tb, cov=cov, **kw)
    m.close("g:cov", a, g, rtol=1e-8)
    G = lambda p, t, b: n * p * t ** (n - 1) / (t ** n - b ** n)
    h = 1e-5
    d = np.array([G(1, tc, tb), (G(p0, tc * (1 + h), tb) - G(p0, tc * (1 - h), tb)) / (2 * h * tc),
                  (G(p0, tc, tb + h * tc) - G(p0, tc, abs(tb - h * tc) if tb else -h * tc if n % 2 == 0 else 0)) / (2 * h * tc) if tb > h * tc else 0.0])
    if tb == 0 or tb > .01 * tc:
        w = np.sqrt(d @ cov @ d)
        sc = np.sqrt(np.abs(d) @ np.abs(cov) @ np.abs(d))
        m.close("g-err:cov", e, w, rtol=0, atol=1e-4 * sc, detail=f"n={n} tc={tc} tb={tb}")
        _, e2 = m.call(U.estimate_g, p0, tc, tb, cov=4 * cov, **kw)
        m.close("g-err:linear", e2, 2 * e, rtol=1e-9)
    # only the power is uncertain: both forms agree
    _, e3 = m.call(U.estimate_g, p0, tc, tb, cov=np.diag([pe ** 2, 0, 0]), **kw)
    m.close("g-err:forms-agree", e3, g * pe / p0, rtol=1e-8, atol=1e-30)


def scen_offset(m, rng):
    nt = int(rng.integers(1, 20))
    lead = (nt,) if rng.random() < .6 else (nt, int(rng.integers(1, 4)))
    didv = bool(rng.random() < .6)
    if didv:
        sg = float(rng.choice([1, 7, 30, 37, 49, 50, 60, 90, 100, 110, 130])); P = int(rng.integers(3, 300)); fs = sg * P
        nper = int(rng.integers(1, 6)); n = nper * P + (int(rng.integers(0, P)) if rng.random() < .6 else 0)
        keep = nper * P
        if rng.random() < .3:
            # periods that are no whole number of samples: whole up to one sample
            pb = P + float(rng.choice([.5, 1 / 3, .99, .01, rng.random()])); fs = sg * pb
            nper = int(rng.integers(1, 40)); n = int(np.ceil(nper * pb)) + int(rng.integers(0, P))
            keep = int(int(n / (fs / sg)) * (fs / sg))
    else:
        n = int(rng.integers(1, 300)); keep = n; fs = sg = 1.0
    x = rng.normal(size=lead + (n,)) + rng.normal(size=lead + (1,)) + rng.normal() * 10
    if n > keep:
        x[..., keep:] += 50
    m.note(didv=didv, lead=list(lead), n=n, keep=keep, fs=fs, sgfreq=sg)
    o, s = m.call(U.calc_offset, x, fs=fs, sgfreq=sg, is_didv=True) if didv else m.call(U.calc_offset, x)
    mu = x[..., :keep].mean(axis=-1)
    m.close("offset", o, mu.mean(axis=0), rtol=1e-10, atol=1e-12, detail=f"keep {keep} of {n}")
    m.close("standard-error", s, mu.std(axis=0) / np.sqrt(nt), rtol=1e-7, atol=1e-11)
    m.expect("shape", np.shape(o) == lead[1:] and np.shape(s) == lead[1:])
    if not didv:
        o2, s2 = m.call(U.calc_offset, x, fs=123.0, sgfreq=7.0)
        m.expect("rates-ignored", near(o2, o) and near(s2, s, 1e-7))


def scen_slope(m, rng):
    n = int(rng.integers(2, 200))
    x = np.cumsum(rng.uniform(.1, 2, size=n)) * 10 ** rng.uniform(-6, 2) + rng.normal()
    b, a = float(rng.normal() * 10 ** rng.uniform(-3, 3)), float(rng.normal())
    y = b * x + a
    m.note(n=n, b=b, a=a)
    sp = np.ptp(x)
    s = m.call(U.slope, x, y)
    tol = 1e-10 * (np.abs(y).max() + np.abs(x).max()) / sp * n
    m.close("slope", s, b, rtol=1e-9, atol=tol)
    m.expect("default", m.call(U.slope, x, y, removemeans=True) == s)
    # with noise: the least-squares slope, and what is left has no slope
    z = y + rng.normal(size=n) * np.ptp(y)
    s = m.call(U.slope, x, z)
    w = np.polyfit((x - x.mean()) / sp, z, 1)[0] / sp
    m.close("least-squares", s, w, rtol=1e-7, atol=tol + 1e-9 * np.ptp(z) / sp)
    xc, zc = x - x.mean(), z - z.mean()
    m.close("means-removed", m.call(U.slope, xc, zc, removemeans=False), w, rtol=1e-7, atol=tol + 1e-9 * np.ptp(z) / sp)
    # far from the origin (time stamps): nothing but the rounding of x itself
    X = float(10 ** rng.uniform(3, 7)) * sp
    m.close("far-origin", m.call(U.slope, x + X, z), w, rtol=1e-6, atol=tol + 1e-7 * np.ptp(z) / sp)
    m.close("residual", m.call(U.slope, x, z - s * x), 0.0, atol=1e-8 * (np.abs(z).max() + np.abs(s * x).max() + np.abs(x).max()) / sp * n)


SCENARIOS = {"power": (scen_power, 300, 4000), "energy": (scen_energy, 400, 5000), "muon": (scen_muon, 200, 2500),
             "g": (scen_g, 400, 5000), "offset": (scen_offset, 400, 5000), "slope": (scen_slope, 300, 4000)}
