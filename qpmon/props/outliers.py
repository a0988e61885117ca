"""C25: iterative outlier statistics (iterstat, itercov, removeoutliers)."""
import warnings
import numpy as np
from scipy import stats, optimize
from qetpy.cut import iterstat, itercov, removeoutliers
from qpmon.core import steps, near


def sample(rng, kind, n):
    if kind == "normal":
        return rng.normal(size=n)
    if kind == "uniform":
        return rng.uniform(-1, 1, size=n)
    if kind == "exponential":
        return rng.exponential(size=n) * rng.choice([-1, 1])
    if kind == "cauchy":
        return rng.standard_cauchy(size=n)
    if kind == "bimodal":
        return np.where(rng.uniform(size=n) < rng.uniform(.1, .9), 0, rng.uniform(2, 30)) + rng.normal(size=n)
    if kind == "integers":
        return rng.integers(-3, 4, size=n).astype(float)
    if kind == "two-values":
        return rng.integers(0, 2, size=n).astype(float)
    if kind == "constant":
        return np.full(n, float(rng.choice([0, 1, -2, 4])))
    if kind == "one-off":
        x = np.zeros(n); x[int(rng.integers(n))] = 1.0
        return x
    if kind == "ramp":
        return np.arange(n, dtype=float)
    raise KeyError(kind)


KINDS = ["normal", "uniform", "exponential", "cauchy", "bimodal", "integers", "two-values", "constant", "one-off", "ramp"]


def consistent1(m, tag, x, cut, prec, res):
    """mask, mean and std belong together and the clip is at its fixed point"""
    mean, std, mask = res
    s = np.std(x) + 1e-300
    off = np.abs(x).max()
    m.expect(tag + ":mask", isinstance(mask, np.ndarray) and mask.dtype == bool and mask.shape == x.shape, f"{type(mask)}")
    m.expect(tag + ":some-kept", mask.sum() >= 1)
    m.close(tag + ":mean", mean, x[mask].mean(), rtol=0, atol=1e-12 * (s + off))
    m.close(tag + ":std", std, x[mask].std(), rtol=0, atol=1e-12 * (s + off))
    d = np.abs(x - mean)
    tol = s / prec * (1 + cut) * 1.0001 + 1e-12 * (s + off)
    if mask.sum() == len(x) and (d >= cut * std + tol).any():
        return False            # nothing could be cut: everything is returned
    m.expect(tag + ":kept-inside", np.all(d[mask] <= cut * std + tol), f"{(d[mask] - cut * std).max()} tol {tol}")
    m.expect(tag + ":rejected-outside", np.all(d[~mask] >= cut * std - tol),
             f"cut={cut} {(cut * std - d[~mask]).max() if (~mask).any() else 0} tol {tol}")
    return True


def clip(x, cut):
    """Number of points the clip ends with, None where rounding decides or it does not settle."""
    mu, sd, old = x.mean(), x.std(), None
    for _ in range(300):
        d = np.abs(x - mu)
        if np.any(np.abs(d - cut * sd) <= 1e-9 * (np.abs(x).max() + sd)):
            return None
        k = d < cut * sd
        if k.sum() <= 1:
            return int(k.sum())
        if old is not None and np.array_equal(k, old):
            return int(k.sum())
        mu, sd, old = x[k].mean(), x[k].std(), k
    return None


def scen_iterstat(m, rng):
    kind = str(rng.choice(KINDS))
    n = int(rng.choice([1, 2, 3, 4, 5, 8, 20, 100, 1000]))
    cut = float(rng.choice([.7, 1, 1.5, 2, 2.5, 3, 5, rng.uniform(.6, 6)]))
    prec = float(rng.choice([10, 1000.0, 1000.0, 10000.0, 1e8]))
    sc, off = float(2.0 ** rng.integers(-30, 30)), 0.0
    x = sample(rng, kind, n) * sc
    if kind in ("normal", "exponential", "bimodal"):
        off = float(rng.choice([0, 3, -50])) * sc
        x = x + off
    m.note(kind=kind, n=n, cut=cut, prec=prec, sc=sc, off=off)
    with steps(400000):
        res = m.call(iterstat, x, cut=cut, precision=prec)
    mean, std, mask = res
    settled = consistent1(m, "self", x, cut, prec, res)
    if not settled:
        # documented fallback only when the clip ends with at most one point
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            m.call(iterstat, x, cut=cut, precision=prec)
        m.expect("fallback-warns", len(w) > 0, f"{kind} n={n} cut={cut}")
        left = clip(x, cut)
        m.expect("fallback-needed", left is None or left <= 1, f"{kind} n={n} cut={cut}: the clip settles on {left} points")
    if kind == "constant":
        m.expect("constant", mask.all() and std == 0 and mean == x[0])
    # power-of-two gain: exactly the same arithmetic
    k = float(2.0 ** rng.integers(-8, 9))
    r2 = m.call(iterstat, x * k, cut=cut, precision=prec)
    m.expect("gain", np.array_equal(r2[2], mask) and r2[0] == mean * k and r2[1] == std * k)
    r3 = m.call(iterstat, -x, cut=cut, precision=prec)
    m.expect("mirror", np.array_equal(r3[2], mask) and r3[0] == -mean and r3[1] == std)
    if kind in ("integers", "two-values", "ramp", "one-off", "constant"):
        return                     # ties: order and offset decide through rounding only
    p = rng.permutation(n)
    r4 = m.call(iterstat, x[p], cut=cut, precision=prec)
    m.expect("permutation", np.array_equal(r4[2], mask[p]), f"{kind} n={n} cut={cut}")
    m.close("permutation:stats", r4[:2], [mean, std], rtol=1e-9, atol=1e-13 * np.abs(x).max())
    b = float(rng.normal() * 30 * (np.std(x) + 1e-300))
    r5 = m.call(iterstat, x + b, cut=cut, precision=prec)
    m.expect("offset", np.array_equal(r5[2], mask), f"{kind} n={n} cut={cut}")
    m.close("offset:stats", [r5[0] - b, r5[1]], [mean, std], rtol=1e-8, atol=1e-11 * (np.abs(x).max() + abs(b)))
    if len(x) > 3:
        r6 = m.call(iterstat, list(x) if False else np.asarray(x, dtype=float).copy(), cut, prec)
        m.expect("positional", np.array_equal(r6[2], mask) and near(r6[0], mean, 1e-12))


def scen_reject(m, rng):
    """clean Gaussian core with a minority of far outliers"""
    cut = float(rng.choice([2, 2.5, 3, 4, rng.uniform(2.2, 4)]))
    prec = float(rng.choice([1000.0, 10000.0]))
    n = int(rng.integers(150, 3000))
    side = str(rng.choice(["high", "low", "both", "none"]))
    f = rng.uniform(.05, .45) / (1 + cut ** 2)
    k = 0 if side == "none" else max(1, int(f * n))
    d = 10 ** rng.uniform(1.5, 3, size=k)          # 30 .. 1000 sigma
    d *= {"high": 1, "low": -1, "both": rng.choice([-1, 1], size=k), "none": 1}[side]
    x = np.concatenate([rng.normal(size=n), d])
    p = rng.permutation(n + k); out = (p >= n); x = x[p]
    sc = float(10 ** rng.uniform(-9, 3)); off = float(rng.normal() * 10)
    x = (x + off) * sc
    m.note(cut=cut, n=n, k=k, side=side, sc=sc)
    mean, std, mask = res = m.call(iterstat, x, cut=cut, precision=prec)
    consistent1(m, "contaminated", x, cut, prec, res)
    m.expect("outliers-rejected", not mask[out].any(), f"side={side} kept {mask[out].sum()} of {k}, cut={cut}")
    # cut=2 settles near +-1.3 sigma (~.80 kept); wider cuts keep more
    floor = .65 if cut < 2.2 else (.80 if cut < 2.5 else .90)
    m.expect("clean-kept", mask[~out].mean() > floor, f"{mask[~out].mean()} cut={cut} n={n}")
    m.expect("core-kept", mask[~out & (np.abs(x / sc - off) < .5)].all())
    m.close("mean", (mean / sc - off), 0.0, atol=6 / np.sqrt(n))
    if cut >= 2.9:
        m.close("std", std / sc, 1.0, atol=.05 + 5 / np.sqrt(n))


def truth(x, lo, hi):
    """maximum likelihood of a normal truncated at +-; symmetric bounds"""
    c, h = .5 * (lo + hi), .5 * (hi - lo)
    y = (x[(x >= lo) & (x <= hi)] - c) / h
    v = np.mean(y ** 2)                    # variance about the centre, in half-widths

    def eq(ls):
        s = np.exp(ls)
        z = stats.norm.cdf(1 / s) - stats.norm.cdf(-1 / s)
        return s * s * (1 - 2 / s * stats.norm.pdf(1 / s) / z) - v
    return c, h * np.exp(optimize.brentq(eq, np.log(.05), np.log(30)))


def scen_unbiased(m, rng):
    cut = float(rng.choice([2.2, 2.5, 3, 3.5]))
    n = int(rng.integers(4000, 12000))
    small = rng.uniform() < .3
    sc = float(10 ** (rng.uniform(-9, -2) if small else rng.uniform(0, 3)))
    off = float(rng.normal() * 5)
    x = (rng.normal(size=n) + off) * sc
    k = int(rng.integers(0, n // 60)); x[:k] += sc * rng.uniform(40, 200, size=k)
    m.note(cut=cut, n=n, sc=sc, k=k)
    mean, std, mask = m.call(iterstat, x, cut=cut)
    mu, sig, mask2 = m.call(iterstat, x, cut=cut, return_unbiased_estimates=True)
    m.expect("same-mask", np.array_equal(mask, mask2))
    c, s = truth(x[mask], mean - cut * std, mean + cut * std)
    m.close("unbiased:std", sig / sc, s / sc, rtol=0, atol=4e-3, detail=f"cut={cut} sc={sc}")
    m.close("unbiased:mean", (mu - mean) / sc, 0.0, atol=1e-2)
    m.close("unbiased:truth", sig / sc, 1.0, atol={2.2: 8, 2.5: 5, 3: 4, 3.5: 4}[cut] / np.sqrt(n) * 1.5,
            detail=f"cut={cut} sc={sc}")


def ref_mask(data, mean, cov, nsigma, threshold):
    nd = data.shape[0]
    thr = threshold if threshold is not None else max(3, np.sqrt(stats.chi2.ppf(.95 ** (1 / nd), 1)))
    d = data - mean[:, None]
    sd = np.sqrt(np.diag(cov))
    z = np.linalg.solve(cov / np.outer(sd, sd), d / sd[:, None])
    chi2 = np.sum(d / sd[:, None] * z, axis=0)
    a = chi2 / (nd + nsigma * np.sqrt(2 * nd))
    b = np.max(np.abs(d) / (thr * sd[:, None]), axis=0)
    r = np.maximum(a, b)
    return r < 1, np.abs(r - 1) < 1e-6


def consistent2(m, tag, data, res, nsigma=2.75, threshold=None, fixed=False):
    mean, cov, mask = res
    nd, n = data.shape
    m.expect(tag + ":shapes", np.shape(mean) == (nd,) and np.shape(cov) == (nd, nd) and mask.shape == (n,) and mask.dtype == bool)
    k = data[:, mask]
    mu = k.mean(axis=1)
    c = (k - mu[:, None]) @ (k - mu[:, None]).T / (k.shape[1] - 1)
    sd = data.std(axis=1); ref = np.outer(sd, sd)
    big = np.abs(data).max(axis=1)
    m.close(tag + ":mean", mean / sd, mu / sd, rtol=0, atol=1e-11 * (1 + (big / sd).max()))
    m.close(tag + ":cov", cov / ref, c / ref, rtol=1e-9, atol=1e-11)
    m.close(tag + ":symmetric", cov / ref, (cov / ref).T, rtol=1e-10)
    if fixed:
        want, edge = ref_mask(data, np.asarray(mean), np.asarray(cov), nsigma, threshold)
        ok = (want == mask) | edge
        return bool(ok.all())
    return True


def scen_itercov(m, rng):
    nd = int(rng.integers(2, 6)) if rng.uniform() < .85 else int(rng.integers(6, 90))
    n = int(rng.choice([30, 100, 400, 2000])) if nd < 6 else int(rng.choice([1500, 3000]))
    nsigma = float(rng.choice([2.75, 2.75, 2, 4]))
    thr = None if rng.uniform() < .6 else float(rng.uniform(2.5, 5))
    chi = nd + nsigma * np.sqrt(2 * nd)
    A = np.linalg.qr(rng.normal(size=(nd, nd)))[0] @ np.diag(rng.uniform(.4, 2, size=nd)) @ np.linalg.qr(rng.normal(size=(nd, nd)))[0]
    x = rng.normal(size=(n, nd)) @ A.T
    side = str(rng.choice(["none", "one", "many"]))
    k = 0 if side == "none" else max(1, int(n * rng.uniform(.05, .3) / (1 + chi)))
    if k:
        u = rng.normal(size=(1 if side == "one" else k, nd)); u /= np.linalg.norm(u, axis=1)[:, None]
        x = np.concatenate([x, u * rng.uniform(40, 300, size=(k, 1))])
    p = rng.permutation(n + k); x = x[p]; out = p >= n
    sc = 10 ** rng.uniform(-7, 2); off = rng.normal(size=nd) * 5
    x = (x + off) * sc
    strict = bool(rng.uniform() < .5)
    kw = dict(nsigma=nsigma)
    if thr is not None:
        kw["threshold"] = thr
    if strict:
        kw.update(maxiter=300, frac_err=1e-12)
    m.note(nd=nd, n=n, k=k, side=side, nsigma=nsigma, thr=thr, strict=strict, sc=float(sc))
    with steps(400000):
        res = m.call(itercov, x, **kw)
    mean, cov, mask = res
    fixed = consistent2(m, "self", x.T, res, nsigma, thr, fixed=strict)
    if strict and not fixed:
        r2 = itercov(x, **dict(kw, maxiter=301))
        m.expect("fixed-point", not np.array_equal(r2[2], mask), "settled, but mask and statistics disagree")
    if k:
        m.expect("outliers-rejected", not mask[out].any(), f"kept {mask[out].sum()} of {k} nd={nd} {side}")
    if n >= 400 and nsigma >= 2.75 and nd < 6:
        lo = .85 if (thr is None or thr >= 3) else .7
        m.expect("clean-kept", mask[~out].mean() > lo, f"{mask[~out].mean()} nd={nd} nsigma={nsigma} thr={thr}")
    # one array or one vector per dimension
    r3 = m.call(itercov, *[x[:, i].copy() for i in range(nd)], **kw)
    m.expect("calling-forms", np.array_equal(r3[2], mask))
    m.close("calling-forms:cov", r3[1] / sc ** 2, cov / sc ** 2, rtol=1e-9)
    # common gain, order of events, offset
    r4 = m.call(itercov, x * 8.0, **kw)
    m.expect("gain", np.array_equal(r4[2], mask))
    m.close("gain:stats", r4[1] / 64 / sc ** 2, cov / sc ** 2, rtol=1e-9)
    m.close("gain:mean", r4[0] / 8 / sc, mean / sc, rtol=1e-9)
    q = rng.permutation(len(x))
    r5 = m.call(itercov, x[q], **kw)
    m.expect("permutation", np.array_equal(r5[2], mask[q]))
    b = rng.normal(size=nd) * 20 * sc
    r6 = m.call(itercov, x + b, **kw)
    m.expect("offset", np.array_equal(r6[2], mask))
    m.close("offset:mean", (r6[0] - b) / sc, mean / sc, rtol=0, atol=1e-8)
    # channels may be listed in any order
    o = rng.permutation(nd)
    r7 = m.call(itercov, x[:, o], **kw)
    m.expect("channel-order", np.array_equal(r7[2], mask))
    m.close("channel-order:cov", r7[1] / sc ** 2, cov[np.ix_(o, o)] / sc ** 2, rtol=1e-9)
    # independent channel gains: the fixed point is the same whenever both settle
    g = 2.0 ** rng.integers(-3, 4, size=nd)
    if strict and fixed:
        r8 = m.call(itercov, x * g, **kw)
        if consistent2(m, "rescaled", (x * g).T, r8, nsigma, thr, fixed=True):
            m.expect("channel-gain", np.array_equal(r8[2], mask))


def scen_itercov_bad(m, rng):
    n = int(rng.integers(5, 40))
    x = rng.normal(size=n)
    m.note(n=n)
    m.call(itercov, rng.normal(size=(n, 2)))
    m.raises("one-dimensional", ValueError, itercov, x)
    m.raises("one-column", ValueError, itercov, x[:, None])
    m.raises("lengths-differ", ValueError, itercov, x, x[:-1])
    # at most one event passes a hopelessly tight cut
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        y = rng.normal(size=(n, 2))
        r = m.call(itercov, y, threshold=1e-9)
        m.expect("fallback", np.shape(r[2]) == (n,) and np.all(r[2]) and len(w) > 0, f"{np.shape(r[2])} for {n} events")
        w.clear()
        r2 = m.call(itercov, y[:, 0].copy(), y[:, 1].copy(), threshold=1e-9)
    m.expect("fallback:vectors", np.shape(r2[2]) == (n,) and np.all(r2[2]) and len(w) > 0, f"{np.shape(r2[2])} for {n} events")
    m.close("fallback:mean", r[0], y.mean(axis=0), rtol=0, atol=1e-12)
    m.close("fallback:cov", r[1], np.cov(y.T), rtol=1e-10)


def scen_skewness(m, rng):
    """Skewness driven removal acts on a high-side tail."""
    n = int(rng.integers(60, 2000))
    kind = str(rng.choice(["normal", "tail", "far", "low", "exponential", "uniform"]))
    x = rng.normal(size=n)
    k = 0
    if kind == "tail":
        k = max(2, int(n * rng.uniform(.05, .25))); x[:k] = np.abs(x[:k]) + rng.exponential(6, size=k)
    elif kind == "far":
        k = max(1, int(n * rng.uniform(.01, .2))); x[:k] = 10 ** rng.uniform(1.5, 4, size=k)
    elif kind == "low":
        x[:max(1, n // 10)] -= rng.uniform(20, 90)
    elif kind == "exponential":
        x = rng.exponential(size=n)
    elif kind == "uniform":
        x = rng.uniform(size=n)
    p = rng.permutation(n); out = p < k; x = x[p]
    sc = float(2.0 ** rng.integers(-30, 20))
    x = x * sc
    target = float(rng.choice([.05, .05, .2, 0]))
    maxiter = int(rng.choice([20, 20, 400]))
    m.note(kind=kind, n=n, k=k, target=target, maxiter=maxiter)
    with steps(600000):
        mask = m.call(removeoutliers, x, maxiter=maxiter, skewtarget=target)
    m.expect("mask", isinstance(mask, np.ndarray) and mask.dtype == bool and mask.shape == x.shape)
    sk = lambda v: ((v - v.mean()) ** 3).mean() / max(((v - v.mean()) ** 2).mean(), 1e-300) ** 1.5
    z = x / sc
    if sk(z) <= target - 1e-9:
        m.expect("no-tail-no-cut", mask.all())
    if mask.any():
        a, b = x[mask].min(), x[mask].max()
        m.expect("contiguous", np.array_equal(mask, (x >= a) & (x <= b)), "a value between two kept values was rejected")
        if maxiter > 100 and mask.sum() > 2:
            # either the tail is gone or another iteration changes nothing
            m.expect("target-reached", sk(z[mask]) <= target + 1e-9 or np.array_equal(
                mask, removeoutliers(x, maxiter=maxiter + 7, skewtarget=target)), f"{sk(z[mask])}")
            med = np.median(z[mask])
            m.expect("trimmed-to-the-end", sk(z[mask]) <= target + 1e-9 or z[mask].max() - med <= (med - z.min()) * (1 + 1e-12),
                     f"still skewed ({sk(z[mask])}) and reaching {z[mask].max() - med} above, {med - z.min()} below the median")
    if kind == "far":
        m.expect("outliers-rejected", not mask[out].any(), f"kept {mask[out].sum()} of {k} n={n}")
        m.expect("core-kept", mask[~out & (np.abs(z) < .5)].mean() > .95 if target > 0 and n > 200 else True, f"{mask.mean()}")
    if maxiter == 20 and kind in ("normal", "far") and n > 200:
        m.expect("low-side-safe", mask[np.abs(z - np.median(z)) < .2].mean() > .9 if target > 0 else True, f"{kind} n={n} {mask.mean()} {np.median(z)} {z[mask].min()} {z[mask].max()}")
    m.expect("gain", np.array_equal(m.call(removeoutliers, x * 4.0, maxiter=maxiter, skewtarget=target), mask))
    q = rng.permutation(n)
    m.expect("permutation", np.array_equal(m.call(removeoutliers, x[q], maxiter=maxiter, skewtarget=target), mask[q]))
    m.expect("offset", np.array_equal(m.call(removeoutliers, x + sc * 3.7, maxiter=maxiter, skewtarget=target), mask))
    if maxiter == 20 and target == .05:
        m.expect("defaults", np.array_equal(m.call(removeoutliers, x), mask))


SCENARIOS = {
    "iterstat": (scen_iterstat, 1200, 20000),
    "reject": (scen_reject, 500, 8000),
    "unbiased": (scen_unbiased, 60, 800),
    "itercov": (scen_itercov, 400, 6000),
    "itercov-bad": (scen_itercov_bad, 40, 400),
    "skewness": (scen_skewness, 500, 8000),
}
