"""C18: the dI/dV fit with priors is the maximum a posteriori solution."""
import numpy as np
import qetpy as qp
from scipy.optimize import least_squares
from .. import didvref as R
from . import didv_fit as F
from .didv_result import SSP, roots_ok

BASIC = {1: ["rsh", "rp"], 2: ["rsh", "rp", "r0"], 3: ["rsh", "rp", "r0"]}


def problem(rng, poles):
    while True:
        p, a, i = F.simulate(rng, poles, "hi" if poles == 3 else None, noise=float(10 ** rng.uniform(-2.5, -1.5)), ntr=30)
        if i["nper"] <= 2:
            break
    a.pop("rp"); a.pop("r0", None)
    names = SSP[poles] + ["dt"]
    truth = np.array([p[k] for k in SSP[poles]] + [i["shift"] / a["fs"]])
    return p, a, i, names, truth


def priors_for(rng, names, truth, poles, width, extra=True, corr=True):
    """Prior means and covariance; zero rows mean no prior knowledge."""
    n = len(names)
    idx = [names.index(k) for k in BASIC[poles]]
    if extra:
        idx += [j for j in range(n - 1) if j not in idx and rng.random() < .3]
    if extra and rng.random() < .2 and truth[-1] != 0:
        idx.append(n - 1)
    idx = sorted(idx)
    sd = np.zeros(n)
    for j in idx:
        sd[j] = abs(truth[j]) * width * rng.uniform(.5, 2)
    k = len(idx)
    C = np.eye(k)
    if corr and rng.random() < .6:
        B = rng.normal(size=(k, k + 2))
        C = B @ B.T
        C /= np.sqrt(np.outer(np.diag(C), np.diag(C)))
    cov = np.zeros((n, n))
    cov[np.ix_(idx, idx)] = C * np.outer(sd[idx], sd[idx])
    mean = np.zeros(n)
    mean[idx] = truth[idx] + sd[idx] * np.clip(np.linalg.cholesky(C + 1e-12 * np.eye(k)) @ rng.normal(size=k), -2, 2) * .7
    return mean, cov, idx, sd


def whitened(cov, idx):
    s = np.sqrt(np.diag(cov)[idx])
    Cn = cov[np.ix_(idx, idx)] / np.outer(s, s)
    return np.linalg.inv(np.linalg.cholesky(Cn)) / s


def residual_fn(ref, names, mean, cov, idx, fcut=np.inf):
    W = whitened(cov, idx)
    f = ref["freq"][ref["har"]]; s = np.abs(f) < fcut; f = f[s]
    y, e = ref["ymean"][s] * ref["rsh"], ref["ystd"][s] * ref["rsh"]

    def r(x):
        d = dict(zip(names, x))
        dd = y - d["rsh"] * np.exp(-2j * np.pi * f * d["dt"]) / R.Z(f, d)
        return np.concatenate([dd.real / e.real, dd.imag / e.imag, W @ (np.asarray(x) - mean)[idx]])
    return r


def scen_map(m, rng):
    poles = int(rng.choice([1, 2, 2, 3]))
    p, a, i, names, truth = problem(rng, poles)
    width = float(10 ** rng.uniform(-3, -1.2))
    mean, cov, idx, sd = priors_for(rng, names, truth, poles, width)
    fcut = float(rng.choice([np.inf, 99991.0]))
    m.note(poles=poles, width=width, priors_on=[names[j] for j in idx], correlated=bool(np.abs(cov - np.diag(np.diag(cov))).max() > 0), fcut=fcut, **i)
    ref = F.refdata(a); ref["rsh"] = a["rsh"]
    r = residual_fn(ref, names, mean, cov, idx, fcut)
    D = F.make(m, a, qp.DIDVPriors)
    mc, cc = mean.copy(), cov.copy()
    kw = {} if fcut == np.inf else dict(fcutoff=fcut)
    res = F.fit(m, D, poles, priors=mc, priorscov=cc, **kw)
    t = f"{poles}pole"
    m.expect(t + ":priors-kept", np.array_equal(res["priors"], mean) and np.array_equal(res["priorscov"], cov)
             and np.array_equal(mc, mean) and np.array_equal(cc, cov))
    q = np.array([res["params"][k] for k in names])
    m.expect(t + ":keys", list(res["params"]) == names)
    if not m.expect(t + ":finite", np.all(np.isfinite(q)), f"{q}"):
        return
    c = .5 * np.sum(r(q) ** 2)
    m.close(t + ":cost", res["cost"], c, rtol=1e-7, detail=f"{res['params']}")
    sc = np.abs(q) + np.where(np.array(names) == "dt", 1e-6, 1e-12)
    ct = .5 * np.sum(r(truth) ** 2)
    best = min(least_squares(lambda u: r(u * sc), q / sc, x_scale="jac", xtol=1e-13, ftol=1e-13, gtol=1e-13, max_nfev=300).cost,
               least_squares(lambda u: r(u * sc), truth / sc, x_scale="jac", xtol=1e-13, ftol=1e-13, gtol=1e-13, max_nfev=300).cost)
    m.expect(t + ":minimal", c <= best + 2.0 + .02 * best, f"posterior cost {c}, but {best} is reachable (truth {ct}) {res['params']} {dict(zip(names, truth))}")
    m.expect(t + ":not-worse-than-truth", c <= ct * 1.02 + 2, f"{c} {ct}")
    # parameters within reach of truth and priors
    e = np.array([res["errors"][k] for k in names])
    C = np.asarray(res["cov"])
    m.close(t + ":errors", e, np.sqrt(np.diag(C)), rtol=1e-9)
    if not m.expect(t + ":errors-positive", np.all(e > 0) and np.all(np.isfinite(e)), f"{e}"):
        return
    # the covariance of the posterior is the inverse of its curvature
    # (steps of a small fraction of the error each parameter would have on its own, and
    # fourth order differences: the parameters are strongly correlated)
    u = 1e-5 * np.maximum(np.abs(q), 1e-9)
    for _ in range(2):
        J = np.stack([(8 * (r(q + uu) - r(q - uu)) - (r(q + 2 * uu) - r(q - 2 * uu))) / 12 for uu in np.diag(u)], axis=1)
        nj = np.sqrt(np.sum(J ** 2, axis=0))
        J /= nj
        u, s0 = np.minimum(.02 * u / nj, np.where(np.array(names) == "dt", np.inf, 1e-3 * np.maximum(np.abs(q), 1e-12))), u / nj
    J *= e / s0
    cn = np.linalg.cond(J)
    m.note(cond=cn)
    if cn < 1e6 and q[names.index("L")] > 1e-10:
        G = np.linalg.inv(J.T @ J)
        m.close(t + ":errors-curvature", np.sqrt(np.diag(G)), np.ones(len(q)), rtol=.05, detail=f"{dict(zip(names, e))}")
        s = np.sqrt(np.diag(G))
        m.close(t + ":covariance", C / np.outer(e, e), G / np.outer(s, s), rtol=0, atol=.05)
    for j in idx:
        m.expect(t + ":error-not-above-prior", e[j] <= 1.01 * sd[j], f"{names[j]}: error {e[j]} prior {sd[j]}")
        m.expect(t + ":within-prior", abs(q[j] - mean[j]) < 8 * sd[j], f"{names[j]} {q[j]} {mean[j]} +- {sd[j]}")
    f = np.array([0, 1e2, 1e3, 1e4])
    y, yt = 1 / R.Z(f, res["params"]), 1 / R.Z(f, p)
    g = q[0] / p["rsh"]
    m.expect(t + ":admittance", np.max(np.abs(y * g / yt - 1)) < .1 + 10 * i["noise"], f"{y * g / yt}")
    m.close(t + ":didv0", res["didv0"], y[0].real, rtol=1e-9)
    if res["params"]["L"] > 1e-12:
        roots_ok(m, t + ":falltimes", res["falltimes"], res["params"], poles)
    # same fit again: same answer
    r2 = F.fit(m, D, poles, priors=mean.copy(), priorscov=cov.copy(), **kw)
    m.expect(t + ":repeatable", r2["params"] == res["params"] and r2["cost"] == res["cost"])


def scen_limits(m, rng):
    """Tight priors pin the parameters, loose ones leave the data-only fit."""
    poles = int(rng.choice([1, 2]))
    p, a, i, names, truth = problem(rng, poles)
    ref = F.refdata(a); ref["rsh"] = a["rsh"]
    kind = str(rng.choice(["tight", "tight-all", "loose"]))
    if rng.random() < .2:
        D = F.make(m, a, qp.DIDVPriors)
        m.raises("bad-order", ValueError, D.dofit, int(rng.choice([0, 4])), truth.copy(), np.eye(len(truth)))
    m.note(poles=poles, kind=kind, **i)
    D = F.make(m, a, qp.DIDVPriors)
    n = len(names)
    if kind == "tight-all":
        # every circuit parameter pinned: only dt is left to the data
        width = float(10 ** rng.uniform(-7, -5.5))
        sd = np.abs(truth) * width; sd[-1] = 0
        mean = truth * (1 + .02 * rng.uniform(-1, 1, size=n)); mean[-1] = 0
        res = F.fit(m, D, poles, priors=mean, priorscov=np.diag(sd ** 2))
        for j in range(n - 1):
            m.close("tight-all:" + names[j], res["params"][names[j]], mean[j], rtol=.02)
    elif kind == "tight":
        width = float(10 ** rng.uniform(-6, -4))
        mean, cov, idx, sd = priors_for(rng, names, truth, poles, width, extra=False, corr=False)
        mean[idx] = truth[idx] * (1 + .02 * rng.uniform(-1, 1, size=len(idx)))
        res = F.fit(m, D, poles, priors=mean, priorscov=cov)
        if poles > 1:
            for j in idx:
                m.close("tight:" + names[j], res["params"][names[j]], mean[j], rtol=1e-3)
        # the remaining combination follows the data: same admittance as the data-only fit
    else:
        mean, cov, idx, sd = priors_for(rng, names, truth, poles, .03, extra=False, corr=False)
        res = F.fit(m, D, poles, priors=mean, priorscov=cov)
        E = F.make(m, dict(a, rp=mean[1], r0=mean[2] if poles > 1 else .3))
        b = F.fit(m, E, poles)
        # scaled by the fitted shunt, which the data-only fit takes as given
        f = np.array([0.0, 3e2, 3e3, 2e4])
        y = res["params"]["rsh"] / a["rsh"] / R.Z(f, res["params"])
        m.close("loose:admittance", y * R.Zraw(f, b["params"]), np.ones(4), rtol=.03 + 3 * i["noise"])
        m.close("loose:cost", res["cost"], b["cost"], rtol=.02, atol=20)


SCENARIOS = {"map": (scen_map, 60, 800), "limits": (scen_limits, 40, 500)}
