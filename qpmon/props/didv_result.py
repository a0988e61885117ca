"""C16: dI/dV fit results are internally consistent."""
import warnings
import numpy as np
import qetpy as qp
from .. import didvref as R
from . import didv_fit as F

RAW = {1: ["A", "tau2"], 2: ["A", "B", "tau1", "tau2"], 3: ["A", "B", "C", "tau1", "tau2", "tau3"]}
SSP = {1: ["rsh", "rp", "L"], 2: ["rsh", "rp", "r0", "beta", "l", "L", "tau0"],
       3: ["rsh", "rp", "r0", "beta", "l", "L", "tau0", "gratio", "tau3"]}


def roots_ok(m, tag, ft, p, count):
    """The fall times are exactly the decay times of the response: minus the
    inverse zeros of the impedance in the Laplace variable."""
    ft = np.asarray(ft)
    m.expect(tag + ":count", ft.shape == (count,), f"{ft}")
    for t in ft:
        s = -1 / t
        f = s / (2j * np.pi)
        inner = 1 + s * p["tau0"] / (1 - p["l"]) if count > 1 else 1
        sc = R.Zscale(np.abs(f), p) if count == 1 else abs(s * p["L"]) + p["rsh"] + abs(p["rp"]) + abs(
            p["r0"] * (1 + p["beta"])) + abs((R.Z(f, p) - p["rsh"] - p["rp"] - s * p["L"] - p["r0"] * (1 + p["beta"])))
        if count > 1:
            # conditioning of the last term next to its own pole
            sc = sc * max(1, abs(1 / inner) if count == 2 else 1 / max(abs(inner - p["gratio"] / (1 - p["l"]) / (1 + s * p["tau3"])), 1e-3))
        m.close(tag + ":zero-of-impedance", abs(R.Z(f, p)) / sc, 0.0, atol=1e-5, detail=f"falltime {t} of {p}")
    if len(ft) > 1:
        re = ft.real
        m.expect(tag + ":sorted", np.all(np.diff(re) >= -1e-12 * np.max(np.abs(re))), f"{ft}")
        if not np.iscomplexobj(ft) or np.all(np.abs(ft.imag) < 1e-14):
            gaps = np.abs(np.diff(np.sort(1 / ft.real)))
            m.expect(tag + ":sum", True)
    # their product and sum against the polynomial coefficients (no root lost or doubled)
    if count == 2:
        q = R.raw_of(p); k = q["A"] / (q["A"] + q["B"])
        m.close(tag + ":sum-of-roots", np.sum(ft), k * (q["tau1"] + q["tau2"]), rtol=1e-6, atol=1e-9 * np.abs(ft).max())
        m.close(tag + ":product-of-roots", np.prod(ft) / (k * q["tau1"] * q["tau2"]), 1.0, rtol=1e-5)
    if count == 3:
        q = R.raw_of(p)
        den = q["A"] * (1 - q["C"]) + q["B"]
        m.close(tag + ":product-of-roots", np.prod(ft) / (q["tau1"] * q["tau2"] * q["tau3"] * q["A"] / den), 1.0, rtol=1e-4)
        m.close(tag + ":sum-of-roots", np.sum(ft), (q["A"] * q["tau1"] + q["A"] * (1 - q["C"]) * q["tau2"] + (q["A"] + q["B"]) * q["tau3"]) / den,
                rtol=1e-6, atol=1e-9 * np.abs(ft).max())


def judge(m, res, poles, a, ref, fcut):
    q, s = res["params"], res["smallsignalparams"]
    t = f"{poles}pole"
    m.expect(t + ":keys", list(q) == RAW[poles] + ["dt"] and list(s) == SSP[poles] + ["dt"] and list(res["errors"]) == list(q),
             f"{list(q)} {list(s)} {list(res['errors'])}")
    vals = list(q.values()) + list(s.values())
    if not m.expect(t + ":finite", np.all(np.isfinite(vals)), f"{q} {s}"):
        return
    f = np.concatenate([[0.0], 10 ** np.linspace(0, 6, 25), -10 ** np.linspace(1, 5, 5)])
    zr = R.Zraw(f, q)
    zs = R.Z(f, s)
    y = 1 / zr
    sc = R.Zscale(f, s)
    m.close(t + ":same-admittance", (zs - zr) / sc, np.zeros(len(f)), atol=1e-8, detail=f"{q} {s}")
    m.close(t + ":same-admittance:qetpy", m.call(qp.complexadmittance, f, **s) * zr, np.ones(len(f)), atol=1e-7 * np.max(sc / np.abs(zr)))
    m.expect(t + ":dt", s["dt"] == q["dt"])
    m.close(t + ":rsh", s["rsh"], a["rsh"], rtol=1e-12)
    if poles > 1:
        m.close(t + ":rp", s["rp"], a["rp"], rtol=1e-12)
        m.close(t + ":r0", s["r0"], a["r0"], rtol=1e-12)
    m.close(t + ":didv0", res["didv0"], y[0].real, rtol=1e-8 * max(1, (sc / np.abs(zr))[0]))
    cov = np.asarray(res["cov"])
    n = len(q)
    m.expect(t + ":cov-shape", cov.shape == (n, n))
    d = np.diag(cov)
    m.close(t + ":errors", np.array(list(res["errors"].values())), np.sqrt(d), rtol=1e-9)
    for i, k in enumerate(q):
        m.close(t + ":errors-each", res["errors"][k], np.sqrt(d[i]), rtol=1e-9)
    e = np.sqrt(np.abs(d))
    m.expect(t + ":cov-symmetric", np.all(np.abs(cov - cov.T) <= 1e-4 * np.outer(e, e)))
    roots_ok(m, t + ":falltimes", res["falltimes"], s, poles)
    return q


def curvature(m, tag, res, ref, fcut):
    """Covariance = inverse of the curvature of the cost at the optimum."""
    q = res["params"]
    names = list(q); x0 = np.array([q[k] for k in names]); e = np.array([res["errors"][k] for k in names])
    if not np.all(np.isfinite(e)) or np.any(e <= 0):
        m.expect(tag + ":errors-positive", False, f"{res['errors']}"); return
    if np.any((np.abs(x0) < 5 * e)[:-1]):
        return                              # a parameter at its bound
    def r(u):
        return R.residuals(ref, fcut, F.model_raw(dict(zip(names, x0 + u * e))))
    J = np.stack([(r(h) - r(-h)) / .02 for h in np.eye(len(x0)) * .01], axis=1)
    C = np.linalg.inv(J.T @ J)
    s = 1 / np.sqrt(np.diag(C))
    got = np.asarray(res["cov"]) / np.outer(e, e)
    m.close(tag + ":covariance", got, C * np.outer(s, s), rtol=0, atol=.15, detail="correlations")
    m.close(tag + ":errors-curvature", s, np.ones(len(s)), rtol=.25)


def scen_result(m, rng):
    poles = int(rng.choice([1, 2, 2, 3]))
    p, a, i = F.simulate(rng, poles, "hi" if poles == 3 else None)
    # any assumed circuit resistances, not only the true ones
    if rng.random() < .5:
        a["rp"] = a["rp"] * float(rng.uniform(.8, 1.2))
        if "r0" in a:
            a["r0"] = a["r0"] * float(rng.uniform(.9, 1.1))
    a.setdefault("r0", .3)
    fcut = float(rng.choice([np.inf, 99991.0]))
    kw = {} if fcut == np.inf else dict(fcutoff=fcut)
    m.note(poles=poles, fcut=fcut, **i)
    ref = F.refdata(a)
    D = F.make(m, a)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.expect("nothing-yet", all(not m.call(D.fitresult, k) for k in (1, 2, 3)))
    res = F.fit(m, D, poles, **kw)
    judge(m, res, poles, a, ref, fcut)
    curvature(m, f"{poles}pole", res, ref, fcut)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        for o in (1, 2, 3):
            if o != poles:
                r = m.call(D.fitresult, o)
                m.expect("unfitted-is-empty", isinstance(r, dict) and len(r) == 0, f"{o}: {r}")
    m.expect("unfitted-warns", len(w) >= 2)
    m.raises("bad-order", ValueError, D.dofit, 4)
    m.raises("bad-order", ValueError, D.dofit, 0)
    # another order does not disturb this one
    other = 1 if poles != 1 else 2
    snap = (dict(res["params"]), res["cost"], np.array(res["cov"]))
    r2 = F.fit(m, D, other)
    if other == 1:
        judge(m, r2, other, a, ref, np.inf)
        # the errors describe the cost even where the model does not describe the data
        curvature(m, "1pole-misfit", r2, ref, np.inf)
    r1 = m.call(D.fitresult, poles)
    m.expect("kept", r1["params"] == snap[0] and r1["cost"] == snap[1] and np.array_equal(r1["cov"], snap[2]))


def scen_falltimes(m, rng):
    """Fall times of arbitrary circuits, through noiseless-like fits being too
    slow: the conversion itself on every kind of circuit."""
    from qetpy import DIDV as B
    if not all(hasattr(B, k) for k in ("_findpolefalltimes", "_convertfromtesvalues", "_converttotesvalues")):
        m.calls["helpers-moved"] = 1        # the helpers are internal; the fits are judged elsewhere
        return m.expect("helpers-moved", True)
    poles = int(rng.integers(1, 4))
    p = dict(rsh=10 ** rng.uniform(-3, -1.5), rp=10 ** rng.uniform(-3, -1.5), L=10 ** rng.uniform(-7.5, -5))
    if poles > 1:
        p.update(r0=10 ** rng.uniform(-2, 0), beta=rng.uniform(0, 4), l=rng.choice([rng.uniform(.05, .95), rng.uniform(1.05, 40)]),
                 tau0=10 ** rng.uniform(-4.5, -2))
    if poles > 2:
        p.update(gratio=rng.uniform(.02, .9), tau3=10 ** rng.uniform(-4.5, -2))
    p = {k: float(v) for k, v in p.items()}
    m.note(poles=poles, **p)
    q = R.raw_of(p)
    tup = tuple(q[k] for k in RAW[poles]) + (1e-6,)
    ft = m.call(B._findpolefalltimes, tup)
    k = q["A"] + q.get("B", 0) if poles < 3 else q["A"] * (1 - q["C"]) + q["B"]
    if poles > 1 and abs(k) < 1e-3 * q["A"]:
        return
    roots_ok(m, f"{poles}pole:falltimes", ft, p, poles)
    full = tuple(p[n] for n in SSP[poles]) + (1e-6,)
    x = m.call(B._convertfromtesvalues, full)
    m.close("to-raw", x, np.array(tup) , rtol=0, atol=1e-12 * max(abs(v) for v in tup))
    for g, w in zip(x, tup):
        m.close("to-raw-each", g, w, rtol=1e-12)
    y = m.call(B._converttotesvalues, tup, p["rsh"], p.get("r0", .3), p["rp"])
    for g, w in zip(y, full):
        m.close("round-trip", g, w, rtol=1e-8 * (1 + abs(1 / (1 - p.get("l", 0))) * 10 + p.get("l", 0)**2), detail=f"{p}")


SCENARIOS = {"result": (scen_result, 120, 1500), "falltimes": (scen_falltimes, 800, 10000)}
