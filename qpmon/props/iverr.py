"""C24: IV/IB-IS uncertainties follow first-order error propagation."""
import numpy as np
from qpmon.props import ibis as B, iv as V


def line(x, y, e):
    """Weighted straight-line fit (scaled for conditioning): intercept, slope
    and their standard errors."""
    x0, y0 = np.abs(x).max(), np.abs(y).max()
    A = np.stack([np.ones_like(x), x / x0], axis=1) / (e / y0)[:, None]
    b = (y / y0) / (e / y0)
    p = np.linalg.lstsq(A, b, rcond=None)[0]
    c = np.linalg.inv(A.T @ A)
    return p[0] * y0, p[1] * y0 / x0, np.sqrt(c[0, 0]) * y0, np.sqrt(c[1, 1]) * y0 / x0


def propagate(f, x, s):
    """First-order spread of f for independent inputs x with errors s."""
    x = [np.asarray(v, float) for v in x]
    tot = 0.0
    for k, (v, e) in enumerate(zip(x, s)):
        h = 1e-6 * (np.abs(v) + np.asarray(e) * 1e-3 + 1e-300)
        up, dn = list(x), list(x)
        up[k], dn[k] = v + h, v - h
        tot = tot + ((f(*up) - f(*dn)) / (2 * h) * e) ** 2
    return np.sqrt(tot)


def slackfor(d, lines, I):
    """Relative slack for curve_fit's finite-difference covariance."""
    return 2e-3 + 4e-7 * max(I / max(abs(b), 1e-300) for b in lines)


def scen_ibis(m, rng):
    d = B.noisy(rng, B.make(rng))
    d["derr"] = d["derr"]
    d["rsh_err"] = float(d["rsh"] * rng.choice([0, 1e-5, .01, .1]))
    fitsc = bool(rng.random() < .7)
    rpe = .1 * d["rp"]
    if rng.random() < .25:                      # one error for every guess
        rpe = np.full_like(d["rp"], .1 * d["rp"].min()); rpe_in = float(rpe.flat[0])
    else:
        rpe_in = rpe
    m.note(fitsc=fitsc, shape=list(d["shape"]), rsh_err=d["rsh_err"], rsh=d["rsh"], nn=d["nn"])
    o = B.build(m, d, fitsc=fitsc, rp_guess=d["rp"], rp_err_guess=rpe_in)
    # offsets measured some other way, with their own errors
    ov = {}
    if rng.random() < .3:
        ov.update(yoff=float(d["ioff"].flat[0]), yoff_err=float(np.abs(d["i"]).max() * 10 ** rng.uniform(-4, -2)))
    if rng.random() < .3:
        ov.update(xoff=0.0 if rng.random() < .4 else float(d["xoff"].flat[0]), xoff_err=float(np.max(d["top"]) * 10 ** rng.uniform(-4, -2)))
    m.note(override=sorted(ov))
    m.call(o.analyze, **ov)
    rsh, re = d["rsh"], d["rsh_err"]
    for a in B.ATTR:
        if a.endswith("_err"):
            m.expect("shape:" + a, np.shape(getattr(o, a)) == np.shape(getattr(o, a[:-4])), a)
            m.expect("non-negative:" + a, np.all(getattr(o, a) >= 0), a)
    if m.viol:
        return
    for t in range(d["ntemps"]):
        for c in range(d["nch"]):
            g = lambda ix: (d["ibias"][t, c, list(ix)], d["dites"][t, c, list(ix)], d["derr"][t, c, list(ix)])
            bn, mn, sbn, smn = line(*g(d["normal"]))
            I = np.abs(d["dites"][t, c]).max()
            if fitsc:
                bs, ms, sbs, sms = line(*g(d["sc"]))
                sl = slackfor(d, [bn, bs], I)
                p, s = (bn, mn, bs, ms), (sbn, smn, sbs, sms)
                X = lambda bn, mn, bs, ms: (bn - bs) / (ms - mn)
                Y = lambda bn, mn, bs, ms: mn * X(bn, mn, bs, ms) + bn
                xe, ye = propagate(X, p, s), propagate(Y, p, s)
                rp_e = np.sqrt((rsh * sms / ms ** 2) ** 2 + ((1 / ms - 1) * re) ** 2)
            else:
                sl = slackfor(d, [bn], I)
                xe, ye, rp_e = 0.0, sbn, rpe[t, c]
            ye = ov.get("yoff_err", ye); xe = ov.get("xoff_err", xe)
            sl = min(sl, .3)
            rel = lambda tag, got, want: m.expect(tag, np.all(np.abs(np.asarray(got) - want) <= sl * np.abs(want)),
                                                  f"{tag}: {B_brief(got)} want {B_brief(want)} slack {sl:.2g} fitsc={fitsc}")
            rf_e = np.sqrt((rsh * smn / mn ** 2) ** 2 + (re / mn) ** 2)
            rel("rfit_err", o.rfit_err[t, c], rf_e)
            rel("rp_err", o.rp_err[t, c], rp_e)
            rel("ibias_off_err", o.ibias_off_err[t, c], xe)
            rel("ioff_err", o.ioff_err[t, c], ye)
            rel("rnorm_err", o.rnorm_err[t, c], np.hypot(rf_e, rp_e))
            de, be = d["derr"][t, c], d["xerr"][t, c]
            rel("ites_err", o.ites_err[t, c], np.hypot(de, ye))
            rel("ibias_true_err", o.ibias_true_err[t, c], np.hypot(be, xe))
            x, y = d["ibias"][t, c], d["dites"][t, c]
            xo, yo, rp = o.ibias_off[t, c], o.ioff[t, c], o.rp[t, c]
            rel("vb_err", o.vb_err[t, c], np.hypot((x - xo) * re, rsh * np.hypot(be, xe)))
            ok = np.abs(y - yo) > .02 * I
            v = (x, xo, rsh, y, yo, rp); e = (be, xe, re, de, ye, rp_e)
            R = lambda x, xo, rsh, y, yo, rp: (x - xo) * rsh / (y - yo) - rsh - rp
            P = lambda x, xo, rsh, y, yo, rp: (x - xo) * rsh * (y - yo) - (rsh + rp) * (y - yo) ** 2
            rel("r0_err", o.r0_err[t, c][ok], propagate(R, v, e)[ok])
            rel("ptes_err", o.ptes_err[t, c][ok], propagate(P, v, e)[ok])
    # scaling every input error scales every output error
    a = float(10 ** rng.uniform(-2, 1))
    d2 = dict(d); d2["derr"] = a * d["derr"]; d2["xerr"] = a * d["xerr"]; d2["rsh_err"] = a * re
    q = B.build(m, d2, fitsc=fitsc, rp_guess=d["rp"], rp_err_guess=a * rpe)
    m.call(q.analyze, **{k: v * a if k.endswith("err") else v for k, v in ov.items()})
    for k in B.ATTR:
        if k.endswith("_err"):
            u, w = np.asarray(getattr(q, k)) / a, np.asarray(getattr(o, k))
            ok = np.isfinite(u) & np.isfinite(w)
            if u.ndim == 3:
                ok &= np.abs(o.ites) > .02 * np.abs(o.ites).max(axis=-1, keepdims=True)
            m.close("linear:" + k, np.where(ok & (w > 0), u / np.where(w > 0, w, 1), 1), np.ones_like(u), atol=.03 + 2 * sl)
            m.expect("zero-stays-zero:" + k, np.all(u[w == 0] == 0))


def B_brief(x):
    return np.array2string(np.atleast_1d(np.asarray(x, float)).ravel()[:4], precision=6)


def scen_iv(m, rng):
    d = V.make(rng)
    d["dites"] = d["dites"] + d["derr"] * rng.normal(size=d["dites"].shape)
    nn = d["nn"]
    o = V.build(m, d, range(nn)); m.call(o.calc_iv)
    m.note(form=d["form"], shape=list(d["shape"]), relerr=d["relerr"])
    for a in V.ATTR:
        if a.endswith("_err"):
            m.expect("iv:shape:" + a, np.shape(getattr(o, a)) == np.shape(getattr(o, a[:-4])), a)
            m.expect("iv:non-negative:" + a, np.all(getattr(o, a) >= 0), a)
    if m.viol:
        return
    for t in range(d["T"]):
        for c in range(d["C"]):
            x, y, de, ve = d["vb"][t, c], d["dites"][t, c], d["derr"][t, c], d["verr"][t, c]
            bn, mn, sbn, smn = line(x[:nn], y[:nn], de[:nn])
            I = np.abs(y).max()
            sl = min(slackfor(d, [bn], I), .3)
            rel = lambda tag, got, want: m.expect("iv:" + tag, np.all(np.abs(np.asarray(got) - want) <= sl * np.abs(want)),
                                                  f"{tag}: {B_brief(got)} want {B_brief(want)} slack {sl:.2g} {d['form']}")
            rel("ioff_err", o.ioff_err[t, c], sbn)
            rel("rfit_err", o.rfit_err[t, c], smn / mn ** 2)
            rle = d["rl"][t, c] * d["relerr"]
            rel("rnorm_err", o.rnorm_err[t, c], np.hypot(smn / mn ** 2, rle))
            ie = np.hypot(de, sbn)
            rel("ites_err", o.ites_err[t, c], ie)
            i = y - o.ioff[t, c]; ok = np.abs(i) > .02 * np.abs(i).max()
            v = (x, i, d["rlf"][t, c]); e = (ve, ie, d["rlf"][t, c] * d["relerr"])
            rel("r0_err", o.r0_err[t, c][ok], propagate(lambda v, i, r: v / i - r, v, e)[ok])
            rel("ptes_err", o.ptes_err[t, c][ok], propagate(lambda v, i, r: v * i - r * i * i, v, e)[ok])
    a = float(10 ** rng.uniform(-2, 1))
    d2 = dict(d); d2["derr"] = a * d["derr"]; d2["verr"] = a * d["verr"]; d2["rload_err"] = d["rload_err"] * a
    q = V.build(m, d2, range(nn)); m.call(q.calc_iv)
    for k in V.ATTR:
        if k.endswith("_err"):
            u, w = np.asarray(getattr(q, k)) / a, np.asarray(getattr(o, k))
            ok = np.isfinite(u) & np.isfinite(w) & (w > 0)
            if u.ndim == 3:
                ok &= np.abs(d["i"]) > .02 * np.abs(d["i"]).max(axis=-1, keepdims=True)
            m.close("iv:linear:" + k, np.where(ok, u / np.where(w > 0, w, 1), 1), np.ones_like(u), atol=.03 + 2 * sl)


def scen_spread(m, rng):
    """The spread over repeated noisy sweeps is what is reported."""
    N = 400
    kind = str(rng.choice(["ibis", "iv"]))
    if kind == "ibis":
        d = B.make(rng, ndim=1)
        d["derr"] = d["derr"] * 0 + np.abs(d["i"]).max() * 10 ** rng.uniform(-5, -3.5)
        d["rsh_err"] = 0.0; d["xerr"] = np.zeros_like(d["xerr"])
        mk = lambda q: B.build(m, q)
        run = lambda o: m.call(o.analyze)
        keys = ["rfit", "rp", "rnorm", "ioff", "ibias_off"]
    else:
        d = V.make(rng, ndim=1)
        d["relerr"] = 0.0; d["rload_err"] = d["rload"] * 0.0
        d["verr"] = np.zeros_like(d["verr"])
        mk = lambda q: V.build(m, q, range(d["nn"]))
        run = lambda o: m.call(o.calc_iv)
        keys = ["rfit", "rnorm", "ioff"]
    m.note(kind=kind, n=d["n"], nn=d["nn"])
    vals, errs, r0, r0e = [], [], [], []
    for _ in range(N):
        q = dict(d); q["dites"] = d["dites"] + d["derr"] * rng.normal(size=d["dites"].shape)
        o = mk(q); run(o)
        vals.append([float(np.ravel(getattr(o, k))[0]) for k in keys])
        errs.append([float(np.ravel(getattr(o, k + "_err"))[0]) for k in keys])
        r0.append(o.r0[0, 0]); r0e.append(o.r0_err[0, 0])
    vals, errs = np.array(vals), np.array(errs)
    for j, k in enumerate(keys):
        ratio = vals[:, j].std() / errs[:, j].mean()
        m.expect(f"spread:{kind}:{k}", .6 < ratio < 1.25, f"{k}: spread / reported error = {ratio:.3f}")
    r0, r0e = np.array(r0), np.array(r0e)
    I = np.abs(d["i"][0, 0]); ok = I > .1 * I.max()
    used = np.zeros(d["n"], bool); used[list(range(d["nn"]))] = True
    if kind == "ibis":
        used[list(d["sc"])] = True
    tr = ok & ~used
    if tr.any():
        ratio = (r0.std(axis=0) / r0e.mean(axis=0))[tr]
        m.expect(f"spread:{kind}:r0", np.all((ratio > .15) & (ratio < 1.6)), f"{ratio}")
        m.note(ratio=[round(float(x), 2) for x in ratio])


SCENARIOS = {"ibis": (scen_ibis, 250, 3000), "iv": (scen_iv, 250, 3000), "spread": (scen_spread, 24, 240)}
