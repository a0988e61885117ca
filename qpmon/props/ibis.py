"""C22: IB-IS analysis recovers the circuit it was simulated from."""
import os, tempfile, shutil
import numpy as np
from qpmon.core import near
from qetpy import IBIS


def circuit(rng, rsh, nn, nt, ns, sign, off):
    """True circuit of one channel at one temperature and its bias sweep,
    normal points first, superconducting points last."""
    rp = float(rsh * 10 ** rng.uniform(-1, .6))
    rn = float(rsh * 10 ** rng.uniform(.7, 2.2))
    top = float(10 ** rng.uniform(-4.5, -2.5))
    ibn = top * np.sort(rng.uniform(.6, 1, size=nn))[::-1]
    ibt = top * np.sort(rng.uniform(.15, .55, size=nt))[::-1]
    ibs = top * np.sort(rng.uniform(-.02 if rng.random() < .3 else .005, .1, size=ns))[::-1]
    if ns:
        ibs[0], ibs[-1] = .1 * top, min(ibs[-1], .03 * top)
    ibn[0], ibn[-1] = top, .6 * top
    ib = sign * np.concatenate([ibn, ibt, ibs])
    R = np.concatenate([np.full(nn, rn), rn * np.sort(rng.uniform(.05, .9, size=nt))[::-1], np.zeros(ns)])
    i = ib * rsh / (R + rsh + rp)
    ioff = float(rng.normal() * 1e-6 * 10 ** rng.uniform(-1, 1.5)) if off else 0.0
    xoff = float(rng.normal() * .02 * top) if off else 0.0
    return dict(rp=rp, rn=rn, ib=ib, R=R, i=i, ioff=ioff, xoff=xoff, rsh=rsh, top=top,
                dites=i + ioff, ibias=ib + xoff)


def make(rng, ndim=None, off=True):
    nn, nt, ns = int(rng.integers(2, 8)), int(rng.integers(0, 8)), int(rng.integers(2, 6))
    ndim = ndim or int(rng.integers(1, 4))
    ntemps, nch = {1: (1, 1), 2: (1, int(rng.integers(1, 4))), 3: (int(rng.integers(1, 4)), int(rng.integers(1, 4)))}[ndim]
    rsh = float(10 ** rng.uniform(-3, -1.7)); sign = int(rng.choice([-1, 1]))
    C = [[circuit(rng, rsh, nn, nt, ns, sign, off) for _ in range(nch)] for _ in range(ntemps)]
    g = lambda k: np.array([[c[k] for c in r] for r in C])
    d = {k: g(k) for k in ("rp", "rn", "ib", "R", "i", "ioff", "xoff", "dites", "ibias", "top")}
    n = nn + nt + ns
    d["derr"] = np.abs(d["i"]).max(axis=-1, keepdims=True) * 10 ** rng.uniform(-5, -2) * rng.uniform(.5, 2, size=(ntemps, nch, n))
    d["xerr"] = np.abs(d["top"])[..., None] * 10 ** rng.uniform(-6, -3) * np.ones((ntemps, nch, n)) * (rng.random() < .7)
    shp = {1: (n,), 2: (nch, n), 3: (ntemps, nch, n)}[ndim]
    d.update(rsh=rsh, rsh_err=float(rsh * rng.choice([0, .01, .1])), normal=range(0, nn), sc=range(nn + nt, n),
             shape=shp, ntemps=ntemps, nch=nch, n=n, nn=nn, names=["a", "b", "c"][:nch], sign=sign, ndim=ndim)
    return d


def build(m, d, fitsc=True, **kw):
    r = lambda k: d[k].reshape(d["shape"])
    inds = str(kw.pop("inds", "range"))
    conv = {"range": lambda x: x, "list": list, "array": lambda x: np.array(list(x))}[inds]
    return m.call(IBIS, r("dites"), r("derr"), r("ibias"), r("xerr"), d["rsh"], d["rsh_err"], conv(d["normal"]),
                  chan_names=d["names"], fitsc=fitsc, scinds=conv(d["sc"]) if fitsc else None, **kw)


ATTR = ("r0", "r0_err", "ptes", "ptes_err", "ites", "ites_err", "ibias_true", "ibias_true_err", "vb", "vb_err", "rnorm",
        "rnorm_err", "rp", "rp_err", "rfit", "rfit_err", "ioff", "ioff_err", "ibias_off", "ibias_off_err")


def judge(m, o, d, ioff, xoff, rp, tag, tol=1e-6, normal=True):
    """The outputs obey the bias circuit with the given offsets and rp."""
    s3 = (d["ntemps"], d["nch"], d["n"]); s2 = s3[:2]
    for a in ATTR:
        v = getattr(o, a)
        want = s3 if a[:4] in ("r0", "r0_e", "ptes", "ites", "vb", "vb_e") or a.startswith("ibias_true") else s2
        m.expect(f"{tag}:shape:{a}", np.shape(v) == want, f"{a}: {np.shape(v)} want {want}")
    if m.viol:
        return False
    I = np.abs(d["i"]).max(axis=-1); X = d["top"]
    m.close(f"{tag}:ioff", o.ioff / I, ioff / I, rtol=0, atol=tol * (1 + np.abs(d["ioff"] / I).max()))
    m.close(f"{tag}:ibias_off", o.ibias_off / X, xoff / X, rtol=0, atol=tol * 10)
    m.close(f"{tag}:rp", o.rp / d["rsh"], rp / d["rsh"], rtol=tol * 100, atol=tol * 10)
    i = d["dites"] - np.asarray(o.ioff)[..., None]; x = d["ibias"] - np.asarray(o.ibias_off)[..., None]
    m.close(f"{tag}:ites", o.ites / I[..., None], i / I[..., None], rtol=0, atol=1e-9)
    m.close(f"{tag}:ibias_true", o.ibias_true / X[..., None], x / X[..., None], rtol=0, atol=1e-9)
    m.close(f"{tag}:vb", o.vb / X[..., None] / d["rsh"], x / X[..., None], rtol=0, atol=1e-9)
    # consistency at every bias point: V = I (R + Rsh + Rp), P = I^2 R
    v = x * d["rsh"]
    R = v / i - d["rsh"] - np.asarray(o.rp)[..., None]
    ok = np.isfinite(R)
    sc = np.abs(v / i) + d["rsh"] + np.asarray(o.rp)[..., None]
    m.close(f"{tag}:R", np.where(ok, o.r0 / sc, 0), np.where(ok, R / sc, 0), rtol=0, atol=1e-9)
    p = i ** 2 * R; ps = i ** 2 * sc
    m.close(f"{tag}:P", np.where(ok, o.ptes / ps, 0), np.where(ok, p / ps, 0), rtol=0, atol=1e-9)
    return True


def scen_recover(m, rng):
    d = make(rng)
    m.note(ndim=d["ndim"], shape=list(d["shape"]), nn=d["nn"], n=d["n"], sign=d["sign"], rsh=d["rsh"])
    o = build(m, d, inds=rng.choice(["range", "list", "array"]))
    keep = [d[k].copy() for k in ("dites", "derr", "ibias", "xerr")]
    m.call(o.analyze)
    m.expect("unmodified", all(np.array_equal(a, d[k]) for a, k in zip(keep, ("dites", "derr", "ibias", "xerr"))))
    if not judge(m, o, d, d["ioff"], d["xoff"], d["rp"], "sc"):
        return
    m.close("rnorm", o.rnorm / d["rn"], np.ones_like(d["rn"]), rtol=0, atol=1e-4, detail=f"{o.rnorm} {d['rn']}")
    m.close("rfit", o.rfit / (d["rn"] + d["rp"] + d["rsh"]), np.ones_like(d["rn"]), rtol=0, atol=1e-4)
    # the simulated TES at every point
    i, R = d["i"], d["R"]
    big = np.abs(i) > .02 * np.abs(i).max(axis=-1, keepdims=True)
    sc = R + d["rsh"] + d["rp"][..., None]
    m.close("true-R", np.where(big, o.r0 / sc, 0), np.where(big, R / sc, 0), rtol=0, atol=1e-3)
    ps = i ** 2 * sc
    m.close("true-P", np.where(big, o.ptes / ps, 0), np.where(big, i ** 2 * R / ps, 0), rtol=0, atol=2e-3)
    for a in ATTR:
        if a.endswith("_err"):
            m.expect("err-non-negative:" + a, np.all(getattr(o, a) >= 0))
    first = {a: np.copy(getattr(o, a)) for a in ATTR}
    m.call(o.analyze)
    m.expect("repeatable", all(near(first[a], np.asarray(getattr(o, a)), 1e-7) for a in ATTR))


def scen_guess(m, rng):
    """Superconducting fit off: the given parasitic resistance is used."""
    d = make(rng)
    d["xoff"] = np.zeros_like(d["xoff"]); d["ibias"] = d["ib"].copy()
    T, C, n = d["ntemps"], d["nch"], d["n"]
    form = str(rng.choice(["scalar", "default", "nch", "ntemps,nch", "full", "full-varying"]))
    if form == "scalar":
        g = float(d["rp"][0, 0]); true = np.full((T, C), g)
    elif form == "default":
        g = None; true = np.full((T, C), 5e-3)
    elif form == "nch":
        g = d["rp"][0].copy(); true = np.tile(g, (T, 1))
    elif form == "ntemps,nch":
        g = d["rp"].copy(); true = g
    else:
        g = np.repeat(d["rp"][..., None], n, axis=-1); true = d["rp"]
        if form == "full-varying":
            g = g * rng.uniform(.8, 1.2, size=g.shape)
            true = g[..., 0]
    err = None if form == "default" or rng.random() < .3 else (float(g * .1) if form == "scalar" else .1 * g)
    m.note(form=form, err=err is not None, shape=list(d["shape"]))
    kw = {} if g is None else dict(rp_guess=g)
    if err is not None:
        kw["rp_err_guess"] = err
    o = build(m, d, fitsc=False, **kw)
    m.call(o.analyze)
    I = np.abs(d["i"]).max(axis=-1)
    m.close("given-rp", o.rp, true, rtol=1e-12)
    e = .1 * true if err is not None else np.zeros_like(true)
    m.close("given-rp-err", o.rp_err, e, rtol=1e-12)
    if form != "full-varying":
        if not judge(m, o, d, d["ioff"], np.zeros((T, C)), true, "guess"):
            return
    else:
        i = d["dites"] - o.ioff[..., None]
        R = d["ib"] * d["rsh"] / i - d["rsh"] - g
        sc = np.abs(R) + d["rsh"] + g
        m.close("rp-per-point", o.r0 / sc, R / sc, rtol=0, atol=1e-9)
        m.close("rp-per-point:P", o.ptes / (i ** 2 * sc), i ** 2 * R / (i ** 2 * sc), rtol=0, atol=1e-9)
    # curve_fit takes its derivatives with steps relative to the (possibly tiny) intercept
    le = line_err(d); slack = 1e-3 + 2e-7 * I / np.abs(d["ioff"])
    m.expect("ioff-err", np.all(np.abs(o.ioff_err / le - 1) <= slack), f"{o.ioff_err} want {le} slack {slack}")
    m.close("ibias-off-err", o.ibias_off_err, np.zeros((T, C)), atol=0)
    m.close("rnorm", o.rnorm / d["rn"], (d["rn"] + d["rp"] - true) / d["rn"], rtol=0, atol=1e-4 * (1 + (np.abs(true) / d["rn"]).max()))
    if T * C > 1 and form == "full":
        r = lambda k: d[k].reshape(d["shape"])
        m.raises("bad-rp-shape", ValueError, IBIS, r("dites"), r("derr"), r("ibias"), r("xerr"), d["rsh"], d["rsh_err"],
                 d["normal"], chan_names=d["names"], rp_guess=np.ones((T + 1, C + 2)))


def line_err(d, which="normal"):
    """Standard error of the intercept of the weighted line through the points."""
    out = np.zeros((d["ntemps"], d["nch"]))
    ix = list(d[which])
    for t in range(d["ntemps"]):
        for c in range(d["nch"]):
            w = 1 / d["derr"][t, c, ix] ** 2; x = d["ibias"][t, c, ix]
            S, Sx, Sxx = w.sum(), (w * x).sum(), (w * x * x).sum()
            out[t, c] = np.sqrt(Sxx / (S * Sxx - Sx ** 2))
    return out


def scen_offsets(m, rng):
    """Offsets given by the user replace the fitted ones."""
    d = make(rng)
    fitsc = bool(rng.random() < .6)
    T, C = d["ntemps"], d["nch"]
    which = str(rng.choice(["both", "y", "x"]))
    arr = bool(rng.random() < .4)
    ye, xe = float(10 ** rng.uniform(-9, -7)), float(10 ** rng.uniform(-9, -7))
    y = rng.normal(size=(T, C, 1)) * 1e-6; x = rng.normal(size=(T, C, 1)) * .01 * d["top"].min()
    if not arr:
        y, x = float(y.flat[0]), float(x.flat[0])
    m.note(which=which, fitsc=fitsc, arr=arr, shape=list(d["shape"]))
    kw = {}
    if which in ("both", "y"):
        kw.update(yoff=y, yoff_err=np.full((T, C, 1), ye) if arr else ye)
    if which in ("both", "x"):
        kw.update(xoff=x, xoff_err=np.full((T, C, 1), xe) if arr else xe)
    o = build(m, d, fitsc=fitsc, rp_guess=d["rp"])
    m.call(o.analyze, **kw)
    r = build(m, d, fitsc=fitsc, rp_guess=d["rp"])
    m.call(r.analyze)
    wy = np.broadcast_to(np.squeeze(y, -1) if arr else y, (T, C)) if "yoff" in kw else r.ioff
    wx = np.broadcast_to(np.squeeze(x, -1) if arr else x, (T, C)) if "xoff" in kw else r.ibias_off
    m.close("yoff", o.ioff, wy, rtol=1e-12)
    m.close("xoff", o.ibias_off, wx, rtol=1e-12)
    m.close("yoff-err", o.ioff_err, np.full((T, C), ye) if "yoff" in kw else r.ioff_err, rtol=1e-12)
    m.close("xoff-err", o.ibias_off_err, np.full((T, C), xe) if "xoff" in kw else r.ibias_off_err, rtol=1e-12)
    judge(m, o, d, np.asarray(wy), np.asarray(wx), r.rp, "given", tol=1e-7)
    m.close("fits-unchanged", o.rfit, r.rfit, rtol=1e-12)
    m.close("fits-unchanged:rp", o.rp, r.rp, rtol=1e-12)
    m.close("fits-unchanged:rnorm", o.rnorm, r.rnorm, rtol=1e-12)
    # the offsets of one analysis are not those of the next
    m.call(o.analyze)
    for k in ("ioff", "ioff_err", "ibias_off", "ibias_off_err", "rp", "rnorm", "r0", "r0_err", "ptes", "ptes_err", "ites", "vb"):
        m.close("next-analysis:" + k, getattr(o, k), getattr(r, k), rtol=1e-9)


def noisy(rng, d):
    d["dites"] = d["dites"] + d["derr"] * rng.normal(size=d["dites"].shape)
    return d


def scen_relations(m, rng):
    d = noisy(rng, make(rng, ndim=3))
    o = build(m, d); m.call(o.analyze)
    T, C, n = d["ntemps"], d["nch"], d["n"]
    m.note(T=T, C=C, n=n, nn=d["nn"])
    # one channel, one temperature on its own
    t, c = int(rng.integers(T)), int(rng.integers(C))
    one = dict(d); one.update(ntemps=1, nch=1, shape=(n,), names=["x"])
    for k in ("dites", "derr", "ibias", "xerr"):
        one[k] = d[k][t:t + 1, c:c + 1]
    q = build(m, one); m.call(q.analyze)
    for a in ATTR:
        u, v = np.asarray(getattr(o, a))[t, c], np.asarray(getattr(q, a))[0, 0]
        m.close("alone:" + a, u, v, rtol=1e-9, atol=0)
    # bias order
    p = rng.permutation(n); inv = np.argsort(p)
    d2 = dict(d)
    for k in ("dites", "derr", "ibias", "xerr"):
        d2[k] = d[k][..., p]
    d2["normal"] = [int(inv[j]) for j in d["normal"]]; d2["sc"] = [int(inv[j]) for j in d["sc"]]
    q = build(m, d2); m.call(q.analyze)
    for a in ATTR:
        u, v = np.asarray(getattr(o, a)), np.asarray(getattr(q, a))
        if u.ndim == 3:
            v = v[..., inv]
        ok = np.isfinite(u) & np.isfinite(v)
        # singular points (current crossing zero) are ill conditioned
        if u.ndim == 3:
            ok &= np.abs(o.ites) > .02 * np.abs(o.ites).max(axis=-1, keepdims=True)
        e = getattr(o, a + "_err", None)
        s = np.abs(np.where(ok, u, 0)).max(axis=-1, keepdims=True) + 0 * u
        if e is not None and np.shape(e) == u.shape:
            s = s + np.nan_to_num(np.asarray(e))
        m.close("bias-order:" + a, np.where(ok, u / s, 0), np.where(ok, v / s, 0), rtol=0, atol=1e-4)
    # padding with nan at the end
    k = int(rng.integers(1, 4))
    d3 = dict(d); d3.update(n=n + k, shape=(T, C, n + k))
    for key in ("dites", "derr", "ibias", "xerr"):
        d3[key] = np.concatenate([d[key], np.full((T, C, k), np.nan)], axis=-1)
    q = build(m, d3); m.call(q.analyze)
    for a in ATTR:
        u, v = np.asarray(getattr(o, a)), np.asarray(getattr(q, a))
        if u.ndim == 3:
            m.expect("padding:nan", np.all(np.isnan(v[..., n:])), a)
            v = v[..., :n]
        m.close("padding:" + a, v, u, rtol=1e-9)
    # flipping the readout and bias polarity
    d4 = dict(d); d4["dites"] = -d["dites"]; d4["ibias"] = -d["ibias"]
    q = build(m, d4); m.call(q.analyze)
    for a, s in (("r0", 1), ("ptes", 1), ("rnorm", 1), ("rp", 1), ("ioff", -1), ("ibias_off", -1), ("r0_err", 1), ("ptes_err", 1)):
        u, v = np.asarray(getattr(o, a)), s * np.asarray(getattr(q, a))
        e = np.abs(getattr(o, a + "_err")) if hasattr(o, a + "_err") else np.abs(u)
        ok = np.isfinite(u) & np.isfinite(v)
        if u.ndim == 3:
            ok &= np.abs(o.ites) > .02 * np.abs(o.ites).max(axis=-1, keepdims=True)
        m.close("polarity:" + a, np.where(ok, (u - v) / (e + 1e-12 * np.abs(u) + 1e-300), 0), np.zeros_like(u), atol=2e-2)


def scen_reject(m, rng):
    d = make(rng)
    m.note(shape=list(d["shape"]))
    r = lambda k: d[k].reshape(d["shape"])
    a = (r("dites"), r("derr"), r("ibias"), r("xerr"), d["rsh"], d["rsh_err"], d["normal"])
    m.raises("sc-needs-inds", ValueError, IBIS, *a, chan_names=d["names"], fitsc=True)
    m.raises("names", ValueError, IBIS, *a, chan_names=d["names"] + ["z"])
    b = tuple(np.asarray(v)[None, None, None] if isinstance(v, np.ndarray) else v for v in a)
    m.raises("dims", ValueError, IBIS, *b, chan_names=d["names"])
    # missing data in the superconducting range is reported, not fitted
    c = list(a); c[0] = a[0].copy()
    c[0].reshape(-1, d["shape"][-1])[int(rng.integers(a[0].size // d["shape"][-1])), 1] = np.nan
    o = IBIS(*c, chan_names=d["names"], fitsc=True, scinds=range(0, 3))
    m.raises("nan-in-sc-data", ValueError, o.analyze)


def scen_plots(m, rng):
    from qetpy import IV
    tmp = tempfile.mkdtemp(prefix="qpmon-")
    try:
        d = noisy(rng, make(rng))
        iv = bool(rng.random() < .5)
        if iv:
            r = lambda k: d[k].reshape(d["shape"])
            o = m.call(IV, r("dites"), r("derr"), r("ibias") * d["rsh"], r("xerr") * d["rsh"], d["rsh"] * 1.5, 0.0, d["names"], normalinds=d["normal"])
            m.call(o.calc_iv)
        else:
            o = build(m, d); m.call(o.analyze)
        before = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in vars(o).items()}
        for which, pre in (("plot_iv", "iv"), ("plot_rv", "rv"), ("plot_pv", "pv")):
            t = ["all", 0, list(range(d["ntemps"])), np.arange(d["ntemps"])][int(rng.integers(4))]
            c = ["all", 0, list(range(d["nch"])), np.arange(d["nch"])][int(rng.integers(4))]
            save = bool(rng.random() < .5)
            had = set(os.listdir(tmp))
            kw = dict(lgcsave=True, savepath=tmp + "/", savename=which) if save else {}
            f = m.call(getattr(o, which), temps=t, chans=c, **kw)
            new = set(os.listdir(tmp)) - had
            m.expect("saves", new == ({f"{pre}_curve_{which}.png"} if save else set()), f"{which} {new}")
            m.expect("returns-figure", f is not None and len(f) == 2)
        m.note(iv=iv, shape=list(d["shape"]))
        m.call(o.plot_all_curves, lgcsave=True, savepath=tmp + "/", savename="all")
        m.expect("saves-all", {f"{p}_curve_all.png" for p in ("iv", "rv", "pv")} <= set(os.listdir(tmp)))
        m.expect("plot-pure", set(before) == set(vars(o)) and all(
            (np.array_equal(before[k], v, equal_nan=True) if isinstance(v, np.ndarray) else before[k] is v or before[k] == v) for k, v in vars(o).items()))
    finally:
        shutil.rmtree(tmp)


SCENARIOS = {"recover": (scen_recover, 300, 4000), "guess": (scen_guess, 250, 3000), "offsets": (scen_offsets, 200, 2500),
             "relations": (scen_relations, 150, 2000), "reject": (scen_reject, 40, 300), "plots": (scen_plots, 8, 60)}
