"""C23: IV analysis recovers the circuit and normal resistance."""
import numpy as np
from qpmon.core import near
from qetpy import IV
from qpmon.props.ibis import circuit

ATTR = ("ioff", "ioff_err", "rfit", "rfit_err", "rnorm", "rnorm_err", "ites", "ites_err", "r0", "r0_err", "ptes", "ptes_err")


def make(rng, ndim=None, same_rl=None):
    nn, nt, ns = int(rng.integers(3, 9)), int(rng.integers(1, 9)), int(rng.integers(0, 5))
    ndim = ndim or int(rng.integers(1, 4))
    T, C = {1: (1, 1), 2: (1, int(rng.integers(1, 4))), 3: (int(rng.integers(1, 4)), int(rng.integers(1, 4)))}[ndim]
    rsh = float(10 ** rng.uniform(-3, -1.7)); sign = int(rng.choice([-1, 1]))
    form = same_rl or str(rng.choice(["scalar", "nch", "ntemps,nch", "full"]))
    cs = [[circuit(rng, rsh, nn, nt, ns, sign, True) for _ in range(C)] for _ in range(T)]
    rl = np.array([[rsh + c["rp"] for c in r] for r in cs])
    if form == "scalar":
        rl[:] = rl[0, 0]
    elif form == "nch":
        rl[:] = rl[0]
    n = nn + nt + ns
    g = lambda k: np.array([[c[k] for c in r] for r in cs])
    R, rn, ib = g("R"), g("rn"), g("ib")
    rlf = np.repeat(rl[..., None], n, axis=-1)
    if form == "full":
        rlf[..., nn:] *= rng.uniform(.9, 1.1, size=(T, C, nt + ns))
    vb = ib * rsh
    i = vb / (R + rlf)
    ioff = g("ioff")
    sc = np.abs(i).max(axis=-1, keepdims=True)
    d = dict(T=T, C=C, n=n, nn=nn, shape={1: (n,), 2: (C, n), 3: (T, C, n)}[ndim], R=R, rn=rn, vb=vb, i=i, ioff=ioff, rl=rl, rlf=rlf,
             form=form, dites=i + ioff[..., None], ndim=ndim, names=["a", "b", "c"][:C], sign=sign)
    inorm = np.abs(i[..., :nn]).max(axis=-1, keepdims=True)
    d["derr"] = inorm * 10 ** rng.uniform(-6, -3.5) * rng.uniform(.5, 2, size=i.shape)
    d["verr"] = np.abs(vb).max(axis=-1, keepdims=True) * 10 ** rng.uniform(-6, -3) * np.ones_like(vb) * (rng.random() < .7)
    d["rload"] = {"scalar": float(rl[0, 0]), "nch": rl[0].copy(), "ntemps,nch": rl.copy(), "full": rlf.copy()}[form]
    d["relerr"] = float(rng.choice([0, .01, .1]))
    d["rload_err"] = d["rload"] * d["relerr"]
    return d


def build(m, d, normal):
    r = lambda k: d[k].reshape(d["shape"])
    return m.call(IV, r("dites"), r("derr"), r("vb"), r("verr"), d["rload"], d["rload_err"], d["names"], normalinds=normal)


def scen_recover(m, rng):
    d = make(rng)
    inds = str(rng.choice(["auto", "range", "list", "array"]))
    nn = d["nn"]
    normal = {"auto": None, "range": range(nn), "list": list(range(nn)), "array": np.arange(nn)}[inds]
    m.note(shape=list(d["shape"]), form=d["form"], inds=inds, nn=nn, sign=d["sign"])
    keep = [d[k].copy() for k in ("dites", "derr", "vb", "verr")]
    o = build(m, d, normal)
    m.call(o.calc_iv)
    m.expect("unmodified", all(np.array_equal(a, d[k]) for a, k in zip(keep, ("dites", "derr", "vb", "verr"))))
    s3, s2 = (d["T"], d["C"], d["n"]), (d["T"], d["C"])
    for a in ATTR:
        want = s3 if a.split("_")[0] in ("ites", "r0", "ptes") else s2
        m.expect("shape:" + a, np.shape(getattr(o, a)) == want, f"{np.shape(getattr(o, a))} {want}")
        if a.endswith("_err"):
            m.expect("non-negative:" + a, np.all(getattr(o, a) >= 0))
    if m.viol:
        return
    I = np.abs(d["i"]).max(axis=-1); N = np.abs(d["i"][..., :nn]).max(axis=-1)
    tot = d["rn"] + d["rl"]
    m.close("ioff", o.ioff / N, d["ioff"] / N, rtol=1e-7, atol=1e-5, detail=inds)
    m.close("rfit", o.rfit / tot, np.ones(s2), rtol=0, atol=1e-4, detail=inds)
    m.close("rnorm", o.rnorm / tot, d["rn"] / tot, rtol=0, atol=1e-4)
    m.close("rnorm=rfit-rload", o.rnorm / tot, (o.rfit - d["rl"]) / tot, rtol=0, atol=1e-9)
    i = d["dites"] - o.ioff[..., None]
    m.close("ites", o.ites / I[..., None], i / I[..., None], rtol=0, atol=1e-9)
    R = d["vb"] / i - d["rlf"]
    sc = np.abs(d["vb"] / i) + d["rlf"]; ok = np.isfinite(sc)
    m.close("R", np.where(ok, o.r0 / sc, 0), np.where(ok, R / sc, 0), rtol=0, atol=1e-9, detail=d["form"])
    m.close("P", np.where(ok, o.ptes / (i * i * sc), 0), np.where(ok, R / sc, 0), rtol=0, atol=1e-9)
    m.close("joule", np.where(ok, o.ptes / (i * i * sc), 0), np.where(ok, o.r0 / sc, 0), rtol=0, atol=1e-9)
    big = np.abs(d["i"]) > .02 * I[..., None]
    sc = d["R"] + d["rlf"]
    m.close("true-R", np.where(big, o.r0 / sc, 0), np.where(big, d["R"] / sc, 0), rtol=0, atol=1e-3)
    m.close("true-P", np.where(big, o.ptes / (d["i"] ** 2 * sc), 0), np.where(big, d["R"] / sc, 0), rtol=0, atol=2e-3)
    m.expect("attrs", np.array_equal(o.dites, d["dites"]) and np.array_equal(o.vb, d["vb"]))
    m.close("rload", np.broadcast_to(o.rload, s3) if np.ndim(o.rload) else o.rload, d["rlf"], rtol=1e-12)
    first = {a: np.copy(getattr(o, a)) for a in ATTR}
    m.call(o.calc_iv)
    m.expect("repeatable", all(near(first[a], np.asarray(getattr(o, a)), 1e-7) for a in ATTR))


def scen_relations(m, rng):
    d = make(rng, ndim=3)
    d["dites"] = d["dites"] + d["derr"] * rng.normal(size=d["dites"].shape)
    auto = bool(rng.random() < .5)
    nn = d["nn"]; normal = None if auto else range(nn)
    o = build(m, d, normal); m.call(o.calc_iv)
    T, C, n = d["T"], d["C"], d["n"]
    m.note(T=T, C=C, n=n, auto=auto, form=d["form"])
    I = np.abs(d["i"]).max(axis=-1)
    t, c = int(rng.integers(T)), int(rng.integers(C))
    one = dict(d); one.update(T=1, C=1, shape=(n,), names=["x"])
    for k in ("dites", "derr", "vb", "verr"):
        one[k] = d[k][t:t + 1, c:c + 1]
    f = str(rng.choice(["scalar", "nch", "ntemps,nch", "full"]))
    if d["form"] == "full":
        f = "full"
    one["rload"] = {"scalar": float(d["rl"][t, c]), "nch": d["rl"][t, c:c + 1], "ntemps,nch": d["rl"][t:t + 1, c:c + 1],
                    "full": d["rlf"][t:t + 1, c:c + 1]}[f]
    one["rload_err"] = one["rload"] * d["relerr"]
    q = build(m, one, normal); m.call(q.calc_iv)
    for a in ATTR:
        m.close("alone:" + a, np.asarray(getattr(q, a))[0, 0], np.asarray(getattr(o, a))[t, c], rtol=1e-9, detail=f"{d['form']} {f}")
    # automatic normal points: same as some explicit leading range, never past the transition
    if auto:
        hit = []
        for k in range(2, n + 1):
            e = build(m, one, range(k)); m.call(e.calc_iv)
            if abs(e.rfit[0, 0] / q.rfit[0, 0] - 1) < 1e-9 and np.isclose(e.ioff[0, 0], q.ioff[0, 0], rtol=1e-9, atol=1e-9 * I[t, c]):
                hit.append(k)
        m.expect("auto-is-a-leading-range", bool(hit) and min(hit) <= nn, f"{hit} nn={nn}")
        # reduced chi2 of the normal points is what decides
        w = 1 / d["derr"][t, c, :nn]
        ks = [k for k in range(3, nn + 1) if chi(d, t, c, k) > 10]
        margin = all(abs(chi(d, t, c, k) - 10) > 1e-3 for k in range(3, nn + 1))
        if margin:
            m.expect("auto-count", (ks[0] - 1 if ks else nn) in hit, f"{hit} want {ks} nn {nn}")
    # padding
    k = int(rng.integers(1, 4))
    p = dict(d); p.update(n=n + k, shape=(T, C, n + k))
    for key in ("dites", "derr", "vb", "verr"):
        p[key] = np.concatenate([d[key], np.full((T, C, k), np.nan)], axis=-1)
    if d["form"] == "full":
        p["rload"] = np.concatenate([d["rload"], np.ones((T, C, k))], axis=-1); p["rload_err"] = p["rload"] * d["relerr"]
    q = build(m, p, normal); m.call(q.calc_iv)
    for a in ATTR:
        v = np.asarray(getattr(q, a)); v = v[..., :n] if v.ndim == 3 else v
        m.close("padding:" + a, v, getattr(o, a), rtol=1e-9)
    # polarity
    g = dict(d); g["dites"] = -d["dites"]; g["vb"] = -d["vb"]
    q = build(m, g, normal); m.call(q.calc_iv)
    for a, s in (("r0", 1), ("ptes", 1), ("rnorm", 1), ("ioff", -1), ("rfit", 1)):
        u, v = np.asarray(getattr(o, a)), s * np.asarray(getattr(q, a))
        e = np.asarray(getattr(o, a + "_err")) + 1e-12 * np.abs(u) + 1e-300
        ok = np.isfinite(u) & np.isfinite(v)
        if u.ndim == 3:
            ok &= np.abs(d["i"]) > .02 * I[..., None]
        m.close("polarity:" + a, np.where(ok, (u - v) / e, 0), np.zeros_like(u), atol=2e-2)


def chi(d, t, c, k):
    x, y, w = d["vb"][t, c, :k], d["dites"][t, c, :k], 1 / d["derr"][t, c, :k]
    s = np.abs(x).max()
    A = np.stack([np.ones(k), x / s], axis=1) * w[:, None]
    r = A @ np.linalg.lstsq(A, y * w, rcond=None)[0] - y * w
    return (r ** 2).sum() / (k - 2)


def scen_all_normal(m, rng):
    """A sweep that never leaves the normal state: nothing to stop the search."""
    d = make(rng, ndim=3)
    k = int(rng.integers(3, d["nn"] + 1))
    for key in ("dites", "derr", "vb", "verr", "i", "R", "rlf"):
        d[key] = d[key][..., :k]
    if d["form"] == "full":
        d["rload"] = d["rload"][..., :k]; d["rload_err"] = d["rload_err"][..., :k]
    if rng.random() < .5:       # shorter than the other sweeps of the set: filled up
        for key in ("dites", "derr", "vb", "verr"):
            d[key] = np.concatenate([d[key], np.full(d[key].shape[:2] + (2,), np.nan)], axis=-1)
        if d["form"] == "full":
            for key in ("rload", "rload_err"):
                d[key] = np.concatenate([d[key], d[key][..., -2:]], axis=-1)
    d.update(n=d["vb"].shape[-1], shape=d["vb"].shape)
    m.note(k=k, n=d["n"], form=d["form"])
    o = build(m, d, None); m.call(o.calc_iv)
    N = np.abs(d["i"]).max(axis=-1); tot = d["rn"] + d["rl"]
    m.close("all-normal:ioff", o.ioff / N, d["ioff"] / N, rtol=1e-7, atol=1e-4)
    m.close("all-normal:rnorm", o.rnorm / tot, d["rn"] / tot, rtol=0, atol=1e-3)


def scen_reject(m, rng):
    d = make(rng)
    m.note(shape=list(d["shape"]))
    r = lambda k: d[k].reshape(d["shape"])
    m.raises("names", ValueError, IV, r("dites"), r("derr"), r("vb"), r("verr"), d["rload"], d["rload_err"], d["names"] + ["q"])
    m.raises("rload-shape", ValueError, IV, r("dites"), r("derr"), r("vb"), r("verr"), np.ones((d["T"] + 3, d["C"] + 4)),
             np.ones((d["T"] + 3, d["C"] + 4)), d["names"])
    z = lambda k: d[k][None]
    m.raises("dims", ValueError, IV, z("dites"), z("derr"), z("vb"), z("verr"), d["rload"], d["rload_err"], d["names"])


SCENARIOS = {"recover": (scen_recover, 300, 4000), "relations": (scen_relations, 150, 2000), "reject": (scen_reject, 40, 300),
             "all_normal": (scen_all_normal, 40, 400)}
