"""C15: dI/dV fits recover the circuit they were simulated from."""
import contextlib, io, warnings
import numpy as np
import qetpy as qp
from .. import didvref as R
from ..core import CodeRaised


def simulate(rng, poles, lside=None, noise=None, ntr=None, d=None):
    fs = 625e3
    sg = float(rng.choice([50, 100, 125, 200]))
    P = int(fs / sg); nper = int(rng.choice([1, 2, 3, 4]))
    if d is None:
        d = float(rng.choice([.5, .5, .3, .6, .7, .45, .2, .8, round(float(rng.uniform(.2, .8)), 3)]))
    while True:
        p = R.gen_circuit(rng, poles, lside)
        if poles == 3 and not .04 < p["gratio"] / (p["l"] - 1) < .25:
            continue            # third block too weak or too strong to start from the 2-pole shape
        y0 = R.response(P, 1, sg, 1.0, d, p)
        flat = y0[int(.5 * d * P):int(.95 * d * P)].mean()
        # the fit tells loop gains above and below one apart by the settled
        # part of the response: it must be visible
        if poles < 2 or (flat if p["l"] > 1 else -flat) > .05 * (y0.max() - y0.min()):
            break
    sgamp = float(10 ** rng.uniform(-7.5, -5.5))
    N = P * nper
    y = R.response(N, nper, sg, sgamp * p["rsh"], d, p)
    k, dt0 = int(rng.integers(-3, 4)), float(rng.choice([-1e-6, -1e-6, 0.0]))
    if rng.random() < .35:
        # a late or early drive, known to within a few samples
        k = int(rng.integers(-P // 8, P // 8)); dt0 = (k + int(rng.integers(-2, 3))) / fs
    y = np.roll(y, k)
    amp = y.max() - y.min()
    ntr = ntr or int(rng.integers(25, 60))
    noise = noise or float(10 ** rng.uniform(-3, -1.7))
    raw = y + rng.normal(size=(ntr, N)) * amp * noise + amp * float(rng.normal() * 5)
    a = dict(raw=raw, fs=fs, sgfreq=sg, sgamp=sgamp, rsh=p["rsh"], r0=p.get("r0", .3), rp=p["rp"], dutycycle=d, dt0=dt0)
    if poles == 1:
        a.pop("r0")
    return p, a, dict(shift=k, P=P, nper=nper, d=d, noise=noise, ntr=ntr, amp=amp, sg=sg)


def make(m, a, cls=qp.DIDV, **kw):
    a = dict(a, **kw)
    raw = a.pop("raw")
    fs, sg, sgamp, rsh = (a.pop(x) for x in ("fs", "sgfreq", "sgamp", "rsh"))
    return m.call(cls, raw, fs, sg, sgamp, rsh, **a)


def fit(m, D, poles, **kw):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.call(D.dofit, poles, **kw)
    return m.call(D.fitresult, poles)


def refdata(a, gain=1.0):
    return R.process(a["raw"], a["fs"], a["sgfreq"], a["sgamp"], a["rsh"], gain, a.get("dutycycle", .5))


def cost(ref, model, fcut=np.inf):
    return .5 * np.sum(R.residuals(ref, fcut, model) ** 2)


def model_of(p, dt):
    return lambda f: np.exp(-2j * np.pi * f * dt) / R.Z(f, p)


def model_raw(q):
    return lambda f: np.exp(-2j * np.pi * f * q["dt"]) / R.Zraw(f, q)


def dtdiff(a, b, T):
    return (a - b + T / 2) % T - T / 2


def judge(m, tag, res, p, a, i, ref, fcut=np.inf, dtshift=0.0):
    """Fit result `res` against the true circuit p and the data `ref`."""
    dt_true = i["shift"] / a["fs"] + dtshift
    q = res["params"]
    c = cost(ref, model_raw(q), fcut)
    m.close(tag + ":cost-is-misfit", res["cost"], c, rtol=1e-5, detail=f"{q}")
    ctrue = cost(ref, model_of(p, dt_true), fcut)
    m.expect(tag + ":not-worse-than-truth", res["cost"] <= ctrue * (1 + 1e-6) + 1e-3,
             f"cost {res['cost']} but the true circuit has {ctrue}: {q} true {R.raw_of(p)} {i}", mech=tag.split(":")[0] + ":not-worse-than-truth")
    # a good fit cannot gain much more than the number of parameters
    n = len(q)
    m.expect(tag + ":no-overfit", res["cost"] >= ctrue - 20 - 5 * n, f"{res['cost']} {ctrue}")
    # the circuit itself is recovered within its uncertainties
    e = res["errors"]
    t = R.raw_of(p)
    for k in t:
        m.expect(f"{tag}:recover:{k}", abs(q[k] - t[k]) <= 9 * e[k] + 1e-3 * abs(t[k]), f"{k} {q[k]} +- {e[k]} want {t[k]} {i}")
    T = 1 / a["sgfreq"]
    m.expect(tag + ":recover:dt", abs(dtdiff(q["dt"], dt_true, T)) <= 9 * e["dt"] + 2e-8, f"{q['dt']} want {dt_true} +- {e['dt']}")
    f = ref["freq"][ref["har"]]
    f = f[(f > 0) & (f < min(fcut, 2e4))]
    yt = 1 / R.Z(f, p)
    # 3 % of the traces' noise level after averaging, in units of the admittance
    band = (np.abs(1 / R.Zraw(f, q) - yt) / np.abs(yt)).max()
    m.expect(tag + ":admittance", band < .05 + 5 * i["noise"] * (5 if len(t) > 4 else 1), f"band deviation {band} {i}")
    s = res["smallsignalparams"]
    for k in ("rsh", "rp", "r0"):
        if k in p and len(t) > 2 or k == "rsh":
            m.close(f"{tag}:given:{k}", s[k], p[k], rtol=1e-9)
    d0t = float((1 / R.Z(0.0, p)).real)
    m.close(tag + ":didv0", res["didv0"], d0t, rtol=0.05 + 5 * i["noise"] * (5 if len(t) > 4 else 1))


def scen_fit(m, rng):
    poles = int(rng.choice([1, 2, 2, 3]))
    p, a, i = simulate(rng, poles, "hi" if poles == 3 else None)
    fcut = float(rng.choice([np.inf, np.inf, 99991.0, 50021.0]))
    m.note(poles=poles, fcut=fcut, l=p.get("l", -1), **{k: v for k, v in i.items()})
    ref = refdata(a)
    D = make(m, a)
    kw = {} if fcut == np.inf else dict(fcutoff=fcut)
    lo = None
    if rng.random() < (.6 if poles == 3 else .3):
        for o in ((1, 2), (2, 1), (2,))[int(rng.integers(3))]:
            if o < poles:
                try:
                    lo = fit(m, D, o, **kw)
                except CodeRaised as e:
                    # a 2-pole fit of a 3-pole circuit may have no curvature left
                    if not isinstance(e.exc, np.linalg.LinAlgError):
                        raise
        if poles == 3:
            m.note(after_2pole=True)
    res = fit(m, D, poles, **kw)
    two = m.call(D.fitresult, 2) if poles == 3 else None
    if two:
        # a 3-pole fit starts where the 2-pole fit ended
        t = R.raw_of(p)
        off = max(abs(np.log(max(abs(two["params"][k]), 1e-30) / abs(t[k]))) for k in ("A", "tau1", "tau2"))
        m.note(start_off=off)
        if off > np.log(5):
            return
    judge(m, f"{poles}pole", res, p, a, i, ref, fcut)
    if lo is not None and poles > 1:
        m.expect("higher-order-not-worse", res["cost"] <= lo["cost"] * (1 + 1e-4) + 1e-2, f"{res['cost']} {lo['cost']} {i}")


def scen_relations(m, rng):
    """Polarity, gain, offset, padding, trace order: same circuit."""
    poles = int(rng.choice([1, 2]))
    p, a, i = simulate(rng, poles)
    m.note(poles=poles, l=p.get("l", -1), **i)
    ref = refdata(a)
    D = make(m, a)
    base = fit(m, D, poles)
    T = 1 / a["sgfreq"]

    def like(tag, r, dtshift=0.0, tol=.2):
        for k, v in base["params"].items():
            w = r["params"][k]
            diff = abs(dtdiff(w, v + dtshift, T)) if k == "dt" else abs(w - v)
            m.expect(f"{tag}:{k}", diff <= max(tol, .3 * (tag == "flip")) * base["errors"][k] + 1e-6 * abs(v), f"{k}: {w} vs {v} +- {base['errors'][k]}")
        m.close(tag + ":cost", r["cost"], base["cost"], rtol=1e-4, atol=1e-2)

    kind = str(rng.choice(["gain", "offset", "padding", "order", "flip", "scale", "repeat", "init"]))
    if kind == "gain":
        g = float(2.0 ** rng.integers(-20, 20) * rng.choice([-1, 1]))
        like("gain", fit(m, make(m, dict(a, raw=a["raw"] * g), tracegain=g), poles))
    elif kind == "offset":
        like("offset", fit(m, make(m, dict(a, raw=a["raw"] + float(rng.normal() * i["amp"]))), poles))
    elif kind == "padding":
        x = rng.normal(size=(i["ntr"], int(rng.integers(1, i["P"])))) * i["amp"] * 3
        like("padding", fit(m, make(m, dict(a, raw=np.concatenate([a["raw"], x], axis=1))), poles))
    elif kind == "order":
        like("order", fit(m, make(m, dict(a, raw=a["raw"][rng.permutation(i["ntr"])])), poles))
    elif kind == "flip":
        # data half a period later with the half-period flag: the same circuit
        x = np.roll(a["raw"], i["P"] // 2, axis=1)
        if i["P"] % 2 == 0:
            like("flip", fit(m, make(m, dict(a, raw=x), add180phase=True), poles), dtshift=T / 2)
    elif kind == "scale":
        c = float(10 ** rng.uniform(-2, 2))
        like("drive-scale", fit(m, make(m, dict(a, raw=a["raw"] * c, sgamp=a["sgamp"] * c)), poles))
    elif kind == "repeat":
        for o in rng.permutation([1, 2, poles]):
            r = fit(m, D, int(o))
            if int(o) == poles:
                m.expect("history", all(r["params"][k] == base["params"][k] for k in base["params"])
                         and r["cost"] == base["cost"], f"{r['params']} {base['params']}")
    else:
        # the averages alone carry the whole fit
        N = ref["N"]
        mean = np.full(N, .5 - .5j); std = np.full(N, 1e20 * (1 + 1j))
        mean[ref["har"]] = ref["ymean"]; std[ref["har"]] = ref["ystd"]
        init = m.call(qp.didvinitfromdata, ref["tmean"], mean, std, ref["offset"], ref["offset_err"], a["fs"], a["sgfreq"],
                      a["sgamp"], a["rsh"], r0=a.get("r0", .3), rp=a["rp"], dt0=a["dt0"], dutycycle=i["d"])
        like("init-from-data", fit(m, init, poles))


SCENARIOS = {"fit": (scen_fit, 200, 2500), "relations": (scen_relations, 100, 1200)}
