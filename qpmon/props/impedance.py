"""C13: impedance and admittance models equal the small-signal theory."""
import numpy as np
from qpmon.core import near
import qetpy as qp
from .. import didvref as R

NAMES = ["rsh", "rp", "r0", "beta", "l", "L", "tau0", "gratio", "tau3"]


def gen(rng, poles):
    p = dict(rsh=10 ** rng.uniform(-4, 0), rp=10 ** rng.uniform(-4, 0) if rng.random() < .9 else 0.0,
             L=10 ** rng.uniform(-9, -4) if rng.random() < .95 else 0.0)
    if poles >= 2:
        l = rng.choice([rng.uniform(0, .99), 10 ** rng.uniform(.01, 2), 0.0, 1 + 10 ** rng.uniform(-4, -1)],
                       p=[.4, .4, .1, .1])
        p.update(r0=10 ** rng.uniform(-4, 0), beta=rng.choice([0.0, 10 ** rng.uniform(-2, 1.5)]), l=l,
                 tau0=10 ** rng.uniform(-6, -1))
    if poles == 3:
        p.update(gratio=rng.choice([0.0, 10 ** rng.uniform(-3, 1)], p=[.1, .9]), tau3=10 ** rng.uniform(-6, -1))
    return {k: (float(v) if v != int(v) or rng.random() < .7 else int(v)) for k, v in p.items()}


def gen_f(rng):
    kind = rng.choice(["scalar", "zero", "int", "grid", "log", "fft", "2d"])
    if kind == "scalar":
        f = float(10 ** rng.uniform(-1, 6) * rng.choice([-1, 1]))
    elif kind == "zero":
        f = 0
    elif kind == "int":
        f = int(rng.integers(-100000, 100000))
    elif kind == "grid":
        f = np.linspace(-10 ** rng.uniform(1, 6), 10 ** rng.uniform(1, 6), int(rng.integers(1, 50)))
    elif kind == "log":
        f = 10 ** rng.uniform(-2, 7, size=int(rng.integers(1, 40)))
    elif kind == "2d":
        f = 10 ** rng.uniform(-2, 7, size=(2, 3))
    else:
        f = np.fft.fftfreq(int(rng.integers(2, 60)), 10 ** rng.uniform(-7, -3))
    return kind, f


def close(m, tag, got, want, scale, **kw):
    """Element-wise comparison relative to the rounding scale of each value."""
    g, w = np.asarray(got), np.asarray(want)
    if not m.expect(tag + ":shape", g.shape == w.shape, f"{g.shape} {w.shape}"):
        return
    m.close(tag, g / scale, w / scale, rtol=0, atol=1e-9, **kw)


def guard(f, p):
    """Distance from the poles of the last term, as a conditioning number."""
    s = 2j * np.pi * np.asarray(f)
    if R.poles_of(p) < 2:
        return 1.0
    inner = 1 + s * p["tau0"] / (1 - p["l"])
    mag = 1 + np.abs(s * p["tau0"] / (1 - p["l"]))
    if R.poles_of(p) == 3:
        q = p["gratio"] / (1 - p["l"]) / (1 + s * p["tau3"])
        inner, mag = inner - q, mag + np.abs(q)
    return np.maximum(1.0, mag / np.abs(inner)) ** 2


def scen_values(m, rng):
    poles = int(rng.integers(1, 4))
    p = gen(rng, poles)
    kind, f = gen_f(rng)
    m.note(poles=poles, fkind=kind, **{k: float(v) for k, v in p.items()})
    sc = R.Zscale(f, p) * guard(f, p)
    z = m.call(qp.compleximpedance, f, **p)
    want = R.Z(f, p)
    close(m, "impedance", z, want, sc, detail=p)
    y = m.call(qp.complexadmittance, f, **p)
    m.close("reciprocal", np.asarray(y) * np.asarray(z), np.ones_like(want), rtol=1e-12)
    zm = m.call(qp.compleximpedance, -f, **p)
    close(m, "conjugate", zm, np.conj(z), sc)
    # unrelated keywords (a fit result's dt, ...) are ignored, order is irrelevant
    q = dict(reversed(list(p.items())))
    q.update(dt=1e-5, junk="x")
    m.expect("extra-ignored", near(m.call(qp.compleximpedance, f, **q), z, 1e-12))
    m.expect("extra-ignored-adm", near(m.call(qp.complexadmittance, f, **q), y, 1e-12))
    # scalar and array evaluation agree
    if np.ndim(f) == 1:
        i = int(rng.integers(len(f)))
        close(m, "pointwise", m.call(qp.compleximpedance, float(f[i]), **p), want[i], (sc * np.ones(len(f)))[i])
    # scaling all resistances and the inductance scales the impedance
    c = float(10 ** rng.uniform(-2, 2))
    p2 = {k: (v * c if k in ("rsh", "rp", "r0", "L") else v) for k, v in p.items()}
    close(m, "homogeneous", m.call(qp.compleximpedance, f, **p2) / c, want, sc)


def scen_nest(m, rng):
    p = gen(rng, 3)
    if p["L"] == 0:
        p["L"] = 1e-7
    kind, f = gen_f(rng)
    m.note(fkind=kind, **{k: float(v) for k, v in p.items()})
    p2 = {k: v for k, v in p.items() if k not in ("gratio", "tau3")}
    sc = R.Zscale(f, p2) * guard(f, p2)
    z2 = m.call(qp.compleximpedance, f, **p2)
    close(m, "gratio=0", m.call(qp.compleximpedance, f, **dict(p, gratio=0.0)), z2, sc)
    p1 = dict(rsh=p["rsh"], rp=p["rp"], L=p["L"])
    z1 = m.call(qp.compleximpedance, f, **dict(p1, rp=p["rp"] + p["r0"] * (1 + p["beta"])))
    close(m, "loopgain=0", m.call(qp.compleximpedance, f, **dict(p2, l=0.0)), z1, sc)
    # limits
    rl = p["rsh"] + p["rp"]
    z0 = m.call(qp.compleximpedance, 0.0, **p2)
    w0 = rl + p["r0"] * (1 + p["beta"]) + p["r0"] * (2 + p["beta"]) * p["l"] / (1 - p["l"])
    close(m, "dc-limit", z0, complex(w0), R.Zscale(0, p2))
    # f -> 0 with infinite loop gain: rl - r0
    zi = m.call(qp.compleximpedance, 0.0, **dict(p2, l=1e12))
    close(m, "strong-etf", zi, complex(rl - p["r0"]), R.Zscale(0, dict(p2, l=1e12)) * 1.0)
    ph = dict(p2, L=0.0)
    fh = 1e6 * (abs(1 - p["l"]) + p["l"] + 1) / p["tau0"]
    m.close("hf-limit", m.call(qp.compleximpedance, fh, **ph), complex(rl + p["r0"] * (1 + p["beta"])),
            rtol=1e-4, atol=1e-4 * p["r0"])
    m.close("normal-dc", m.call(qp.compleximpedance, 0, **p1), complex(rl), rtol=1e-12)


def scen_missing(m, rng):
    p = gen(rng, 3)
    sub = {k: v for k, v in p.items() if rng.random() < rng.choice([.5, .9])}
    if rng.random() < .3:
        sub.update({k: None for k in p if k not in sub and rng.random() < .5})
    k = R.poles_of(sub)
    f = 10 ** rng.uniform(0, 6, size=5)
    m.note(given=sorted(a for a in sub if sub[a] is not None), poles=k)
    t = np.arange(64) / 64e3
    if k == 0:
        m.raises("missing", ValueError, qp.compleximpedance, f, **sub)
        m.raises("missing", ValueError, qp.complexadmittance, f, **sub)
        m.raises("missing", ValueError, qp.squarewaveresponse, t, 1e-6, 1e3, **sub)
    else:
        use = dict(sub)
        if k < 3:
            use.pop("gratio", None); use.pop("tau3", None)
        if k < 2:
            use = {a: sub[a] for a in ("rsh", "rp", "L")}
        close(m, "selected-model", m.call(qp.compleximpedance, f, **sub), R.Z(f, use),
              R.Zscale(f, use) * guard(f, use))


SCENARIOS = {"values": (scen_values, 1500, 20000), "nest": (scen_nest, 600, 8000), "missing": (scen_missing, 600, 6000)}
