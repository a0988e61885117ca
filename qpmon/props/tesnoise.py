"""C27: TES noise model against the linearised circuit equations."""
import numpy as np
from qpmon.core import near
import qetpy as qp

K = 1.380649e-23
LG = np.polynomial.legendre.leggauss(64)


def draw(rng):
    p = dict(rload=10 ** rng.uniform(-3, -1.3), r0=10 ** rng.uniform(-2, 0), beta=rng.uniform(0, 4),
             loopgain=rng.choice([rng.uniform(.02, .95), rng.uniform(1.05, 40)]), inductance=10 ** rng.uniform(-8, -5),
             tau0=10 ** rng.uniform(-5, -2), G=10 ** rng.uniform(-12, -7), qetbias=10 ** rng.uniform(-6, -3) * rng.choice([-1, 1]),
             tc=rng.uniform(.02, .2), tload=rng.uniform(.02, 4), n=rng.choice([4., 5., rng.uniform(3, 6)]),
             lgcb=bool(rng.integers(2)), squiddc=10 ** rng.uniform(-13, -10), squidpole=rng.choice([0., 10 ** rng.uniform(0, 4)]),
             squidn=rng.uniform(.3, 2))
    p["rshunt"] = p["rload"] * rng.uniform(.3, 1)
    p["tbath"] = p["tc"] * rng.uniform(.05, .97)
    return {k: (v if isinstance(v, bool) else float(v)) for k, v in p.items()}


def theory(p, f):
    """Solve the two coupled small-signal equations at every frequency:
         L dI = V - (RL + R0(1+b)) I - (l G/I0) T          (electrical)
         C dT = I0 R0 (2+b) I - (1-l) G T + P               (thermal)"""
    f = np.atleast_1d(np.asarray(f, float))
    i0 = p["qetbias"] * p["rshunt"] / (p["r0"] + p["rload"])
    w = 2 * np.pi * f
    # temperature in units of G*T/I0 (a voltage), thermal equation divided by I0
    a11 = p["rload"] + p["r0"] * (1 + p["beta"]) + 1j * w * p["inductance"]
    a12 = p["loopgain"] * np.ones_like(w)
    a21 = -p["r0"] * (2 + p["beta"]) * np.ones_like(w)
    a22 = (1 - p["loopgain"]) + 1j * w * p["tau0"]
    det = a11 * a22 - a12 * a21
    Y = a22 / det                              # I per volt
    S = -a12 / det / i0                        # I per watt
    t = p["tbath"] / p["tc"]; n = p["n"]
    if p["lgcb"]:
        F = (1 + t ** (n + 1)) / 2
    else:
        # T-weighted conduction along the link, by quadrature
        x, wq = LG
        x = .5 * (1 - t) * x + .5 * (1 + t); wq = wq * .5 * (1 - t)
        F = np.sum(wq * x ** (2 * n)) / np.sum(wq * x ** (n - 1))
    o = dict(dIdV=Y, dIdP=S)
    o["s_vload"] = 4 * K * p["tload"] * p["rload"] * np.ones_like(w)
    o["s_vtes"] = 4 * K * p["tc"] * p["r0"] * (1 + p["beta"]) ** 2 * np.ones_like(w)
    o["s_ptfn"] = 4 * K * p["tc"] ** 2 * p["G"] * F * np.ones_like(w)
    o["s_iload"] = o["s_vload"] * np.abs(Y) ** 2
    # a voltage fluctuation of the TES does work -I0 V on the thermal circuit
    o["s_ites"] = o["s_vtes"] * np.abs((a22 + a12) / det) ** 2
    o["s_itfn"] = o["s_ptfn"] * np.abs(S) ** 2
    with np.errstate(all="ignore"):
        o["s_isquid"] = (p["squiddc"] * (1 + ((p["squidpole"] / f) ** p["squidn"] if p["squidpole"] else 0))) ** 2 * np.ones_like(w)
    o["s_itot"] = o["s_iload"] + o["s_ites"] + o["s_itfn"] + o["s_isquid"]
    for k in ("load", "tes", "squid", "tot"):
        o["s_p" + k] = o["s_i" + k] / np.abs(S) ** 2
    yn = 1 / (p["rload"] + p["r0"] + 1j * w * p["inductance"])
    ys = 1 / (p["rload"] + 1j * w * p["inductance"])
    o["dIdVnormal"], o["dIdVsc"] = yn, ys
    o["s_iloadnormal"] = o["s_vload"] * np.abs(yn) ** 2
    o["s_vtesnormal"] = 4 * K * p["tc"] * p["r0"] * np.ones_like(w)
    o["s_itesnormal"] = o["s_vtesnormal"] * np.abs(yn) ** 2
    o["s_itotnormal"] = o["s_iloadnormal"] + o["s_itesnormal"] + o["s_isquid"]
    o["s_iloadsc"] = o["s_vload"] * np.abs(ys) ** 2
    o["s_itotsc"] = o["s_iloadsc"] + o["s_isquid"]
    return o, i0


NAMES = ["dIdV", "dIdP", "s_vload", "s_iload", "s_pload", "s_vtes", "s_ites", "s_ptes", "s_ptfn", "s_itfn", "s_isquid",
         "s_psquid", "s_itot", "s_ptot", "dIdVnormal", "s_iloadnormal", "s_vtesnormal", "s_itesnormal", "s_itotnormal",
         "dIdVsc", "s_iloadsc", "s_itotsc"]
SQUID = ("s_isquid", "s_psquid", "s_itot", "s_ptot", "s_itotnormal", "s_itotsc")


def rel(m, tag, got, want, tol=1e-8, detail=""):
    """elementwise relative agreement"""
    g, w = np.asarray(got), np.asarray(want)
    if not m.expect(tag + ":shape", g.shape == w.shape, f"{g.shape} {w.shape} {detail}"):
        return
    m.close(tag, g / w, np.ones(w.shape), rtol=tol, detail=detail)


def cond(p):
    """loss of digits where the closed form subtracts or divides by 1-l"""
    return 1 + 1 / abs(1 - p["loopgain"])


def scen_theory(m, rng):
    p = draw(rng)
    n = int(rng.integers(1, 60))
    f = 10 ** rng.uniform(-1, 6.5, size=n)
    if rng.uniform() < .3:
        f = np.sort(f)
    m.note(nfreqs=n, **p)
    T = m.call(qp.sim.TESnoise, freqs=f, **p)
    o, i0 = theory(p, f)
    # resonances amplify rounding; measure against the determinant's terms
    amp = cond(p) * (1 + np.max(np.abs(o["dIdV"]) * (p["rload"] + p["r0"] * (1 + p["beta"]) + 2 * np.pi * f * p["inductance"]
                                                    + p["r0"] * p["loopgain"] * (2 + p["beta"]) / abs(1 - p["loopgain"]))))
    tol = 1e-12 * amp * 50 + 1e-11
    if tol > 1e-6:
        return m.expect("ill-conditioned", True)
    m.close("i0", T.i0, i0, rtol=1e-12)
    for k in NAMES:
        fn = getattr(T, k)
        v = m.call(fn)
        rel(m, k, v, o[k], tol * (1e3 if k in ("s_ites", "s_ptes") else 1), detail=f"{p}")
        if k.startswith("s_"):
            m.expect(k + ":real-nonneg", not np.iscomplexobj(v) and np.all(np.asarray(v) >= 0))
        g = rng.permutation(f)[: max(1, n // 2)]
        rel(m, k + ":explicit", m.call(fn, g), theory(p, g)[0][k], tol * (1e3 if k in ("s_ites", "s_ptes") else 1))
        s = float(f[0])
        m.close(k + ":scalar", m.call(fn, s), np.asarray(v)[0], rtol=1e-12)
        m.expect(k + ":stored-kept", near(np.asarray(m.call(fn)), np.asarray(v), 1e-12))
        if k not in SQUID or p["squidpole"] == 0:
            neg = m.call(fn, -f)
            m.close(k + ":even", neg, np.conj(v), rtol=1e-10)
    m.expect("stored-freqs", T.freqs is f or np.array_equal(T.freqs, f))
    # totals are the sums of their parts
    c = lambda k: np.asarray(m.call(getattr(T, k)))
    m.close("sum:current", c("s_itot"), c("s_iload") + c("s_ites") + c("s_itfn") + c("s_isquid"), rtol=1e-10)
    m.close("sum:power", c("s_ptot"), c("s_pload") + c("s_ptes") + c("s_ptfn") + c("s_psquid"), rtol=1e-8)
    m.close("sum:normal", c("s_itotnormal"), c("s_iloadnormal") + c("s_itesnormal") + c("s_isquid"), rtol=1e-10)
    m.close("sum:sc", c("s_itotsc"), c("s_iloadsc") + c("s_isquid"), rtol=1e-10)
    r2 = np.abs(c("dIdP")) ** 2
    for k in ("load", "tes", "squid", "tot"):
        rel(m, f"refer:{k}", c("s_i" + k), c("s_p" + k) * r2, 1e-9)
    rel(m, "refer:tfn", c("s_itfn"), c("s_ptfn") * r2, 1e-9)


def scen_nyquist(m, rng):
    """Fluctuation-dissipation: at one temperature a passive circuit has
    current noise 4 k T Re(Y)."""
    p = draw(rng); p["tload"] = p["tc"]; p["squiddc"] = 0.0; p["squidpole"] = 0.0
    f = 10 ** rng.uniform(-1, 6.5, size=30)
    m.note(**p)
    T = m.call(qp.sim.TESnoise, freqs=f, **p)
    y = m.call(T.dIdVnormal)
    rel(m, "nyquist:normal", m.call(T.s_itotnormal), 4 * K * p["tc"] * y.real, 1e-9)
    y = m.call(T.dIdVsc)
    rel(m, "nyquist:sc", m.call(T.s_itotsc), 4 * K * p["tc"] * y.real, 1e-9)
    # a TES without feedback or current dependence is an ordinary resistor
    q = dict(p, beta=0.0, loopgain=1e-9)
    U = m.call(qp.sim.TESnoise, freqs=f, **q)
    rel(m, "resistor", m.call(U.dIdV), m.call(U.dIdVnormal), 1e-6)
    rel(m, "resistor:noise", np.asarray(m.call(U.s_iload)) + m.call(U.s_ites), 4 * K * p["tc"] * m.call(U.dIdVnormal).real, 1e-6)
    # equilibrium: no suppression of the thermal fluctuation noise
    e = dict(p, tbath=p["tc"] * (1 - 1e-6))
    V = m.call(qp.sim.TESnoise, freqs=f, **e)
    rel(m, "equilibrium-tfn", m.call(V.s_ptfn), 4 * K * p["tc"] ** 2 * p["G"] * np.ones(30), 1e-4)


def scen_scaling(m, rng):
    p = draw(rng)
    f = 10 ** rng.uniform(0, 6, size=20)
    T = m.call(qp.sim.TESnoise, freqs=f, **p)
    m.note(**p)
    g = float(2.0 ** rng.integers(-4, 5))
    A = lambda o, k: np.asarray(m.call(getattr(o, k)))

    def scaled(ch, laws):
        U = m.call(qp.sim.TESnoise, freqs=f, **dict(p, **{k: p[k] * g for k in ch}))
        for k in NAMES:
            if k in laws:
                rel(m, f"scale:{'+'.join(ch)}:{k}", A(U, k), A(T, k) * laws[k], 1e-8)
    lin = {k: 1 for k in NAMES}
    tot = ("s_itot", "s_ptot", "s_itotnormal", "s_itotsc")
    same = lambda **kw: {k: v for k, v in dict(lin, **kw).items() if v is not None}
    none = {k: None for k in tot}
    scaled(["tload"], same(s_vload=g, s_iload=g, s_pload=g, s_iloadnormal=g, s_iloadsc=g, **none))
    scaled(["G"], same(s_ptfn=g, s_itfn=g, s_itot=None, s_ptot=None))
    scaled(["squiddc"], same(s_isquid=g * g, s_psquid=g * g, **none))
    # the bias sets the power responsivity, not the electrical one
    scaled(["qetbias"], same(dIdP=1 / g, s_itfn=g ** -2, s_pload=g * g, s_ptes=g * g, s_psquid=g * g, s_itot=None, s_ptot=None))
    # every temperature up: thermal noises follow, the squid does not
    scaled(["tc", "tload", "tbath"], same(s_vload=g, s_iload=g, s_pload=g, s_vtes=g, s_ites=g, s_ptes=g, s_ptfn=g * g, s_itfn=g * g,
                                          s_vtesnormal=g, s_itesnormal=g, s_iloadnormal=g, s_iloadsc=g, **none))
    # impedances up by g
    scaled(["rload", "r0", "rshunt", "inductance"], same(dIdV=1 / g, dIdVnormal=1 / g, dIdVsc=1 / g, dIdP=1 / g, s_vload=g, s_iload=1 / g,
                                                         s_pload=g, s_vtes=g, s_ites=1 / g, s_ptes=g, s_itfn=g ** -2, s_psquid=g * g,
                                                         s_iloadnormal=1 / g, s_vtesnormal=g, s_itesnormal=1 / g, s_iloadsc=1 / g, **none))


DEF = dict(rload=0.012, r0=0.150, rshunt=0.005, beta=1.0, loopgain=10.0, inductance=400.0e-9, tau0=500.0e-6, G=5.0e-10,
           qetbias=160e-6, tc=0.040, tload=0.9, tbath=0.020, n=5.0, lgcb=True, squiddc=2.5e-12, squidpole=0.0, squidn=1.0)


def scen_defaults(m, rng):
    """Documented defaults; objects do not share state."""
    p = draw(rng)
    keys = list(DEF)
    sub = {k: p[k] for k in keys if rng.uniform() < .3}
    if "rload" in sub:
        sub.pop("rload")
    m.note(given=sorted(sub))
    full = dict(DEF, **sub)
    if not abs(1 - full["loopgain"]) > .02:
        return
    f = 10 ** rng.uniform(0, 6, size=10)
    A = m.call(qp.sim.TESnoise, **sub)
    B = m.call(qp.sim.TESnoise, freqs=f, **p)
    o, _ = theory(full, f)
    for k in NAMES:
        rel(m, "default:" + k, m.call(getattr(A, k), f), o[k], 1e-6)
        v = np.asarray(m.call(getattr(A, k)))
        m.expect("default-grid:" + k, v.shape == np.shape(A.freqs) and np.all(np.isfinite(v)))
    g = np.arange(1, 40)
    for k in ("dIdV", "s_itot", "s_itotsc", "s_itotnormal", "s_ptot"):
        rel(m, "integer-freqs:" + k, m.call(getattr(A, k), g), theory(full, g)[0][k], 1e-6)
        w = f.reshape(2, 5)
        rel(m, "two-dim:" + k, m.call(getattr(A, k), w), o[k].reshape(2, 5), 1e-6)


SCENARIOS = {
    "theory": (scen_theory, 400, 8000),
    "nyquist": (scen_nyquist, 150, 3000),
    "scaling": (scen_scaling, 150, 3000),
    "defaults": (scen_defaults, 100, 2000),
}
