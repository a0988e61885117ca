"""C28: noise models from dI/dV fits, baseline energy resolution."""
import warnings
import numpy as np
from scipy import integrate
import qetpy as qp
from .. import didvref as R
from . import didv_fit as F

E = 1.602176634e-19


def fitted(m, rng, poles, cls):
    """A finished fit, by any of the ways to obtain one."""
    while True:
        p, a, i = F.simulate(rng, poles, "hi" if rng.uniform() < .7 and poles > 1 else None, ntr=int(rng.integers(20, 30)))
        a.setdefault("r0", .3)
        if cls is not qp.DIDV:
            for k in ("r0", "rp"):
                a.pop(k)
        D = F.make(m, a, cls)
        if cls is qp.DIDV:
            if rng.uniform() < .3:
                m.call(D.processtraces)
                if m.visible(D, "_tmean", "_didvmean", "_didvstd", "_offset", "_offset_err"):
                    D = m.call(qp.didvinitfromdata, D._tmean, D._didvmean, D._didvstd, D._offset, D._offset_err, a["fs"],
                               a["sgfreq"], a["sgamp"], a["rsh"], r0=a["r0"], rp=a["rp"], dutycycle=a["dutycycle"], dt0=a["dt0"])
            res = F.fit(m, D, poles)
        else:
            names = ["rsh", "rp", "L", "dt"] if poles == 1 else ["rsh", "rp", "r0", "beta", "l", "L", "tau0", "dt"]
            q = dict(p, dt=i["shift"] / a["fs"])
            mean = np.array([q[k] for k in names]); cov = np.zeros((len(names),) * 2)
            for k in (("rsh", "rp") if poles == 1 else ("rsh", "rp", "r0")):
                j = names.index(k); cov[j, j] = (.02 * q[k]) ** 2
            mean[[j for j in range(len(names)) if cov[j, j] == 0]] = 0
            res = F.fit(m, D, poles, priors=mean, priorscov=cov)
        s = res.get("smallsignalparams", res["params"])
        # the fit, not the noise model, is judged elsewhere (C15, C18)
        if all(np.isfinite(list(s.values()))):
            return p, a, i, D, dict(s), R


def extras(rng):
    e = dict(G=10 ** rng.uniform(-12, -8), qetbias=10 ** rng.uniform(-6, -3), tc=rng.uniform(.03, .1), tload=rng.uniform(.03, 2),
             tbath=rng.uniform(.005, .025), squiddc=10 ** rng.uniform(-13, -10), squidpole=10 ** rng.uniform(0, 3), squidn=rng.uniform(.4, 1.5))
    return {k: float(v) for k, v in e.items() if rng.uniform() < .6}


DEF = dict(G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9, tbath=0.020, squiddc=2.5e-12, squidpole=0.0, squidn=1.0)


def same_str(rng, s):
    """equal text, not necessarily the interned object"""
    return s if rng.uniform() < .5 else "".join(list(s))


def passed_on(m, T, ex, skip=()):
    for k, v in dict(DEF, **ex).items():
        if k not in skip:
            m.expect(f"setting:{k}", getattr(T, k) == v, f"{k}={getattr(T, k)} want {v}")


def scen_transition(m, rng):
    cls = qp.DIDV if rng.uniform() < .7 else qp.DIDVPriors
    p, a, i, D, s, _ = fitted(m, rng, 2, cls)
    ex = extras(rng)
    m.note(cls=cls.__name__, given=sorted(ex), **{k: float(v) for k, v in s.items()})
    kw = dict(ex)
    if rng.uniform() < .6:
        kw["noisetype"] = same_str(rng, "transition")
    T = m.call(qp.sim.loadfromdidv, D, **kw)
    f = 10 ** rng.uniform(0, 5.5, size=25)
    sc = R.Zscale(f, s)
    y = m.call(T.dIdV, f)
    m.close("admittance", (1 / y - R.Z(f, s)) / sc, np.zeros(25), atol=1e-10)
    want = dict(rload=s["rsh"] + s["rp"], rshunt=s["rsh"], r0=s["r0"], beta=s["beta"], loopgain=s["l"], inductance=s["L"], tau0=s["tau0"])
    for k, v in want.items():
        m.close("param:" + k, getattr(T, k), v, rtol=1e-12)
    m.close("i0", T.i0, dict(DEF, **ex)["qetbias"] * s["rsh"] / (s["r0"] + s["rsh"] + s["rp"]), rtol=1e-12)
    passed_on(m, T, ex)
    direct = qp.sim.TESnoise(**want, **dict(DEF, **ex))
    for k in ("s_itot", "s_ptot", "dIdP", "s_itfn"):
        m.close("model:" + k, m.call(getattr(T, k), f), getattr(direct, k)(f), rtol=1e-12)
    # only the 2-pole fit exists
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for t in ("superconducting", "normal"):
            m.raises("fit-missing:" + t, Exception, qp.sim.loadfromdidv, D, noisetype=t, rnormal=.1)
    m.raises("unknown-type", ValueError, qp.sim.loadfromdidv, D, noisetype=str(rng.choice(["", "sc", "Transition", "trans"])))


def scen_onepole(m, rng):
    cls = qp.DIDV if rng.uniform() < .7 else qp.DIDVPriors
    p, a, i, D, s, _ = fitted(m, rng, 1, cls)
    ex = extras(rng)
    f = 10 ** rng.uniform(0, 5.5, size=25)
    m.note(cls=cls.__name__, given=sorted(ex), **{k: float(v) for k, v in s.items()})
    z = s["rsh"] + s["rp"] + 2j * np.pi * f * s["L"]
    T = m.call(qp.sim.loadfromdidv, D, noisetype=same_str(rng, "superconducting"), **ex)
    m.close("sc:admittance", m.call(T.dIdVsc, f) * z, np.ones(25), rtol=1e-10)
    m.close("sc:rload", T.rload, s["rsh"] + s["rp"], rtol=1e-12)
    m.close("sc:rshunt", T.rshunt, s["rsh"], rtol=1e-12)
    m.close("sc:L", T.inductance, s["L"], rtol=1e-12)
    m.expect("sc:no-tes", T.r0 == 0)
    m.expect("sc:no-thermal-noise", np.all(m.call(T.s_ptfn, f) == 0))
    passed_on(m, T, ex, ("G",))
    tl = dict(DEF, **ex)["tload"]
    m.close("sc:noise", m.call(T.s_iloadsc, f), 4 * 1.380649e-23 * tl * T.rload / np.abs(z) ** 2, rtol=1e-9)
    # normal: the fitted series resistance contains the normal resistance
    rn = float(s["rp"] * rng.uniform(.2, .9))
    T = m.call(qp.sim.loadfromdidv, D, noisetype=same_str(rng, "normal"), rnormal=rn, **ex)
    m.close("normal:admittance", m.call(T.dIdVnormal, f) * z, np.ones(25), rtol=1e-10)
    m.close("normal:r0", T.r0, rn, rtol=1e-12)
    m.expect("normal:no-thermal-noise", np.all(m.call(T.s_ptfn, f) == 0))
    m.close("normal:rload", T.rload, s["rsh"] + s["rp"] - rn, rtol=1e-9)
    m.close("normal:L", T.inductance, s["L"], rtol=1e-12)
    passed_on(m, T, ex, ("G",))
    tot = m.call(T.s_itotnormal, f)
    m.expect("normal:finite", np.all(np.isfinite(tot)) and np.all(tot > 0))
    m.raises("normal:rnormal-needed", ValueError, qp.sim.loadfromdidv, D, noisetype="normal")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.raises("fit-missing:transition", Exception, qp.sim.loadfromdidv, D)
    m.raises("unknown-type", ValueError, qp.sim.loadfromdidv, D, noisetype="sc", rnormal=rn)


def scen_resolution(m, rng):
    n = int(rng.integers(2, 400))
    fmax = 10 ** rng.uniform(2, 6)
    f = np.sort(rng.uniform(0, fmax, size=n)) if rng.uniform() < .5 else np.linspace(0, fmax, n)
    tau = float(10 ** rng.uniform(-6, -2)); eff = float(rng.uniform(.02, 1))
    S = 10 ** rng.uniform(-38, -32) * (1 + rng.uniform(0, 3, size=n))
    m.note(n=n, fmax=float(fmax), tau=tau, eff=eff)
    r = m.call(qp.sim.energy_res_estimate, f, tau, S, eff)
    # optimal filter: 1/sigma^2 = integral over positive frequencies of 4 |p(f)|^2 / S
    g = 4 * eff ** 2 / (1 + (2 * np.pi * f * tau) ** 2) / S
    want = 1 / np.sqrt(np.sum(.5 * (g[1:] + g[:-1]) * np.diff(f))) / E
    m.close("resolution", r / want, 1.0, rtol=1e-9)
    k = float(10 ** rng.uniform(-2, 2))
    m.close("noise-power", m.call(qp.sim.energy_res_estimate, f, tau, S * k, eff) / r, np.sqrt(k), rtol=1e-9)
    m.close("efficiency", m.call(qp.sim.energy_res_estimate, f, tau, S, eff * .5) / r, 2.0, rtol=1e-9)
    m.expect("slower-is-worse", m.call(qp.sim.energy_res_estimate, f, tau * (1.5), S, eff) >= r * (1 - 1e-12))
    # the two-sided description of the same noise gives the same answer
    if f[0] == 0:
        h = np.concatenate([-f[:0:-1], f]); T2 = np.concatenate([S[:0:-1], S]) / 2
        m.close("two-sided", m.call(qp.sim.energy_res_estimate, h, tau, T2, eff) / r, 1.0, rtol=1e-9)
        q = rng.permutation(len(h)) if rng.uniform() < .3 else np.argsort(np.fft.fftshift(np.arange(len(h))))
        m.close("two-sided:fft-order", m.call(qp.sim.energy_res_estimate, h[q], tau, T2[q], eff) / r, 1.0, rtol=1e-9)


def scen_analytic(m, rng):
    """White power noise: sigma^2 = S / (4 eff^2) * 2 pi tau / arctan(...)"""
    tau = float(10 ** rng.uniform(-5, -3)); eff = float(rng.uniform(.05, 1)); S0 = 10 ** rng.uniform(-38, -32)
    fmax = 200 / (2 * np.pi * tau)
    f = np.linspace(0, fmax, 400000)
    m.note(tau=tau, eff=eff)
    r = m.call(qp.sim.energy_res_estimate, f, tau, np.full(len(f), S0), eff)
    want = np.sqrt(S0 / (4 * eff ** 2) * 2 * np.pi * tau / np.arctan(2 * np.pi * fmax * tau)) / E
    m.close("white", r / want, 1.0, rtol=1e-5)
    # and with the noise of a simulated TES
    T = m.call(qp.sim.TESnoise)
    g = 10 ** np.linspace(-1, 6.5, 4000)
    r = m.call(qp.sim.energy_res_estimate, g, tau, m.call(T.s_ptot, g), eff)
    y = lambda u: 4 * eff ** 2 / (1 + (2 * np.pi * np.exp(u) * tau) ** 2) / T.s_ptot(np.exp(u)) * np.exp(u)
    u = np.linspace(np.log(.1), np.log(10 ** 6.5), 20001)
    m.close("tes", r * E * np.sqrt(integrate.simpson(y(u), x=u)), 1.0, rtol=1e-3)


SCENARIOS = {
    "transition": (scen_transition, 40, 500),
    "onepole": (scen_onepole, 40, 500),
    "resolution": (scen_resolution, 300, 5000),
    "analytic": (scen_analytic, 16, 100),
}
