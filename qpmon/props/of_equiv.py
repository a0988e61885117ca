"""C03: metamorphic relations between related optimum-filter executions."""
import numpy as np
import qetpy as qp
from ..ref import *
from .of import setup


def unique_min(chi, scale, tol=1e-7):
    return np.sum(chi <= chi.min() + tol * scale) == 1


def wrap(b, n):
    """circular delay difference folded into (-n/2, n/2]"""
    return (b + n / 2) % n - n / 2


FITS = ["withdelay", "interp", "nodelay", "ofamp", "ofamp_nodelay", "baseline", "baseline_interp"]


def fit(m, name, sig, t, psd, fs, cp, inorm, first=None):
    """one fit of `sig`; with `first`, by the documented second route: the
    filter is built on another trace and then given `sig` by update_signal"""
    if name == "ofamp":
        return m.call(qp.ofamp, sig, t, psd, fs, coupling=cp, integralnorm=inorm)
    if name == "ofamp_nodelay":
        return m.call(qp.ofamp, sig, t, psd, fs, withdelay=False, coupling=cp, integralnorm=inorm)
    of = m.call(qp.OptimumFilter, sig if first is None else first, t, psd, fs, coupling=cp, integralnorm=inorm)
    if first is not None:
        m.call(of.ofamp_withdelay)
        m.call(of.update_signal, sig)
    if name == "nodelay":
        a, x = m.call(of.ofamp_nodelay)
        return a, 0.0, x
    if name.startswith("baseline"):
        return m.call(of.ofamp_baseline, interpolate_t0=name.endswith("interp"))
    return m.call(of.ofamp_withdelay, interpolate_t0=name == "interp")


def prepare(m, rng):
    sig, t, psd, fs, cp, inorm = setup(m, rng)
    sig = np.asarray(sig, float)
    n = len(t)
    name = str(rng.choice(FITS))
    if name.startswith("baseline"):
        inorm = False
    r = OFRef(sig, t, psd, fs, cp, inorm)
    if name.startswith("baseline"):
        a, b, chi = r.joint_baseline()
        full = r.chi0_full()
        scale, asc = full, np.sqrt(full / np.sum(np.abs(r.S) ** 2 * r.wfull))
    else:
        a, chi = r.scan()
        scale, asc = r.chi0, r.ascale
    free = name not in ("nodelay", "ofamp_nodelay")
    ok = unique_min(chi, scale) or not free
    # interpolation needs real curvature at the minimum
    if name.endswith("interp"):
        k = int(np.argmin(chi))
        ok = ok and (chi[(k + 1) % n] + chi[k - 1] - 2 * chi[k]) > 1e-4 * scale
    m.note(fit=name, decidable=bool(ok))
    return sig, t, psd, fs, cp, inorm, name, r, scale, asc, ok


def compare(m, tag, base, other, asc_o, scale_o, n, fs, amp=1.0, chi=1.0, dk=0, free=True):
    m.close(tag + ":amp", other[0], base[0] * amp, rtol=0, atol=1e-6 * asc_o, detail=f"{base} {other}")
    m.close(tag + ":chi2", other[2], base[2] * chi, rtol=0, atol=1e-7 * scale_o, detail=f"{base} {other}")
    if free:
        d = wrap(other[1] * fs - base[1] * fs - dk, n)
        m.expect(tag + ":time", abs(d) < 1e-4, f"delay moved by {other[1]*fs-base[1]*fs} bins, expected {dk} (mod {n})")


def scen_relations(m, rng):
    sig, t, psd, fs, cp, inorm, name, r, scale, asc, ok = prepare(m, rng)
    if not ok:
        m.expect("skip:undecidable", True)
        return
    n = len(t)
    free = name not in ("nodelay", "ofamp_nodelay")
    base = fit(m, name, sig, t, psd, fs, cp, inorm)
    # scaling
    c = float(rng.choice([-1.0, 2.0, -3.7, 1e-6, 1e5, 1e-12, -1e-9, 1e12]))
    # half of the related executions reuse one filter, which met the trace
    # itself or an unrelated one before
    other = [None, None, sig, rng.permutation(sig) * 10 ** rng.uniform(-3, 3)][int(rng.integers(4))]
    m.note(reused=other is not None)
    o = fit(m, name, sig * c, t, psd, fs, cp, inorm, other)
    compare(m, "scale", base, o, asc * abs(c), scale * c * c, n, fs, amp=c, chi=c * c, free=free)
    # circular shift
    if free:
        for k in {int(rng.integers(1, n)), 1, n // 2}:
            o = fit(m, name, np.roll(sig, k), t, psd, fs, cp, inorm, other)
            compare(m, "shift", base, o, asc, scale, n, fs, dk=k)
    else:
        # shifting trace and template together leaves a fixed-delay fit alone
        k = int(rng.integers(1, n))
        o = fit(m, name, np.roll(sig, k), np.roll(t, k), psd, fs, cp, inorm)
        compare(m, "coshift", base, o, asc, scale, n, fs, free=False)
        # and moving only the trace is the fit at a chosen delay of the original
        of = m.call(qp.OptimumFilter, np.roll(sig, k), t, psd, fs, coupling=cp, integralnorm=inorm)
        wc = k if k < n - n // 2 else k - n
        a, x = m.call(of.ofamp_nodelay, windowcenter=wc)
        compare(m, "shift-at", base, (a, 0, x), asc, scale, n, fs, free=False)
    # PSD scaling
    c = 10 ** rng.uniform(-3, 3)
    o = fit(m, name, sig, t, psd * c, fs, cp, inorm)
    compare(m, "psd", base, o, asc, scale / c, n, fs, chi=1 / c, free=free)
    # template scaling
    c = float(rng.choice([-1.0, 0.1, 7.0, -1e4]))
    o = fit(m, name, sig, t * c, psd, fs, cp, inorm)
    ca = 1.0 if inorm else 1 / c
    compare(m, "template", base, o, asc * abs(ca), scale, n, fs, amp=ca, free=free)
    # constants
    off = float(rng.normal() * np.abs(sig).max() * rng.choice([0.1, 1, 50]))
    if cp == "AC" and not name.startswith("baseline"):
        o = fit(m, name, sig + off, t, psd, fs, cp, inorm)
        compare(m, "constant-AC", base, o, asc, scale, n, fs, free=free)
        p2 = psd.copy(); p2[0] *= 10 ** rng.uniform(-3, 3)
        o = fit(m, name, sig, t, p2, fs, cp, inorm)
        compare(m, "psd0-AC", base, o, asc, scale, n, fs, free=free)
    if name.startswith("baseline"):
        o = fit(m, name, sig + off, t, psd, fs, cp, inorm)
        sc2 = scale + (off * n / fs) ** 2 * fs / n / psd[0]
        m.close("constant-baseline:amp", o[0], base[0], rtol=0, atol=1e-6 * asc * np.sqrt(sc2 / scale))
        m.close("constant-baseline:chi2", o[2], base[2], rtol=0, atol=1e-7 * sc2)
        if sc2 < 1e4 * scale:
            m.expect("constant-baseline:time", abs(wrap((o[1] - base[1]) * fs, n)) < 1e-3, f"{o} {base}")


def scen_recover(m, rng):
    sig, t, psd, fs, cp, inorm, name, r, scale, asc, ok = prepare(m, rng)
    n = len(t)
    A = float(rng.choice([-1, 1]) * 10 ** rng.uniform(-8, 3))
    free = name not in ("nodelay", "ofamp_nodelay")
    k = int(rng.integers(-(n // 2), n - n // 2)) if free else 0
    base = name.startswith("baseline") or cp == "AC"
    off = float(rng.normal() * abs(A)) if base and rng.random() < 0.7 else 0.0
    s = A * np.roll(t, k) + off
    r = OFRef(s, t, psd, fs, cp, inorm)
    a, b, chi = r.joint_baseline() if name.startswith("baseline") else (*r.scan(), None)[0:1] + (None,) + (r.scan()[1],)
    sc = r.chi0_full() if name.startswith("baseline") else r.chi0
    m.note(A=A, k=k, off=off)
    if free and not unique_min(chi, sc, 1e-6):
        m.expect("skip:undecidable", True)
        return
    out = fit(m, name, s, t, psd, fs, cp, inorm)
    want = A * (t.sum() / fs if inorm else 1.0)
    if name.endswith("interp"):
        m.expect("recover:interp-near", abs(wrap(out[1] * fs - k, n)) <= 0.5 + 1e-6, f"{out} k={k}")
    else:
        m.close("recover:amp", out[0], want, rtol=1e-7)
        m.close("recover:chi2", out[2], 0.0, atol=1e-8 * sc)
        m.close("recover:time", out[1] * fs, k, atol=1e-6)


SCENARIOS = {"relations": (scen_relations, 900, 12000), "recover": (scen_recover, 600, 8000)}
