"""C14: square-wave response = periodic steady state of the admittance."""
import numpy as np
from qpmon.core import near
import qetpy as qp
from .. import didvref as R


def strip(x):
    """Remove the alternating (Nyquist) component of an even-length series."""
    n = len(x)
    if n % 2:
        return x
    a = np.where(np.arange(n) % 2 == 0, 1.0, -1.0)
    return x - a * np.mean(a * x)


def draw(rng):
    poles = int(rng.integers(1, 4))
    p = R.gen_circuit(rng, poles) if rng.random() < .8 else dict(R.gen_circuit(rng, poles), L=0.0 if poles == 1 else 1e-9)
    nper = int(rng.choice([1, 2, 3, 4, 7]))
    if rng.random() < .5:
        N = nper * int(rng.integers(4, 400))
    else:
        N = int(rng.integers(4 * nper, 400 * nper))      # not a whole number of samples per period
    sg = float(rng.choice([1.0, 40.0, 100.0, 123.0, 200.0])) if rng.random() < .7 else float(10 ** rng.uniform(0, 4))
    d = rng.choice([0.5, rng.uniform(.02, .98), .25, .75, 1 / 3, .1, .2, .45, .55, .5 + 1e-9, .5 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -1.3)])
    amp = float(10 ** rng.uniform(-8, -5) * rng.choice([1, 1, -1]))
    return poles, p, nper, N, sg, float(d), amp


def scen_series(m, rng):
    poles, p, nper, N, sg, d, amp = draw(rng)
    m.note(poles=poles, nper=nper, N=N, sgfreq=sg, duty=d, amp=amp, L=p["L"])
    t = np.arange(N) * (nper / sg / N)
    y = m.call(qp.squarewaveresponse, t, amp, sg, d, **p)
    m.expect("real", np.isrealobj(y) and len(y) == N)
    sc = np.sum(2 * np.abs(R.drive_coeffs(np.arange(1, max(2, N // nper)), amp * p["rsh"], d)
                            / R.Z(np.arange(1, max(2, N // nper)) * sg, p)))
    want = R.response(N, nper, sg, amp * p["rsh"], d, p)
    m.close("series", strip(y), want, rtol=0, atol=1e-6 * sc, detail=f"{p} duty={d} N={N} nper={nper}")
    if N <= 400:
        kmax = (N - 1) // 2 // nper
        m.close("series-direct", strip(y), R.response_direct(t, kmax, sg, amp * p["rsh"], d, p), rtol=0, atol=1e-6 * sc)
    m.close("zero-mean", np.mean(y), 0.0, atol=1e-9 * sc)
    if N % nper == 0:
        P = N // nper
        m.close("periodic", np.tile(y[:P], nper), y, rtol=0, atol=1e-8 * sc)
    c = float(rng.normal() * 3)
    m.close("linear", m.call(qp.squarewaveresponse, t, amp * c, sg, d, **p), c * y, rtol=0, atol=1e-10 * sc * abs(c))
    if d == .5:
        m.expect("default-duty", near(m.call(qp.squarewaveresponse, t, amp, sg, **p), y))
        m.close("duty-continuous", m.call(qp.squarewaveresponse, t, amp, sg, .5 + 1e-7, **p), y, rtol=0, atol=1e-3 * sc)
        m.close("duty-continuous", m.call(qp.squarewaveresponse, t, amp, sg, .5 - 1e-7, **p), y, rtol=0, atol=1e-3 * sc)
    else:
        # complementary duty cycle: the same wave, inverted and advanced by d
        w = R.response(N, nper, sg, -amp * p["rsh"], 1 - d, p)
        if N % nper == 0 and abs(d * (N // nper) - round(d * (N // nper))) < 1e-9:
            m.close("complement", strip(y), np.roll(w, int(round(d * (N // nper)))), rtol=0, atol=1e-5 * sc)


def scen_resistive(m, rng):
    """Almost no inductance: the square wave itself over the resistance."""
    p = dict(rsh=float(10 ** rng.uniform(-3, -1)), rp=float(10 ** rng.uniform(-3, -1)), L=0.0)
    d = float(rng.choice([.5, rng.uniform(.2, .8), .25, .3, .75]))
    P = int(rng.integers(300, 900)); nper = int(rng.integers(1, 4))
    sg = float(10 ** rng.uniform(0, 3)); amp = float(10 ** rng.uniform(-8, -5))
    m.note(duty=d, P=P, nper=nper, sgfreq=sg)
    t = np.arange(P * nper) / (P * sg)
    y = m.call(qp.squarewaveresponse, t, amp, sg, d, **p)
    ph = (np.arange(P * nper) % P) / P
    lo, hi = (ph > .08) & (ph < d - .08), (ph > d + .08) & (ph < .92)
    v = amp * p["rsh"] / (p["rsh"] + p["rp"])
    m.close("plateau:first", y[lo], np.full(lo.sum(), -v * (1 - d)), rtol=0, atol=.03 * v)
    m.close("plateau:second", y[hi], np.full(hi.sum(), v * d), rtol=0, atol=.03 * v)
    m.close("plateau:mean-step", y[hi].mean() - y[lo].mean(), v, rtol=1e-2)


def scen_long(m, rng):
    """Thousands of samples, and so thousands of harmonics, per drive period."""
    poles, p, _, _, sg, d, amp = draw(rng)
    nper = int(rng.integers(1, 5))
    N = nper * int(rng.integers(2000, 16000)) + (int(rng.integers(nper)) if rng.random() < .3 else 0)
    sg = float(rng.choice([3.0, 7.0, 10.0, 40.0, 41.3, 60.0, 123.0]))
    m.note(poles=poles, nper=nper, N=N, sgfreq=sg, duty=d, harmonics=N // nper // 2)
    t = np.arange(N) * (nper / sg / N) if rng.random() < .5 else np.arange(N) / (sg * N / nper)
    y = m.call(qp.squarewaveresponse, t, amp, sg, d, **p)
    k = np.arange(1, max(2, N // nper))
    sc = np.sum(2 * np.abs(R.drive_coeffs(k, amp * p["rsh"], d) / R.Z(k * sg, p)))
    m.close("series:long", strip(y), R.response(N, nper, sg, amp * p["rsh"], d, p), rtol=0, atol=1e-6 * sc,
            detail=f"{p} duty={d} N={N} nper={nper}")


SCENARIOS = {"series": (scen_series, 1200, 15000), "resistive": (scen_resistive, 200, 2000),
             "long": (scen_long, 60, 800)}
