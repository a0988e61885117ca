"""C19: resampling to a whole number of samples per drive period."""
from fractions import Fraction
import numpy as np
import qetpy.utils as U
from math import gcd


def draw_rates(rng):
    kind = rng.choice(["usual", "small", "divides", "random", "prime", "powers"])
    if kind == "usual":
        fs = int(rng.choice([625000, 1250000, 48000, 2500000, 50000])); sg = int(rng.integers(1, 400))
    elif kind == "small":
        fs = int(rng.integers(1, 400)); sg = int(rng.integers(1, 400))
    elif kind == "divides":
        sg = int(rng.integers(1, 500)); fs = sg * int(rng.integers(1, 5000))
    elif kind == "prime":
        fs = int(rng.choice([999983, 7919, 104729, 65537, 10007])); sg = int(rng.integers(2, 300))
    elif kind == "powers":
        fs = int(2 ** rng.integers(0, 12) * 3 ** rng.integers(0, 6) * 5 ** rng.integers(0, 5))
        sg = int(2 ** rng.integers(0, 8) * 3 ** rng.integers(0, 5) * 7 ** rng.integers(0, 3))
    else:
        fs = int(rng.integers(1, 3000000)); sg = int(rng.integers(1, 3000))
    return str(kind), fs, sg


def scen_factors(m, rng):
    kind, fs, sg = draw_rates(rng)
    as_float = bool(rng.random() < .5)
    m.note(kind=kind, fs=fs, sgfreq=sg)
    up, down = m.call(U.resample_factors, float(fs) if as_float else fs, float(sg) if rng.random() < .5 else sg)
    m.expect("integers", isinstance(up, (int, np.integer)) and isinstance(down, (int, np.integer)) and up > 0 and down > 0,
             f"{up!r} {down!r}")
    ratio = Fraction(fs * int(up), int(down) * sg)
    m.expect("whole-multiple", ratio.denominator == 1 and ratio >= 1, f"fs={fs} sgfreq={sg} up={up} down={down}: {ratio} samples per period")
    D = Fraction(fs, sg).denominator
    m.expect("closest-rate", int(up) == D or 2 * abs(int(up) - int(down)) <= D, f"fs={fs} sgfreq={sg}: {up}/{down} is not the factor closest to one")
    if fs % sg == 0:
        m.expect("no-op", (up, down) == (1, 1), f"{up}/{down} for commensurate {fs}, {sg}")
    m.raises("fractional-fs", ValueError, U.resample_factors, fs + .25, sg)
    m.raises("fractional-sgfreq", ValueError, U.resample_factors, fs, sg + .5)


def scen_data(m, rng):
    # rates with manageable factors
    while True:
        fs = int(rng.choice([10000, 12500, 6250, 48000, 5000, 1000])); sg = int(rng.integers(3, 130))
        d = sg // gcd(fs, sg)
        if d <= 40 and fs / sg > 12:
            break
    n = int(rng.integers(400, 1200))
    lead = [(), (3,), (2, 2)][int(rng.integers(3))]
    t = np.arange(n) / fs
    T = n / fs
    nc = int(np.prod(lead)) if lead else 1
    cyc = rng.uniform(3, 12, size=nc); ph = rng.uniform(0, 2 * np.pi, size=nc); amp = 10 ** rng.uniform(-6, 2); c0 = rng.normal(size=nc) * .5
    f = lambda tt: (amp * (np.sin(2 * np.pi * cyc[:, None] / T * tt + ph[:, None]) + c0[:, None])).reshape(lead + (len(tt),))
    x = f(t)
    m.note(fs=fs, sgfreq=sg, n=n, lead=list(lead))
    y, nfs = m.call(U.resample_data, x, fs, sg)
    up, down = m.call(U.resample_factors, fs, sg)
    m.expect("rate", nfs == fs * up / down and abs(nfs / sg - round(nfs / sg)) < 1e-9 * nfs / sg, f"{nfs}")
    m.expect("shape", y.shape == lead + (int(np.ceil(n * up / down)),), f"{y.shape} from {x.shape} by {up}/{down}")
    tt = np.arange(y.shape[-1]) / nfs
    inner = (tt > .2 * T) & (tt < .8 * T)
    m.close("signal-and-timing", y[..., inner], f(tt)[..., inner], rtol=0, atol=.02 * amp)
    if up == 1 and down == 1:
        m.expect("unchanged", np.array_equal(y, x) or np.allclose(y, x, rtol=1e-12))
    y1, _ = m.call(U.resample_data, x * 3.0, fs, sg)
    m.close("linear", y1, 3 * y, rtol=1e-10)
    if lead:
        k = tuple(int(rng.integers(s)) for s in lead)
        y2, _ = m.call(U.resample_data, x[k], fs, sg)
        m.close("row-by-row", y2, y[k], rtol=0, atol=1e-10 * amp)
        y3, f3 = m.call(U.resample_data, np.moveaxis(x, -1, 0), fs, sg, axis=0)
        m.close("axis", np.moveaxis(y3, 0, -1), y, rtol=0, atol=1e-10 * amp)
    # constant padding modes are passed on: a constant stays a constant
    k = np.full(n, amp)
    y4, _ = m.call(U.resample_data, k, fs, sg, padtype="line")
    m.close("constant", y4, np.full(len(y4), amp), rtol=1e-3)


SCENARIOS = {"factors": (scen_factors, 2000, 20000), "data": (scen_data, 200, 2500)}
