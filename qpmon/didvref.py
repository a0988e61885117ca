"""Reference model of the TES bias circuit and of its square-wave response.
Independent of qetpy: straight from the small-signal theory."""
import numpy as np


def poles_of(p):
    if all(p.get(k) is not None for k in ("rsh", "rp", "r0", "L", "l", "beta", "tau0", "gratio", "tau3")):
        return 3
    if all(p.get(k) is not None for k in ("rsh", "rp", "r0", "L", "l", "beta", "tau0")):
        return 2
    if all(p.get(k) is not None for k in ("rsh", "rp", "L")):
        return 1
    return 0


def Z(f, p):
    s = 2j * np.pi * np.asarray(f)
    k = poles_of(p)
    z = p["rsh"] + p["rp"] + s * p["L"]
    if k >= 2:
        inner = 1 + s * p["tau0"] / (1 - p["l"])
        if k == 3:
            inner = inner - p["gratio"] / (1 - p["l"]) / (1 + s * p["tau3"])
        z = z + p["r0"] * (1 + p["beta"]) + p["r0"] * (2 + p["beta"]) * p["l"] / (1 - p["l"]) / inner
    return z


def Zscale(f, p):
    """Sum of the magnitudes of the terms of Z: the rounding scale."""
    s = np.abs(2 * np.pi * np.asarray(f))
    z = abs(p["rsh"]) + abs(p["rp"]) + s * p["L"]
    if poles_of(p) >= 2:
        z = z + abs(p["r0"] * (1 + p["beta"])) + abs(p["r0"] * (2 + p["beta"]) * p["l"] / (1 - p["l"]))
    return z


def Zraw(f, q):
    """Impedance from the raw fit parameters (A, B, C, tau1, tau2, tau3)."""
    s = 2j * np.pi * np.asarray(f)
    z = q["A"] * (1 + s * q["tau2"])
    if "B" in q:
        inner = 1 + s * q["tau1"]
        if "C" in q:
            inner = inner - q["C"] / (1 + s * q["tau3"])
        z = z + q["B"] / inner
    return z


def raw_of(p):
    """Raw parameters of a circuit."""
    k = poles_of(p)
    if k == 1:
        A = p["rsh"] + p["rp"]
        return dict(A=A, tau2=p["L"] / A)
    A = p["rsh"] + p["rp"] + p["r0"] * (1 + p["beta"])
    q = dict(A=A, B=p["r0"] * p["l"] / (1 - p["l"]) * (2 + p["beta"]), tau1=p["tau0"] / (1 - p["l"]), tau2=p["L"] / A)
    if k == 3:
        q.update(C=p["gratio"] / (1 - p["l"]), tau3=p["tau3"])
    return q


def drive_coeffs(k, amp, d):
    """Fourier coefficients (k != 0) of the zero-mean square wave that is low
    for the first fraction d of its period and high after it; amp is
    peak-to-peak."""
    k = np.asarray(k, dtype=float)
    return 1j * amp / (2 * np.pi * k) * (1 - np.exp(-2j * np.pi * k * d))


def response(N, nper, sgfreq, vamp, d, p, admittance=None):
    """Steady-state current on N uniform samples spanning nper whole periods,
    all harmonics strictly below Nyquist."""
    kmax = (N - 1) // 2 // nper
    k = np.arange(1, kmax + 1)
    y = (1 / Z(k * sgfreq, p)) if admittance is None else admittance(k * sgfreq)
    spec = np.zeros(N // 2 + 1, complex)
    spec[k * nper] = drive_coeffs(k, vamp, d) * y
    return np.fft.irfft(spec, N) * N


def response_direct(t, kmax, sgfreq, vamp, d, p):
    k = np.arange(1, kmax + 1)
    c = drive_coeffs(k, vamp, d) / Z(k * sgfreq, p)
    out = np.zeros(len(t))
    for kk, cc in zip(k, c):
        out += 2 * np.real(cc * np.exp(2j * np.pi * kk * sgfreq * np.asarray(t)))
    return out


def falltimes_ok(p):
    """All natural modes of the circuit decay (stable)."""
    q = raw_of(p)
    A, B = q["A"], q.get("B", 0)
    if "B" not in q:
        return True
    t1, t2 = q["tau1"], q["tau2"]
    # numerator polynomial of Z in s
    if "C" not in q:
        num = np.polyadd(A * np.polymul([t2, 1], [t1, 1]), [B])
    else:
        C, t3 = q["C"], q["tau3"]
        den = np.polysub(np.polymul([t1, 1], [t3, 1]), [C])
        num = np.polyadd(A * np.polymul([t2, 1], den), B * np.array([t3, 1]))
    return bool(np.all(np.roots(num).real < 0))


def gen_circuit(rng, poles, lside=None):
    """A stable physical circuit."""
    while True:
        p = dict(rsh=float(10 ** rng.uniform(-2.7, -1.7)), rp=float(10 ** rng.uniform(-2.7, -1.8)),
                 L=float(10 ** rng.uniform(-7.2, -6)))
        if poles >= 2:
            hi = (rng.random() < .5) if lside is None else lside == "hi"
            p.update(r0=float(10 ** rng.uniform(-1.5, -.5)), beta=float(rng.uniform(.1, 3)),
                     l=float(rng.uniform(2., 20) if hi else rng.uniform(.1, .8)), tau0=float(10 ** rng.uniform(-3.7, -2.7)))
        if poles == 3:
            p.update(gratio=float(rng.uniform(.1, .6) if rng.random() < .85 else rng.uniform(.6, 6)), tau3=float(10 ** rng.uniform(-3.3, -2.7)))
        if falltimes_ok(p):
            return p


# ------------------------------------------------- data processing reference
def process(raw, fs, sgfreq, sgamp, rsh, gain=1.0, d=0.5):
    """Averages and standard errors of whole periods of raw traces."""
    P = int(round(fs / sgfreq))
    nper = raw.shape[1] // P
    x = np.asarray(raw, float)[:, :nper * P] / gain
    N = nper * P
    X = np.fft.fft(x, axis=1) / N
    h = np.fft.fftfreq(N, 1 / N)
    har = (np.round(h) % nper == 0) & (h != 0) & (np.abs(h) < N / 2)
    k = np.round(h / nper)
    if N % 2:
        # qetpy also leaves out bin N//2 of odd-length traces
        har[N // 2] = False
    c = np.zeros(N, complex)
    c[har] = drive_coeffs(k[har], sgamp * rsh, d)
    if d == 0.5:
        c[har & (k % 2 == 0)] = 0
    har &= np.abs(c) > 1e-9 * sgamp * rsh / np.maximum(np.abs(k), 1)
    y = X[:, har] / c[har]
    n = len(x)
    means = x.mean(axis=1)
    return dict(tmean=x.mean(axis=0), har=har, freq=np.fft.fftfreq(N, 1 / fs), y=y,
                ymean=y.mean(axis=0), ystd=(y.real.std(axis=0) + 1j * y.imag.std(axis=0)) / np.sqrt(n),
                offset=means.mean(), offset_err=means.std() / np.sqrt(n), N=N, nper=nper, P=P)


def residuals(ref, fcutoff, model):
    f = ref["freq"][ref["har"]]
    s = np.abs(f) < fcutoff
    r = (ref["ymean"] - model(f))[s]
    e = ref["ystd"][s]
    return np.concatenate([r.real / e.real, r.imag / e.imag])
