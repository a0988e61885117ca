"""C17: dI/dV trace processing averages whole periods correctly."""
import contextlib, io, warnings
import numpy as np
import qetpy as qp
from .. import didvref as R


def draw(rng, small=True):
    """Raw traces of arbitrary content (not necessarily a dI/dV)."""
    sg = float(rng.choice([1.0, 40.0, 60.0, 100.0, 125.0, 200.0]))
    P = int(rng.integers(4, 120))
    if rng.random() < .3:
        sg, P = float(rng.choice([50, 100, 200])), int(rng.choice([100, 125, 250, 500]))
    fs = sg * P
    nper = int(rng.integers(1, 6))
    extra = int(rng.integers(0, P)) if rng.random() < .6 else 0
    N = nper * P
    ntr = int(rng.integers(2, 30)) if rng.random() < .93 else int(rng.integers(31, 300))
    d = float(rng.choice([.5, .5, rng.uniform(.05, .95), .25, .3, 1 / 3, .75, .1]))
    rsh = float(10 ** rng.uniform(-3, -1)); sgamp = float(10 ** rng.uniform(-8, -5))
    gain = float(rng.choice([1.0, 10 ** rng.uniform(-3, 6), -1.0, 2.0, -1e5]))
    p = R.gen_circuit(rng, int(rng.integers(1, 3)))
    p["rsh"] = rsh
    base = R.response(N, nper, sg, sgamp * rsh, d, p)
    amp = base.max() - base.min()
    shift = int(rng.integers(-P, P))
    off = float(rng.normal() * 5 * amp)
    x = np.roll(base, shift) + rng.normal(size=(ntr, N)) * amp * 10 ** rng.uniform(-3, 0) + off \
        + rng.normal(size=(ntr, 1)) * amp * .3
    if extra:
        x = np.concatenate([x, rng.normal(size=(ntr, extra)) * amp * 3], axis=1)
    return dict(raw=x * gain, fs=fs, sgfreq=sg, sgamp=sgamp, rsh=rsh, tracegain=gain, dutycycle=d), dict(
        N=N, nper=nper, P=P, extra=extra, amp=amp, off=off, ntr=ntr)


ATTRS = ("_tmean", "_didvmean", "_didvstd", "_offset", "_offset_err", "_freq", "_time", "_ntraces", "_fs", "_rawtraces")


def judge(m, D, ref, tag, amp, offscale, exact=False):
    if not m.visible(D, *ATTRS):
        return
    har = ref["har"]
    N = ref["N"]
    if not m.expect(tag + ":length", len(D._tmean) == N and len(D._freq) == N and len(D._didvmean) == N
                    and len(D._didvstd) == N and len(D._time) == N, f"{len(D._tmean)} {N}"):
        return
    m.close(tag + ":mean-trace", D._tmean, ref["tmean"], rtol=0, atol=1e-12 * (amp + offscale))
    m.close(tag + ":offset", D._offset, ref["offset"], rtol=0, atol=1e-12 * (amp + offscale))
    m.close(tag + ":offset-err", D._offset_err, ref["offset_err"], rtol=1e-7, atol=1e-13 * (amp + offscale))
    m.close(tag + ":freq", D._freq, ref["freq"], rtol=1e-12)
    # rounding of the coefficient extraction, element by element
    g = np.abs(1 / ref["c"]) * 1e-13 * (amp + offscale)
    m.close(tag + ":didv-mean", (np.asarray(D._didvmean)[har] - ref["ymean"]) / (g + ref["rel"] * np.abs(ref["ymean"])),
            np.zeros(har.sum()), atol=1.0, detail=f"N={N} nper={ref['nper']}")
    ds = np.asarray(D._didvstd)[har] - ref["ystd"]
    tol = g + (1e-7 + ref["rel"]) * np.abs(ref["ystd"])
    m.close(tag + ":didv-std", np.concatenate([ds.real / tol, ds.imag / tol]), np.zeros(2 * har.sum()), atol=1.0)
    s = np.asarray(D._didvstd)[~har]
    big = 1e15 * np.abs(np.asarray(D._didvmean)[~har])
    m.expect(tag + ":no-weight", np.all(s.real >= big) and np.all(s.imag >= big) and np.all(s.real > 1e10),
             f"unexcited bins carry weight: {np.min(s.real)}")
    m.expect(tag + ":ntraces", D._ntraces == ref["n"], f"{D._ntraces}")


def reference(a, N=None):
    r = R.process(a["raw"], a["fs"], a["sgfreq"], a["sgamp"], a["rsh"], a["tracegain"], a["dutycycle"])
    h = np.fft.fftfreq(r["N"], 1 / r["N"])
    c = R.drive_coeffs(np.round(h[r["har"]] / r["nper"]), a["sgamp"] * a["rsh"], a["dutycycle"])
    k = np.abs(np.round(h[r["har"]] / r["nper"]))
    # digits lost in 1 - exp(-2 pi i k d) where the drive nearly vanishes
    lost = 2e-15 * k / np.maximum(np.abs(c) * 2 * np.pi * k / (a["sgamp"] * a["rsh"]), 1e-300)
    r.update(c=c, n=len(a["raw"]), rel=1e-9 + 5 * lost)
    return r


def build(m, a, cls=None, **kw):
    a = dict(a, **kw)
    raw = a.pop("raw")
    fs, sg, sgamp, rsh = (a.pop(k) for k in ("fs", "sgfreq", "sgamp", "rsh"))
    return m.call(cls or qp.DIDV, raw, fs, sg, sgamp, rsh, **a)


def scen_process(m, rng):
    a, i = draw(rng)
    m.note(**{k: v for k, v in a.items() if k != "raw"}, **i)
    ref = reference(a)
    offs = abs(i["off"]) + i["amp"]
    cls = qp.DIDV if rng.random() < .7 else qp.DIDVPriors
    D = build(m, a, cls)
    m.call(D.processtraces)
    if not m.visible(D, *ATTRS):
        return
    judge(m, D, ref, "process", i["amp"], offs)
    m.close("time", D._time, np.arange(ref["N"]) / a["fs"] - 10e-6, rtol=0, atol=1e-9 * ref["N"] / a["fs"])
    m.call(D.processtraces)
    judge(m, D, ref, "again", i["amp"], offs)
    kept = [np.array(x) for x in (D._tmean, D._didvmean, D._didvstd)]
    # order of the traces is irrelevant
    pm = rng.permutation(len(a["raw"]))
    E = build(m, dict(a, raw=a["raw"][pm]), cls); m.call(E.processtraces)
    judge(m, E, ref, "permuted", i["amp"], offs)
    # whatever follows the last whole period is ignored
    P = i["P"]
    tail = rng.normal(size=(i["ntr"], int(rng.integers(0, P)))) * a["tracegain"] * i["amp"]
    E = build(m, dict(a, raw=np.concatenate([a["raw"][:, :i["N"]], tail], axis=1)), cls); m.call(E.processtraces)
    judge(m, E, ref, "tail", i["amp"], offs)
    # gain: scaled data with scaled gain
    c = float(2.0 ** rng.integers(-20, 20))
    E = build(m, dict(a, raw=a["raw"] * c, tracegain=a["tracegain"] * c), cls); m.call(E.processtraces)
    judge(m, E, ref, "gain", i["amp"], offs)
    # a constant moves only the mean trace and the offset
    b = float(rng.normal() * i["amp"] * 3)
    E = build(m, dict(a, raw=a["raw"] + b * a["tracegain"]), cls); m.call(E.processtraces)
    judge(m, E, dict(ref, tmean=ref["tmean"] + b, offset=ref["offset"] + b), "constant", i["amp"], offs + abs(b))
    m.expect("independent-objects", all(np.array_equal(x, y) for x, y in zip(kept, (D._tmean, D._didvmean, D._didvstd))))


def scen_phase(m, rng):
    a, i = draw(rng)
    dt0 = float(rng.choice([10e-6, 0.0, -1e-6, rng.normal() * 1e-5]))
    m.note(**{k: v for k, v in a.items() if k != "raw"}, **i, dt0=dt0)
    cls = qp.DIDV if rng.random() < .6 else qp.DIDVPriors
    A = build(m, a, cls, dt0=dt0); m.call(A.processtraces)
    B = build(m, a, cls, dt0=dt0, add180phase=True); m.call(B.processtraces)
    if not m.visible(A, *ATTRS):
        return
    T = 1 / a["sgfreq"]
    eps = 1e-9 * i["nper"] * T
    m.close("start", A._time[0], -dt0, atol=eps)
    m.close("half-period-once", B._time, np.asarray(A._time) - T / 2, rtol=0, atol=eps)
    m.call(B.processtraces)
    m.close("half-period-once:again", B._time, np.asarray(A._time) - T / 2, rtol=0, atol=eps)
    ref = reference(a)
    judge(m, B, ref, "flipped", i["amp"], abs(i["off"]) + i["amp"])
    if cls is qp.DIDV:
        for flip in (False, True):
            C = m.call(qp.didvinitfromdata, A._tmean, A._didvmean, A._didvstd, A._offset, A._offset_err, a["fs"],
                       a["sgfreq"], a["sgamp"], a["rsh"], add180phase=flip, dt0=dt0)
            if not m.visible(C, "_time", "_freq"):
                return
            m.close("init:time", C._time, np.asarray(A._time) - flip * T / 2, rtol=0, atol=eps)
            m.close("init:freq", C._freq, ref["freq"], rtol=1e-12)


def scen_nan(m, rng):
    """Traces with missing samples are left out, the others are unaffected."""
    a, i = draw(rng)
    good = a["raw"]
    nbad = int(rng.integers(1, 6))
    bad = good[rng.integers(0, len(good), nbad)] * rng.normal() * 3
    for b in bad:
        w = rng.permutation(i["N"])[: int(rng.choice([1, 1, 2, i["N"]]))]
        b[w] = np.nan
    x = np.concatenate([good, bad]); pm = rng.permutation(len(x)); x = x[pm]
    m.note(**{k: v for k, v in a.items() if k != "raw"}, **i, nbad=nbad)
    cls = qp.DIDV if rng.random() < .6 else qp.DIDVPriors
    D = build(m, dict(a, raw=x), cls)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.call(D.processtraces)
    judge(m, D, reference(a), "nan-left-out", i["amp"], abs(i["off"]) + i["amp"])
    if rng.random() < .5:
        m.call(D.processtraces)
        judge(m, D, reference(a), "nan-left-out:again", i["amp"], abs(i["off"]) + i["amp"])


def scen_rates(m, rng):
    """Commensurate rates are taken as they are, others refused or resampled."""
    sg = float(rng.choice([7.0, 30.0, 37.0, 50.0, 60.0, 90.0, 110.0, 130.0, 270.0, 21.0]))
    fs = float(rng.choice([10e3, 12.5e3, 6.25e3, 48e3, 625e1]))
    p = R.gen_circuit(rng, 1); p["L"] = 1e-7 * 50
    nper = int(rng.integers(2, 4))
    n = int(np.ceil(fs / sg * nper)) + int(rng.integers(0, 5))
    ntr = int(rng.integers(3, 8))
    x = rng.normal(size=(ntr, n)) * 1e-9
    ok = fs % sg == 0
    m.note(fs=fs, sgfreq=sg, n=n, commensurate=bool(ok))
    sgamp = 1e-6
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for cls in (qp.DIDV, qp.DIDVPriors):
            if not ok:
                m.raises("incommensurate-refused", ValueError, cls, x, fs, sg, sgamp, p["rsh"])
            D = m.call(cls, x, fs, sg, sgamp, p["rsh"], autoresample=True)
            if not m.visible(D, "_fs", "_rawtraces"):
                return
            r = D._fs / sg
            if not m.expect("whole-samples-per-period", abs(r - round(r)) < 1e-9 * r, f"fs={fs} sgfreq={sg} -> {D._fs}"):
                return
            if ok:
                m.expect("no-resample-needed", D._fs == fs and np.array_equal(D._rawtraces, x))
            m.call(D.processtraces)
            if not m.visible(D, "_tmean"):
                return
            P = int(round(r))
            m.expect("whole-periods", len(D._tmean) % P == 0 and 0 < len(D._tmean) <= D._rawtraces.shape[1]
                     and len(D._tmean) + P > D._rawtraces.shape[1], f"{len(D._tmean)} {P}")


SCENARIOS = {"process": (scen_process, 300, 4000), "phase": (scen_phase, 150, 2000), "nan": (scen_nan, 100, 1500), "rates": (scen_rates, 150, 1500)}
