"""C29: trace utilities preserve what they promise to preserve."""
import numpy as np
import qetpy.utils as U


def scen_shift(m, rng):
    n = int(rng.integers(1, 80))
    kind = str(rng.choice(["float", "int", "list"]))
    arr = rng.normal(size=n) * 10 if kind != "int" else rng.integers(-50, 50, size=n)
    if kind == "list":
        arr = [float(v) for v in arr]
    fill = rng.choice([0, 1.0, -3, float(rng.normal())]) if kind != "int" else int(rng.integers(-3, 4))
    a = np.asarray(arr)
    if rng.random() < .5:
        num = int(rng.integers(-n - 5, n + 6))
        num = [num, float(num), np.int64(num)][int(rng.integers(3))]
    else:
        num = float(rng.uniform(-n - 3, n + 3)) if rng.random() < .5 else float(rng.integers(-n, n) + .5)
    m.note(n=n, kind=kind, num=float(num), fill=float(fill))
    out = m.call(U.shift, arr, num, fill_value=fill)
    i = np.arange(n)
    src = i - num                       # position in the source each output comes from
    want = np.full(n, float(fill))
    ok = (src >= -1e-12) & (src <= n - 1 + 1e-12)
    want[ok] = np.interp(src[ok], i, a.astype(float))
    m.expect("shape", np.shape(out) == (n,))
    m.close("shifted", out, want, rtol=1e-9, atol=1e-12, detail=f"num={num} fill={fill}")
    if abs(num) >= n:
        m.expect("only-fill", np.all(np.asarray(out) == fill), f"{out}")
    if float(num).is_integer() and fill == 0 and kind != "list":
        d = m.call(U.shift, arr, num)
        m.expect("default-fill", np.array_equal(d, out))
        k = int(num)
        if abs(k) < n:
            back = m.call(U.shift, out, -k)
            keep = slice(max(0, -k), n - max(0, k))
            m.expect("round-trip", np.array_equal(np.asarray(back)[keep], a[keep]))
    m.expect("fresh", out is not arr and not (isinstance(arr, np.ndarray) and np.shares_memory(out, arr)))


def scen_template(m, rng):
    fs = float(10 ** rng.uniform(3, 6.2)); n = int(rng.integers(50, 2000))
    tr = float(rng.uniform(.3, 8) / fs); tf = float(tr * rng.uniform(1.2, 20))
    tp = tr * tf / (tf - tr) * np.log(tf / tr)
    room = n - n // 2 - int(np.ceil(tp * fs)) - 2
    off = int(rng.integers(-(n // 2), max(1, room))) if rng.random() < .7 else 0
    off = max(-(n // 2), min(off, room))
    m.note(fs=fs, n=n, tau_r=tr, tau_f=tf, offset=off)
    t = np.arange(n) / fs
    x = m.call(U.make_template, t, tr, tf, offset=off) if off or rng.random() < .5 else m.call(U.make_template, t, tr, tf)
    s = n // 2 + off
    m.expect("length", x.shape == (n,))
    m.expect("unit-peak", np.max(x) == 1.0, f"{np.max(x)}")
    m.expect("starts-at", np.all(x[:s] == 0) and abs(x[s]) < 1e-12 and (s + 1 >= n or x[s + 1] > 0), f"start bin {s}: {x[max(0, s - 1):s + 2]}")
    tt = np.arange(n - s) / fs
    shape = np.exp(-tt / tf) - np.exp(-tt / tr)
    m.close("shape", x[s:], shape / shape.max(), rtol=1e-9)
    if off != 0:
        y = m.call(U.make_template, t, tr, tf)
        k = n - max(n // 2, s)
        m.close("offset-moves", x[s:s + k], y[n // 2:n // 2 + k], rtol=1e-9)


def scen_template_any(m, rng):
    """Fractional offsets, and pulses so late (or early) that the peak is cut off."""
    fs = float(10 ** rng.uniform(3, 6.2)); n = int(rng.integers(6, 400))
    tr = float(rng.uniform(.3, 60) / fs); tf = float(tr * rng.uniform(1.2, 20))
    h = n // 2
    kind = str(rng.choice(["whole", "fractional", "half", "late"]))
    off = {"whole": int(rng.integers(-h, n - h - 2)), "fractional": float(rng.uniform(-h, n - h - 2)),
           "half": float(rng.integers(-h, n - h - 2)) + .5, "late": float(n - h - rng.choice([2, 2.5, 3, 4.75]))}[kind]
    m.note(fs=fs, n=n, tau_r=tr, tau_f=tf, offset=off, kind=kind)
    t = np.arange(n) / fs
    x = m.call(U.make_template, t, tr, tf, offset=off)
    pos = np.arange(n) - (h + off)
    pulse = np.exp(-t / tf) - np.exp(-t / tr)
    want = np.where(pos >= -1e-12, np.interp(pos, np.arange(n), pulse), 0.0)
    m.expect("length", x.shape == (n,))
    m.expect("unit-peak", np.max(x) == 1.0, f"offset {off}: {np.max(x)}")
    m.close("shape-any", x, want / want.max(), rtol=1e-6, atol=1e-9)


def scen_decreasing(m, rng):
    n = int(rng.integers(1, 60)) if rng.random() < .95 else int(rng.integers(1000, 40000))
    kind = str(rng.choice(["noise", "trend", "ties", "decreasing", "increasing", "constant", "zeros"]))
    i = np.arange(n)
    y = {"noise": rng.normal(size=n), "trend": 10.0 - i * rng.uniform(.01, 1) + rng.normal(size=n) * rng.uniform(.01, 2),
         "ties": rng.integers(-3, 4, size=n).astype(float), "decreasing": -np.cumsum(rng.uniform(.1, 1, size=n)) + rng.normal(),
         "increasing": np.cumsum(rng.uniform(0, 1, size=n)), "constant": np.full(n, float(rng.choice([0., 1., -2.5]))),
         "zeros": np.maximum(rng.normal(size=n) + 2 - i * .3, 0.0)}[kind]
    x = None if rng.random() < .5 else np.cumsum(rng.uniform(.05, 2, size=n)) + rng.normal()
    scale = float(rng.choice([1, 1, 1e-24, 1e-12, 1e9]))         # power spectra come in A^2/Hz
    y = y * scale
    m.note(kind=kind, n=n, x=x is not None, scale=scale)
    out = m.call(U.make_decreasing, y) if x is None else m.call(U.make_decreasing, y, x=x)
    sc = np.abs(y).max() + 1e-12 * scale
    if not m.expect("length", np.shape(out) == (n,), f"{np.shape(out)}"):
        return
    run = np.minimum.accumulate(y)
    new = np.concatenate([[True], y[1:] < run[:-1]])
    ext = sc + np.abs(out)
    m.expect("non-increasing", np.all(np.diff(out) <= 1e-9 * (ext[1:] + ext[:-1])), f"{kind}: {y} -> {out}")
    m.close("touches-minima", out[new], y[new], rtol=0, atol=1e-10 * sc, detail=f"{kind}: {y}")
    xs = i.astype(float) if x is None else x
    # linear in between
    last = int(np.where(new)[0][-1])
    m.close("interpolates", out[:last + 1], np.interp(xs[:last + 1], xs[new], y[new]), rtol=0, atol=1e-9 * sc)
    if np.all(np.diff(y) < 0):
        m.close("already-decreasing", out, y, rtol=0, atol=1e-10 * sc)


def scen_negatives(m, rng):
    n = int(rng.integers(1, 60))
    y = rng.normal(size=n) + rng.uniform(-1.5, 1.5)
    y[rng.random(n) < .2] = 0.0
    if rng.random() < .1:
        y = np.abs(y) + .1
    if rng.random() < .05:
        y = -np.abs(y)
    y = y * float(rng.choice([1, 1, 1e-24, 1e-35, 1e9]))
    m.note(n=n, npos=int((y > 0).sum()))
    a = y.copy()
    out = m.call(U.fill_negatives, a)
    good = y > 0
    m.expect("length", np.shape(out) == (n,))
    m.expect("positive-kept", np.array_equal(out[good], y[good]))
    if good.any():
        m.expect("all-positive", np.all(out > 0), f"{y} -> {out}")
        i = np.arange(n)
        m.close("interpolated", out[~good], np.interp(i[~good], i[good], y[good]), rtol=1e-12)
    else:
        m.expect("nothing-to-fill-from", np.array_equal(out, y))


def scen_filter(m, rng):
    fs = float(10 ** rng.uniform(3, 6)); n = int(rng.integers(1500, 3000)); order = int(rng.choice([1, 1, 2, 3, 4, 5, 6]))
    fc = fs * float(rng.uniform(.02 if order < 4 else .08, .3))
    nt = int(rng.integers(1, 4))
    m.note(fs=fs, n=n, order=order, cut=fc / fs)
    kw = dict(cut_off_freq=fc, fs=fs)
    if order != 1 or rng.random() < .5:
        kw["order"] = order
    x = rng.normal(size=(nt, n)); y = rng.normal(size=(nt, n))
    a, b = rng.normal(size=2)
    fx = m.call(U.lowpassfilter, x, **kw)
    m.expect("shape", fx.shape == x.shape)
    m.close("linear", m.call(U.lowpassfilter, a * x + b * y, **kw), a * fx + b * m.call(U.lowpassfilter, y, **kw), rtol=1e-8)
    c = float(rng.normal() * 5)
    m.close("constant", m.call(U.lowpassfilter, np.full(n, c), **kw), np.full(n, c), rtol=1e-6)
    k = int(rng.integers(nt))
    m.close("row-by-row", m.call(U.lowpassfilter, x[k], **kw), fx[k], rtol=1e-9)
    # zero-phase gain of a sinusoid: the squared Butterworth response
    for f in (fc, fc * float(10 ** rng.uniform(-1, .3))):
        f = min(f, .48 * fs)
        f = round(f / fs * n) * fs / n
        if f <= 0:
            continue
        t = np.arange(n) / fs
        s = np.sin(2 * np.pi * f * t + 1.0)
        g = 1 / (1 + (np.tan(np.pi * f / fs) / np.tan(np.pi * fc / fs)) ** (2 * order))
        o = m.call(U.lowpassfilter, s, **kw)
        q = slice(n // 3, 2 * n // 3)
        m.close("gain", o[q], g * s[q], rtol=0, atol=2e-3, detail=f"f={f} fc={fc} order={order}")
    d = m.call(U.lowpassfilter, x[k])
    e = m.call(U.lowpassfilter, x[k], cut_off_freq=100000, fs=625e3, order=1)
    m.expect("defaults", np.array_equal(d, e))


def scen_align(m, rng):
    fs = float(10 ** rng.uniform(3, 6.3)); n = int(rng.integers(400, 900)); nt = int(rng.integers(2, 6)) if rng.random() < .95 else int(rng.integers(30, 140))
    kind = str(rng.choice(["bump", "bump", "burst"]))
    d = rng.integers(-40, 41, size=nt)
    i = np.arange(n)
    gain = 10 ** rng.uniform(-1, 1, size=nt)
    base = rng.normal(size=nt) * 5
    ncut = int(rng.choice([5000, n, n - 20]))
    if kind == "bump":
        w = rng.uniform(8, 25)
        fc = fs * float(rng.uniform(.02, .2))
        f = lambda j: np.exp(-.5 * ((j - n // 2) / w) ** 2)
    else:
        # a fast burst: visible only if the filter lets the requested band through
        w = rng.uniform(8, 16); per = rng.uniform(6, 9)
        fc = fs * .4
        f = lambda j: np.exp(-.5 * ((j - n // 2) / w) ** 2) * np.cos(2 * np.pi * (j - n // 2) / per)
    x = np.stack([g * f(i - k) + b for g, k, b in zip(gain, d, base)])
    drift = .05 if kind == "burst" else 0.0
    x = x + drift * gain[:, None] * np.stack([np.exp(-.5 * ((i - c) / 60) ** 2) for c in rng.uniform(100, n - 100, size=nt)])
    m.note(kind=kind, fs=fs, n=n, nt=nt, fc=fc / fs, n_cut=ncut, delays=[int(v) for v in d])
    s, al = m.call(U.align_traces, x, n_cut=ncut, cut_off_freq=fc, fs=fs)
    want = d[0] - d
    m.expect("delays", np.all(np.abs(s - want) <= (1 if kind == "bump" else 1)), f"{s} want {want}")
    j = m.call(U.align_traces, x, lgcjustshifts=True, n_cut=ncut, cut_off_freq=fc, fs=fs)
    m.expect("just-shifts", np.array_equal(j, s))
    m.expect("first-is-reference", s[0] == 0)
    m.expect("shape", al.shape == x.shape)
    for k in range(nt):
        sh = int(s[k])
        valid = (i - sh >= 0) & (i - sh < n)
        m.expect("mask", np.array_equal(~np.ma.getmaskarray(al[k]), valid), f"shift {sh}")
        m.close("moved", np.asarray(al.data)[k][valid], x[k][(i - sh)[valid]], rtol=1e-6, atol=1e-9)


def scen_align_didv(m, rng):
    """Drive-synchronous traces: what the function is documented for."""
    fs = 625e3; P = int(rng.choice([1250, 2500])); n = 5 * P; nt = 4
    d = rng.integers(-P // 10, P // 10, size=nt)
    i = np.arange(n)
    tau = rng.uniform(20, 80)
    def f(j):
        ph = np.mod(j, P); e = np.where(ph < P // 2, 1 - 2 * np.exp(-ph / tau), -1 + 2 * np.exp(-(ph - P // 2) / tau))
        return e
    x = np.stack([f(i - k) for k in d]) * 1e-6 + rng.normal(size=(nt, n)) * 2e-8
    m.note(P=P, delays=[int(v) for v in d])
    s = m.call(U.align_traces, x, lgcjustshifts=True)
    # limited by the edges of the correlated window: small against the delays
    m.expect("didv-delays", np.all(np.abs(s - (d[0] - d)) <= .02 * P + .15 * np.abs(d - d[0])), f"{s} want {d[0] - d}")


SCENARIOS = {"shift": (scen_shift, 800, 10000), "template": (scen_template, 400, 5000), "template_any": (scen_template_any, 400, 5000), "decreasing": (scen_decreasing, 600, 8000),
             "negatives": (scen_negatives, 400, 4000), "filter": (scen_filter, 150, 1500), "align": (scen_align, 150, 2000),
             "align_didv": (scen_align_didv, 30, 300)}
