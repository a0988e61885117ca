"""C26: automatic trace cuts (autocuts and its parts, get_muon_cut)."""
import numpy as np
import qetpy as qp
from qetpy.cut import get_muon_cut

OFF = dict(lgcpileup1=False, lgcslope=False, lgcbaseline=False, lgcpileup2=False, lgcchi2=False)
FLAG = {"pulse": "lgcpileup1", "pileup": "lgcpileup1", "slope": "lgcslope", "tail": "lgcslope",
        "base": "lgcbaseline", "noise": "lgcchi2"}
NSIG = {"lgcpileup1": "nsigpileup1", "lgcslope": "nsigslope", "lgcbaseline": "nsigbaseline", "lgcchi2": "nsigchi2",
        "lgcpileup2": "nsigpileup2"}


def pulse(nb, fs, at):
    t = np.arange(nb) / fs
    s = np.where(t >= at, (1 - np.exp(-np.maximum(t - at, 0) / 1e-5)) * np.exp(-np.maximum(t - at, 0) / 1e-4), 0)
    return s / s.max()


def ensemble(rng, kinds, algo, nmin=70):
    n = int(rng.integers(nmin, 260))
    nb = int(rng.choice([251, 300, 500, 640]))
    fs = float(rng.choice([625e3, 625e3, 1.25e6, 3.2e5]))
    x = rng.normal(size=(n, nb))
    k = max(1, int(n * rng.uniform(.02, .11)))
    kind = [str(rng.choice(kinds)) for _ in range(k)]
    # skewness driven removal acts on the high side; a symmetric clip acts on both
    sgn = lambda: 1 if algo == "removeoutliers" else float(rng.choice([-1, 1]))
    for i, c in enumerate(kind):
        A = 10 ** rng.uniform(np.log10(20), np.log10(300))
        if c in ("pulse", "pileup"):
            s = float(rng.choice([-1, 1]))
            x[i] += A * s * pulse(nb, fs, rng.uniform(.15, .8) * nb / fs)
            if c == "pileup":
                x[i] += A * s * rng.uniform(.3, 2) * pulse(nb, fs, rng.uniform(.15, .8) * nb / fs)
        if c == "slope":
            x[i] += sgn() * A * np.linspace(0, 1, nb)
        if c == "tail":
            x[i] -= sgn() * A * np.exp(-np.arange(nb) / (nb * rng.uniform(.2, 1)))
        if c == "base":
            x[i] += sgn() * A * .5
        if c == "noise":
            x[i] += rng.normal(size=nb) * rng.uniform(2, 10)
    p = rng.permutation(n)
    inv = np.argsort(p)
    kk = np.array(kind, dtype=object)
    lab = np.full(n, "", dtype=object); lab[:k] = kk
    gain = float(10 ** rng.uniform(-8, 1))
    return x[p] * gain, lab[p], fs, gain


def run(m, x, **kw):
    before = x.copy()
    c = m.call(qp.autocuts, x, **kw)
    m.expect("mask", isinstance(c, np.ndarray) and c.dtype == bool and c.shape == (len(x),), f"{getattr(c, 'dtype', None)}")
    m.expect("input-untouched", np.array_equal(before, x))
    return np.asarray(c)


def relations(m, rng, x, c, kw, gain):
    m.expect("repeatable", np.array_equal(run(m, x, **kw), c))
    m.expect("gain", np.array_equal(run(m, x * float(2.0 ** rng.integers(-6, 7)), **kw), c))
    p = rng.permutation(len(x))
    m.expect("order", np.array_equal(run(m, x[p], **kw), c[p]))
    m.expect("common-offset", np.array_equal(run(m, x + gain * rng.uniform(-20, 20), **kw), c))


def scen_single(m, rng):
    """One cut at a time against the contamination it targets."""
    algo = str(rng.choice(["removeoutliers", "iterstat"]))
    cont = str(rng.choice(list(FLAG)))
    flag = FLAG[cont]
    x, lab, fs, gain = ensemble(rng, [cont], algo)
    kw = dict(OFF, fs=fs, outlieralgo=algo)
    kw[flag] = True
    nsig = float(rng.choice([2, 2.2, 2.5])) if flag != "lgcchi2" else float(rng.choice([2.5, 3]))
    if rng.uniform() < .6:
        kw[NSIG[flag]] = nsig
    m.note(algo=algo, cont=cont, n=x.shape[0], nb=x.shape[1], k=int((lab != "").sum()), fs=fs, gain=gain)
    c = run(m, x, **kw)
    bad = lab != ""
    m.expect(f"{cont}:rejected", not c[bad].any(), f"{algo} kept {c[bad].sum()} of {bad.sum()} {cont} traces")
    m.expect(f"{cont}:clean-kept", c[~bad].mean() > .5, f"{algo} keeps {c[~bad].mean():.3f}")
    relations(m, rng, x, c, kw, gain)


def scen_other(m, rng):
    """A single cut is blind to contamination it does not measure."""
    algo = str(rng.choice(["removeoutliers", "iterstat"]))
    cut, cont = [("lgcpileup1", "base"), ("lgcslope", "base"), ("lgcchi2", "base"), ("lgcslope", "pulse"),
                 ("lgcbaseline", "pulse")][int(rng.integers(5))]
    n = int(rng.integers(70, 150)); nb = 400; fs = 625e3
    x = rng.normal(size=(n, nb))
    y = x.copy()
    k = n // 3
    if cont == "base":
        y[:k] += rng.uniform(-30, 30, size=(k, 1))
    else:                       # confined to the middle of the trace
        for i in range(k):
            y[i, 100:340] += (rng.uniform(20, 200) * pulse(nb, fs, .4 * nb / fs))[100:340]
    m.note(algo=algo, cut=cut, cont=cont, n=n)
    kw = dict(OFF, fs=fs, outlieralgo=algo); kw[cut] = True
    m.expect(f"{cut}:blind-to-{cont}", np.array_equal(run(m, x, **kw), run(m, y, **kw)))


def scen_combined(m, rng):
    algo = str(rng.choice(["removeoutliers", "iterstat"]))
    kinds = ["pulse", "pileup", "slope", "tail", "base", "noise"]
    x, lab, fs, gain = ensemble(rng, kinds, algo, nmin=120)
    kw = dict(fs=fs, outlieralgo=algo)
    m.note(algo=algo, n=x.shape[0], nb=x.shape[1], fs=fs, gain=gain, kinds=sorted(set(lab)))
    c = run(m, x, **kw)
    bad = lab != ""
    # wrong noise does not show in the first cuts and may be few traces: still the chi2 cut removes it
    m.expect("rejected", not c[bad].any(), f"{algo} kept {sorted(lab[bad & c])}")
    m.expect("clean-kept", c[~bad].mean() > .2, f"{algo} keeps {c[~bad].mean():.3f}")
    # the combination is the sequence of its parts
    idx = np.arange(len(x))
    for f in ("lgcpileup1", "lgcslope", "lgcbaseline", "lgcchi2"):
        s = run(m, x[idx], **dict(OFF, fs=fs, outlieralgo=algo, **{f: True}))
        if f == "lgcpileup1":
            m.expect("stricter-than-first", not (c & ~s).any())
        idx = idx[s]
    seq = np.zeros(len(x), dtype=bool); seq[idx] = True
    m.expect("sequence", np.array_equal(seq, c), f"{seq.sum()} {c.sum()}")
    # without any dI/dV the second pileup cut is idle
    m.expect("pileup2-idle", np.array_equal(run(m, x, **dict(kw, lgcpileup2=False)), c))
    # a subset of the flags
    on = {f: bool(rng.integers(2)) for f in ("lgcpileup1", "lgcslope", "lgcbaseline", "lgcchi2")}
    sub = run(m, x, **dict(kw, **on))
    idx = np.arange(len(x))
    for f in on:
        if on[f]:
            idx = idx[run(m, x[idx], **dict(OFF, fs=fs, outlieralgo=algo, **{f: True}))]
    seq = np.zeros(len(x), dtype=bool); seq[idx] = True
    m.expect("subset-sequence", np.array_equal(seq, sub), f"{on}")
    if rng.uniform() < .3:
        relations(m, rng, x, c, kw, gain)


def scen_didv(m, rng):
    """dI/dV data: the flat parts of the square-wave response are compared."""
    algo = str(rng.choice(["removeoutliers", "iterstat"]))
    nper = int(rng.choice([1, 2, 3, 5]))
    fs = float(rng.choice([625e3, 625e3, 312.5e3, 1.25e6]))
    per = int(rng.choice([160, 200, 250]))
    sg = fs / per
    nb = per * nper
    n = int(rng.integers(70, 160))
    cont = str(rng.choice(["slope", "base", "pulse"]))
    t = np.arange(nb)
    sq = np.where((t % per) < per / 2, 1, -1) * rng.uniform(10, 50)
    lag = 4.0
    e = np.exp(-1 / lag)
    y = np.zeros(nb); s = -sq[0] * (1 - 2 / (1 + 1))
    for i in range(2 * per):
        s = e * s + (1 - e) * sq[i % per]
    for i in range(nb):
        s = e * s + (1 - e) * sq[i]; y[i] = s
    x = rng.normal(size=(n, nb)) + y
    k = max(1, int(n * rng.uniform(.02, .1)))
    for i in range(k):
        A = rng.uniform(20, 100) * (1 if algo == "removeoutliers" else rng.choice([-1, 1]))
        if cont == "slope":
            # one-period data compares two neighbouring slivers of the flat part
            A = A * (60 if nper == 1 else (4 if nper == 2 else 1.5))
            x[i] += A * np.linspace(0, 1, nb)
        elif cont == "base":
            x[i] += A
        else:
            x[i] += np.sign(sq[0]) * abs(A) * 40 * pulse(nb, fs, rng.uniform(.3, .6) * nb / fs)
    p = rng.permutation(n); x = x[p]; bad = p < k
    flag = {"slope": "lgcslope", "base": "lgcbaseline", "pulse": "lgcpileup2"}[cont]
    m.note(algo=algo, nper=nper, per=per, n=n, cont=cont, k=k)
    kw = dict(OFF, fs=fs, is_didv=True, sgfreq=sg, outlieralgo=algo); kw[flag] = True
    c = run(m, x, **kw)
    m.expect(f"didv:{cont}:rejected", not c[bad].any(), f"{algo} kept {c[bad].sum()} of {bad.sum()} nper={nper} per={per}")
    m.expect(f"didv:{cont}:clean-kept", c[~bad].mean() > .5, f"{algo} keeps {c[~bad].mean():.3f}")
    relations(m, rng, x, c, kw, 1.0)
    if cont == "pulse":
        # traces are compared about their own mean
        z = x + rng.normal(size=(n, 1)) * 10 ** rng.uniform(1, 3)
        m.expect("didv:pileup2-blind-to-baseline", np.array_equal(run(m, z, **kw), c))
        # it is the first pileup cut, looking at those traces
        ns = float(rng.choice([2, 2.4]))
        two = run(m, x, **dict(kw, nsigpileup2=ns))
        one = run(m, x - x.mean(axis=1, keepdims=True), **dict(OFF, fs=fs, sgfreq=sg, outlieralgo=algo, lgcpileup1=True, nsigpileup1=ns))
        m.expect("didv:pileup2-is-a-pileup-cut", np.array_equal(two, one), f"fs={fs}: {two.sum()} {one.sum()}")
    # only the flat quarter of the period is looked at for slope and baseline
    if cont != "pulse":
        z = x.copy()
        ph = (t % per) / per
        edge = (ph < .22) | (ph > .40)
        z[:, edge] += rng.normal(size=(n, 1)) * 50
        m.expect("didv:flat-part-only", np.array_equal(run(m, z, **kw), c))
    full = dict(fs=fs, is_didv=True, sgfreq=sg, outlieralgo=algo)
    idx = np.arange(n)
    a = run(m, x, **full)
    for f in ("lgcpileup1", "lgcslope", "lgcbaseline", "lgcpileup2", "lgcchi2"):
        idx = idx[run(m, x[idx], **dict(OFF, fs=fs, is_didv=True, sgfreq=sg, outlieralgo=algo, **{f: True}))]
    seq = np.zeros(n, dtype=bool); seq[idx] = True
    m.expect("didv:sequence", np.array_equal(seq, a))


def scen_symmetrize(m, rng):
    """Slope distributions with a one-sided tail are symmetrised about zero,
    whichever side the tail is on."""
    n = int(rng.integers(600, 1500)); nb = 200
    side = float(rng.choice([-1, 1]))
    s0 = 1 / np.sqrt(nb / 10) * np.sqrt(2)              # slope resolution of white noise
    x = rng.normal(size=(n, nb))
    k = int(n * rng.uniform(.6, .8))
    x[:k] += side * (s0 * rng.exponential(rng.uniform(2, 4), size=(k, 1))) * np.linspace(0, 1, nb)
    p = rng.permutation(n); x = x[p]
    kw = dict(OFF, fs=625e3, lgcslope=True, symmetrizeflag=True, outlieralgo="iterstat", nsigslope=3)
    m.note(n=n, k=k, side=side)
    st = np.random.get_state()
    c = run(m, x, **kw)
    np.random.set_state(st)
    m.expect("sym:seeded", np.array_equal(run(m, x, **kw), c))
    sl = (x[:, -nb // 10:].mean(axis=1) - x[:, :nb // 10].mean(axis=1)) / s0
    plain = run(m, x, **dict(kw, symmetrizeflag=False))
    m.expect("sym:enough", c.sum() > .15 * n, f"{c.sum()} of {n}")
    m.expect("sym:mean-zero", abs(sl[c].mean()) < .25 and abs(sl[c].mean()) < .5 * abs(sl[plain].mean()),
             f"side={side} {sl[c].mean()} plain {sl[plain].mean()}")
    hi = np.sum(sl[c] > .5); lo = np.sum(sl[c] < -.5)
    m.expect("sym:balanced", abs(hi - lo) < 4 * np.sqrt(hi + lo) + .15 * (hi + lo), f"{hi} {lo}")
    m.expect("sym:fewer", c.sum() <= plain.sum() + .02 * n)


def scen_symmetry(m, rng):
    """Where one side outnumbers the other at every distance from zero, it is
    thinned out until both sides match; the other side is kept."""
    n = int(rng.integers(3000, 5000)); nb = 60
    side = float(rng.choice([-1, 1]))
    v = np.abs(rng.normal(size=n)) * np.where(rng.uniform(size=n) < rng.uniform(.65, .8), side, -side)
    sc = float(10 ** rng.uniform(-8, 2))
    x = np.zeros((n, nb)); x[:, 6:54] = (np.linspace(0, 1, 48) * v[:, None]); x[:, 54:] = v[:, None]
    m.note(n=n, side=side, sc=sc)
    kw = dict(OFF, fs=625e3, lgcslope=True, symmetrizeflag=True, outlieralgo="iterstat", nsigslope=60)
    c = run(m, x * sc, **kw)
    few = v * side < 0
    m.expect("symmetry:minority-kept", c[few].mean() > .999 and c[few & (np.abs(v) < 1.5)].all(), f"{c[few].mean()}")
    m.expect("symmetry:mean", abs(v[c].mean()) < .03, f"{v[c].mean()} side={side} n={n}")
    for h in (.3, .6, 1.0, 1.5):
        a, b = np.sum(v[c] * side > h), np.sum(v[c] * side < -h)
        m.expect("symmetry:both-sides", abs(a - b) < .06 * (a + b) + 12, f"beyond {h}: {a} {b}")


def scen_flags(m, rng):
    n = int(rng.integers(300, 420)); nb = 250
    x = rng.normal(size=(n, nb))
    algo = str(rng.choice(["removeoutliers", "iterstat"]))
    m.note(n=n, algo=algo)
    m.expect("all-off", run(m, x, outlieralgo=algo, **OFF).all())
    m.expect("all-off:didv", run(m, x, outlieralgo=algo, is_didv=True, sgfreq=5000.0, **OFF).all())
    for f in ("lgcpileup1", "lgcslope", "lgcbaseline"):
        m.raises(f"unknown-algorithm:{f}", ValueError, qp.autocuts, x, outlieralgo="median", **dict(OFF, **{f: True}))
    # the clip widths belong to their own cut
    for f in ("lgcpileup1", "lgcslope", "lgcbaseline", "lgcchi2"):
        kw = dict(OFF, outlieralgo="iterstat"); kw[f] = True
        base = run(m, x, **kw)
        for g in NSIG:
            if g != f:
                m.expect("own-nsig", np.array_equal(run(m, x, **dict(kw, **{NSIG[g]: 1.8})), base), f"{f} reacts to {NSIG[g]}")
        wide = run(m, x, **dict(kw, **{NSIG[f]: 9.0}))
        tight = run(m, x, **dict(kw, **{NSIG[f]: 2.0}))
        m.expect("nsig-wide", wide.all(), f"{f} {wide.mean()}")
        m.expect("nsig-tight", not tight.all() and not (tight & ~wide).any(), f)
    # the same for dI/dV data, where the second pileup cut acts
    for f in NSIG:
        kw = dict(OFF, outlieralgo="iterstat", is_didv=True, sgfreq=5000.0); kw[f] = True
        base = run(m, x, **kw)
        for g in NSIG:
            if g != f:
                m.expect("own-nsig:didv", np.array_equal(run(m, x, **dict(kw, **{NSIG[g]: 1.8})), base), f"{f} reacts to {NSIG[g]}")
        wide = run(m, x, **dict(kw, **{NSIG[f]: 9.0}))
        tight = run(m, x, **dict(kw, **{NSIG[f]: 1.9}))
        m.expect("nsig-wide:didv", wide.all(), f"{f} {wide.mean()}")
        m.expect("nsig-tight:didv", not tight.all() and not (tight & ~wide).any(), f)


def scen_muon(m, rng):
    n = int(rng.integers(3, 12)); nb = int(rng.choice([400, 1000, 2500]))
    ns = int(rng.choice([20, 50, 100, nb // 3])); th = float(rng.choice([.95, .9, .8, .99, 1.0]))
    x = np.zeros((n, nb)); want = np.zeros(n, dtype=bool); what = []
    for i in range(n):
        kind = str(rng.choice(["saturated", "short", "edge-in", "edge-out", "pulse", "end", "end-in", "above", "below", "dip"]))
        if th == 1.0 and kind in ("above", "below"):
            kind = "saturated"
        p = int(rng.integers(5, nb - ns - 20))
        if kind in ("end", "end-in"):
            p = nb - ns - (0 if kind == "end" else 1)
        D = {"saturated": ns + int(rng.integers(2, 15)), "short": int(rng.integers(1, ns - 1)), "edge-in": ns + 1,
             "edge-out": ns, "pulse": 1, "end": nb, "end-in": nb, "above": 1, "below": 1, "dip": 1}[kind]
        top = 10 ** rng.uniform(-7, 1)
        y = np.zeros(nb); e = min(nb, p + D); y[p:e] = top
        y[e:] = top * th * .9 * np.exp(-np.arange(nb - e) / rng.uniform(20, 400))
        y[:p] = rng.uniform(0, .3, size=p) * top
        if kind in ("above", "below"):
            y[p + 1:] = top * .2
            y[p + ns] = top * th * (1.001 if kind == "above" else .999)
        if kind == "dip":
            # a short pulse; a large negative excursion is not a peak
            y[max(0, p - int(rng.integers(1, 6)))] = -3 * top
        x[i] = y; what.append(kind)
        want[i] = kind in ("saturated", "edge-in", "end-in", "above")
        if kind == "saturated" and rng.uniform() < .3:
            x[i, int(rng.integers(0, p))] = -2 * top
    m.note(n=n, nb=nb, ns=ns, th=th, kinds=what)
    before = x.copy()
    c = m.call(get_muon_cut, x, thresh_pct=th, nsatbins=ns)
    m.expect("muon:mask", isinstance(c, np.ndarray) and c.dtype == bool and c.shape == (n,))
    for i in range(n):
        m.expect(f"muon:{what[i]}", bool(c[i]) == bool(want[i]), f"{what[i]} ns={ns} nb={nb} th={th} got {c[i]}")
    m.expect("muon:input", np.array_equal(before, x))
    m.expect("muon:gain", np.array_equal(m.call(get_muon_cut, x * 4.0, th, ns), c))
    q = rng.permutation(n)
    m.expect("muon:order", np.array_equal(m.call(get_muon_cut, x[q], th, ns), c[q]))
    if nb > 700:
        m.expect("muon:defaults", np.array_equal(m.call(get_muon_cut, x), m.call(get_muon_cut, x, .95, 600)))


SCENARIOS = {
    "single": (scen_single, 120, 1500),
    "other": (scen_other, 40, 400),
    "combined": (scen_combined, 60, 700),
    "didv": (scen_didv, 90, 1000),
    "symmetrize": (scen_symmetrize, 60, 600),
    "symmetry": (scen_symmetry, 40, 400),
    "flags": (scen_flags, 12, 120),
    "muon": (scen_muon, 200, 3000),
}
