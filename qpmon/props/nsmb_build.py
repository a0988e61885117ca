"""C12: building blocks of the multi-template filters."""
import numpy as np
import qetpy as qp
from .nsmb import Setup


def inner(S, a, b):
    A, B = np.fft.fft(a) / S.nt, np.fft.fft(b) / S.nt
    return np.sum((A.conj() * B / S.w).real)


def scen_matrices(m, rng):
    S = Setup(m, rng)
    nsb = S.nb + 1
    T = [S.s] + [S.B[:, i] for i in range(S.nb)]
    nrm = np.sqrt([inner(S, t, t) for t in T])
    o = np.outer(nrm, nrm)
    m.expect("sizes", S.ns == 1 and S.nb_ == S.nb and S.P.shape == (nsb, nsb, S.nt) and S.Pfs.shape == (nsb, nsb)
             and S.phi.shape == (nsb, S.nt) and np.shape(S.Bm) == (S.nb, S.nb) and np.shape(S.iB) == (S.nb, S.nb)
             and S.sf.shape == (S.nt, nsb) and S.st.shape == (S.nt, nsb),
             f"P{S.P.shape} Pfs{S.Pfs.shape} phi{S.phi.shape} B{np.shape(S.Bm)} iB{np.shape(S.iB)}")
    m.close("psddnu", np.ravel(S.psddnu), S.w, rtol=1e-12)
    m.close("templates:time", S.st, np.stack(T, 1), rtol=1e-14)
    m.close("templates:freq", S.sf / np.abs(S.sf).max(axis=0), (np.fft.fft(np.stack(T, 1), axis=0) / S.nt) / np.abs(S.sf).max(axis=0), rtol=1e-10)
    G = np.array([[inner(S, a, b) for b in T] for a in T])
    m.close("Pfs", S.Pfs / o, G / o, rtol=1e-9)
    m.close("phi", S.phi * nrm[:, None] ** -1, (np.fft.fft(np.stack(T), axis=1) / S.nt).conj() / S.w / nrm[:, None], rtol=1e-9)
    for d in sorted({0, S.nt - 1, int(rng.integers(0, S.nt)), int(rng.integers(0, S.nt))}):
        Td = [np.roll(S.s, d)] + T[1:]
        Gd = np.array([[inner(S, a, b) for b in Td] for a in Td])
        m.close("P:delayed-inner-products", S.P[:, :, d] / o, Gd / o, rtol=1e-9)
        m.close("P:symmetric", S.P[:, :, d] / o, S.P[:, :, d].T / o, rtol=1e-12)
        ev = np.linalg.eigvalsh((S.P[:, :, d] / o + (S.P[:, :, d] / o).T) / 2)
        m.expect("P:positive", ev.min() > -1e-9, f"eigenvalues {ev}")
        mask = rng.integers(0, 2, size=nsb)
        if rng.random() < .15:
            mask[:] = 0
            mask[rng.integers(0, nsb)] = 1
        if mask.sum() == 0:
            mask[-1] = 1
        byidx = rng.random() < .5
        if byidx:
            ci = int("".join(str(int(b)) for b in mask), 2)
            Pt, iPt = m.call(qp.of_nsmb_getPt, S.Pfs, S.P, combind=ci, bindelay=d, bitcomb=S.bc)
        else:
            Pt, iPt = m.call(qp.of_nsmb_getPt, S.Pfs, S.P, bindelay=d, bitmask=mask)
        k = np.nonzero(mask)[0]
        ok = np.ix_(k, k)
        if m.expect("Pt:shape", np.shape(Pt) == (len(k), len(k)) == np.shape(iPt), f"{np.shape(Pt)} for mask {mask}"):
            m.close("Pt:masked", Pt / o[ok], Gd[ok] / o[ok], rtol=1e-9)
            if np.linalg.cond(Gd[ok]) < 1e9:
                m.close("Pt:inverse", Pt @ iPt, np.eye(len(k)), rtol=0, atol=1e-12 * np.linalg.cond(Gd[ok]) + 1e-9)
    if S.cond_unscaled(0) < 1e8:
        m.close("B", S.Bm / o[1:, 1:], G[1:, 1:] / o[1:, 1:], rtol=1e-9)
        m.close("iB", S.Bm @ S.iB, np.eye(S.nb), rtol=0, atol=1e-6)
        iP = m.call(qp.of_nsmb_getiP, S.P)
        for d in (0, int(rng.integers(0, S.nt))):
            if S.cond_unscaled(d) < 1e8:
                m.close("iP", S.P[:, :, d] @ iP[:, :, d], np.eye(nsb), rtol=0, atol=1e-6)
    m.expect("bitcomb", len(S.bc) == 2 ** nsb and sorted(map(tuple, S.bc)) == sorted(
        tuple(int(c) for c in np.binary_repr(i, nsb)) for i in range(2 ** nsb)))
    f, t = m.call(qp.of_nsmb_ffttemplate, S.s[:, None], S.B)
    m.close("ffttemplate:time", t, np.stack(T, 1), rtol=1e-14)
    m.close("ffttemplate:freq", np.fft.ifft(f, axis=0) * S.nt / np.abs(np.stack(T, 1)).max(axis=0),
            np.stack(T, 1) / np.abs(np.stack(T, 1)).max(axis=0), rtol=1e-9)


def scen_slope(m, rng):
    lengths = [int(v) for v in rng.integers(2, 5000, size=12)] + [int(rng.choice([49, 98, 103, 107, 161, 187, 196, 197, 206]))]
    m.note(lengths=lengths)
    for n in lengths:
        B, sh = m.call(qp.get_slope_dc_template_nsmb, n)
        if m.expect("slope:shape", B.shape == (n, 2) and np.shape(sh) == (2,), f"{B.shape} for {n}"):
            m.close("slope:ramp", B[:, 0], np.arange(n) / n, rtol=1e-12)
            m.close("slope:const", B[:, 1], np.ones(n), rtol=0, atol=0)
            m.expect("slope:shifts", np.all(np.isnan(sh)))


def scen_ttl(m, rng):
    n = int(rng.choice([49, 98, 103, 200, 333, 625, 1000, 1001, 1616])) if rng.random() < .5 else int(rng.integers(30, 2500))
    fs = float(rng.choice([625e3, 1e5, 1.0, 1.25e6]))
    between = rng.uniform(6, n / 1.2)
    if rng.random() < .4:
        between = float(int(between))
    rate = fs / between
    t = np.arange(n) - n // 2
    tmpl = np.where(t >= 0, np.exp(-np.maximum(t, 0) / (between / 4)), 0.0) + (rng.random() < .3) * 1e-3 * rng.normal(size=n)
    con = bool(rng.random() < .5); pos = bool(rng.random() < .5)
    notch = int(rng.integers(0, max(1, int(between / 2) - 1)))
    m.note(n=n, fs=fs, rate=rate, con=con, pos=pos, notch=notch)
    B, sh, pc, win = m.call(qp.maketemplate_ttlfit_nsmb, tmpl, fs, rate, lgcconstrainpolarity=con,
                            lgcpositivepolarity=pos, notch_window_size=notch)
    N = B.shape[1] - 2
    exact = n / between
    m.expect("ttl:count", N in {int(np.floor(exact + 1e-9)), int(np.floor(exact - 1e-9))} and B.shape[0] == n,
             f"{N} TTL templates for {exact} periods")
    m.close("ttl:ramp", B[:, -2], np.arange(n) / n, rtol=1e-12)
    m.close("ttl:const", B[:, -1], np.ones(n), atol=0)
    if N > 0:
        want = -N / 2 * between
        cand = {int(f(want + e)) for f in (np.floor, np.ceil) for e in (-1e-6, 1e-6)}
        m.expect("ttl:first", any(np.array_equal(B[:, 0], np.roll(tmpl, c)) for c in cand), f"first template not the pulse moved by {want}")
        for i in range(1, N):
            ok = False
            for s in {int(np.floor(between * i + .5 - 1e-6)), int(np.floor(between * i + .5 + 1e-6))}:
                w = np.zeros(n); w[s:] = B[: n - s, 0]
                if np.array_equal(B[:, i], w) and sh[i] == s:
                    ok = True
            m.expect("ttl:phase", ok, f"template {i} is not the first one delayed by {between*i} bins (shift {sh[i]})")
        m.expect("ttl:shift0", sh[0] == 0)
    m.expect("ttl:sizes", np.shape(sh) == (N + 2,) and np.shape(pc) == (N + 2,))
    m.close("ttl:polarity", pc, np.r_[np.full(N, (1.0 if pos else -1.0) if con else 0.0), 0, 0], atol=0)
    w = np.asarray(win[0])
    bad = set()
    for s in sh[:N]:
        bad |= {int(q) % n for q in range(int(s) - notch, int(s) + notch + 1)}
    m.expect("ttl:window", len(win) == 1 and w.shape[0] == 1 and sorted(w[0].tolist()) == [i for i in range(n) if i not in bad],
             "search window is not everything outside the notches")


SCENARIOS = {"matrices": (scen_matrices, 400, 4000), "slope": (scen_slope, 60, 600), "ttl": (scen_ttl, 300, 4000)}
