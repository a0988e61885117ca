"""Reference (slow, direct) models and workload generators for the optimum-filter
family.  Nothing here imports qetpy."""
import numpy as np

FS_CHOICES = [1.0, 10.0, 1e3, 625e3, 1.25e6, 48828.125]


def gen_nbins(rng, big=False):
    r = rng.random()
    if r > 0.985:                   # now and then a trace of realistic length
        return int(rng.choice([rng.integers(300, 900), rng.integers(900, 1800), 1024, 2048]))
    if r < 0.15:
        return int(rng.integers(8, 16))
    if r < 0.85 or not big:
        return int(rng.integers(16, 160))
    return int(rng.integers(160, 600))


def gen_fs(rng):
    if rng.random() < 0.15:
        return int(rng.choice([625000, 1000, 1, 48000]))
    return float(rng.choice(FS_CHOICES)) if rng.random() < 0.7 else float(10 ** rng.uniform(0, 6.5))


def pulse(nbins, start, rise, fall):
    t = np.arange(nbins) - start
    p = np.where(t >= 0, np.exp(-np.clip(t, 0, None) / fall) - np.exp(-np.clip(t, 0, None) / rise), 0.0)
    m = np.abs(p).max()
    return p / m if m > 0 else p


def gen_template(rng, nbins):
    kind = rng.choice(["pulse", "pulse", "pulse", "early", "bump", "random", "negative"])
    rise = rng.uniform(0.3, 2.5)
    fall = rise + rng.uniform(0.02, 0.12) * nbins + 0.5
    if kind == "random":
        t = rng.normal(size=nbins)
        return kind, t / np.abs(t).max()
    if kind == "bump":
        x = np.arange(nbins) - nbins // 2
        return kind, np.exp(-0.5 * (x / rng.uniform(1.0, 0.06 * nbins + 1.5)) ** 2)
    if kind == "early":
        return kind, pulse(nbins, int(rng.integers(0, max(1, nbins - 6))), rise, fall)
    p = pulse(nbins, nbins // 2, rise, fall)
    return kind, (-p if kind == "negative" else p)


def gen_psd(rng, nbins, fs):
    f = np.abs(np.fft.fftfreq(nbins, 1 / fs))
    kind = rng.choice(["white", "pink", "roll", "line", "rough"])
    amp = 10 ** rng.uniform(-24, -18) if rng.random() < 0.7 else 10 ** rng.uniform(-3, 3)
    fn = fs / nbins
    if kind == "white":
        p = np.ones(nbins)
    elif kind == "pink":
        p = 1 + rng.uniform(1, 20) / np.maximum(f / fn, 0.5) ** rng.uniform(0.5, 1.5)
    elif kind == "roll":
        p = 0.02 + 1 / (1 + (f / (fs * rng.uniform(0.03, 0.3))) ** 2)
    elif kind == "line":
        p = 1 + 30.0 * (np.abs(f - fn * rng.integers(1, max(2, nbins // 3))) < 0.5 * fn)
    else:
        r = np.exp(rng.normal(size=nbins // 2 + 1))
        idx = np.minimum(np.arange(nbins), nbins - np.arange(nbins))
        p = r[idx]
    p = p * amp
    p[0] *= np.exp(rng.normal())
    return kind, p


def colored(rng, psd, fs):
    """Real noise whose two-sided PSD is `psd` (psd[0] taken finite)."""
    n = len(psd)
    w = rng.normal(size=n)
    return np.fft.ifft(np.fft.fft(w) * np.sqrt(psd * fs)).real


def gen_signal(rng, template, psd, fs, dc=True):
    n = len(template)
    res = 1 / np.sqrt(np.sum(np.abs(np.fft.fft(template) / fs) ** 2 / psd) * fs / n)
    kind = rng.choice(["pulse", "pulse", "noise", "two", "clean", "random", "edge", "neg"])
    noise = colored(rng, psd, fs)
    a = res * 10 ** rng.uniform(0.5, 2.5)
    if kind == "noise":
        s = noise
    elif kind == "two":
        s = noise + a * np.roll(template, rng.integers(n)) + a * rng.uniform(0.3, 1) * np.roll(template, rng.integers(n))
    elif kind == "clean":
        s = a * np.roll(template, rng.integers(n))
    elif kind == "random":
        s = rng.normal(size=n) * a
    elif kind == "edge":
        k = int(rng.choice([n // 2, n // 2 + 1, n - n // 2, n // 2 - 1, 0, 1, n - 1]))
        s = noise * 0.3 + a * np.roll(template, k)
    elif kind == "neg":
        s = noise - a * np.roll(template, rng.integers(n))
    else:
        s = noise + a * np.roll(template, int(rng.integers(-3, 4)))
    if dc and rng.random() < 0.5:
        s = s + rng.normal() * a * rng.choice([1, 30.0])
    r = rng.random()
    if r < 0.06:
        sc = np.abs(s).max()
        s = s.astype(np.float32)
        kind += "-f32"
    elif r < 0.12 and np.abs(s).max() > 50 and np.abs(s).max() < 1e9:
        s = np.rint(s).astype(np.int64)
        kind += "-int"
    return kind, s


class OFRef:
    """Direct evaluation of chi2(amps, delays) and of the whole-bin fits."""

    def __init__(self, signal, template, psd, fs, coupling="AC", integralnorm=False):
        self.n = n = len(template)
        self.fs = fs
        t = np.array(template, float)
        if integralnorm:
            t = t * fs / t.sum()
        self.t = t
        self.w = fs / n / np.array(psd, float)          # df / psd
        self.wfull = self.w.copy()
        if coupling == "AC":
            self.w[0] = 0.0
        self.f = np.fft.fftfreq(n, 1 / fs)
        self.S = np.fft.fft(t) / fs
        self.sig = np.array(signal, float)
        self.V = np.fft.fft(self.sig) / fs
        self.chi0 = float(np.sum(np.abs(self.V) ** 2 * self.w))
        self.norm = float(np.sum(np.abs(self.S) ** 2 * self.w))
        self.ascale = np.sqrt(self.chi0 / self.norm) if self.norm > 0 else 0.0
        self.bins = np.arange(n) - n // 2            # delays, in output order
        self._scan = None

    def chi2(self, *amp_t, base=0.0):
        """Residual with pulses (amp, t0) and constant `base`, straight from the trace."""
        m = self.V.copy()
        for a, t in amp_t:
            m = m - a * self.S * np.exp(-2j * np.pi * self.f * t)
        m[0] -= base * self.n / self.fs
        return float(np.sum(np.abs(m) ** 2 * self.w))

    def chi2_w(self, w, amp_t, base=0.0):
        m = self.V.copy()
        for a, t in amp_t:
            m = m - a * self.S * np.exp(-2j * np.pi * self.f * t)
        m[0] -= base * self.n / self.fs
        return float(np.sum(np.abs(m) ** 2 * w))

    def rolled(self):
        idx = (np.arange(self.n)[None, :] - self.bins[:, None]) % self.n
        return np.fft.fft(self.t[idx], axis=1) / self.fs   # row = delayed template spectrum

    def scan(self, V=None, w=None):
        """amps[k], chi2[k] for every whole-bin delay, each residual formed explicitly."""
        if V is None and w is None:
            if self._scan is None:
                self._scan = self._do_scan(self.V, self.w)
            return self._scan
        return self._do_scan(self.V if V is None else V, self.w if w is None else w)

    def _do_scan(self, V, w):
        R = self.rolled()
        amps = np.real(np.sum(R.conj() * V * w, axis=1)) / np.sum(np.abs(R) ** 2 * w, axis=1)
        chi = np.sum(np.abs(V[None, :] - amps[:, None] * R) ** 2 * w, axis=1)
        return amps, chi

    def chi0_full(self):
        return float(np.sum(np.abs(self.V) ** 2 * self.wfull))

    def joint_baseline(self):
        """Per delay: least squares for (amp, constant) with the full PSD."""
        R = self.rolled()
        w = self.wfull
        one = np.zeros(self.n, complex); one[0] = self.n / self.fs
        c2 = np.sum(np.abs(one) ** 2 * w)
        out_a, out_b, out_c = np.empty(self.n), np.empty(self.n), np.empty(self.n)
        for k in range(self.n):
            A = np.stack([R[k], one], axis=1) * np.sqrt(w)[:, None]
            y = self.V * np.sqrt(w)
            M = np.vstack([A.real, A.imag]); Y = np.concatenate([y.real, y.imag])
            sc = np.linalg.norm(M, axis=0)
            x = np.linalg.lstsq(M / sc, Y, rcond=None)[0] / sc
            out_a[k], out_b[k] = x
            out_c[k] = np.sum((Y - M @ x) ** 2)
        return out_a, out_b, out_c

    def without(self, *pulses, base=0.0):
        V = self.V.copy()
        for a, t in pulses:
            V = V - a * self.S * np.exp(-2j * np.pi * self.f * t)
        V[0] -= base * self.n / self.fs
        return V

    def two_pulse(self):
        """Per delay k: least squares for pulse at 0 plus pulse at k."""
        R = self.rolled()
        z = self.n // 2
        w = np.sqrt(self.w)
        y = self.V * w; Y = np.concatenate([y.real, y.imag])
        a1, a2, chi, cond = (np.empty(self.n) for _ in range(4))
        p0 = R[z] * w; P0 = np.concatenate([p0.real, p0.imag])
        for k in range(self.n):
            pk = R[k] * w; PK = np.concatenate([pk.real, pk.imag])
            if k == z:
                a = P0 @ Y / (P0 @ P0)
                a1[k] = a2[k] = a / 2
                chi[k] = np.sum((Y - a * P0) ** 2); cond[k] = 1
                continue
            M = np.stack([P0, PK], axis=1)
            x, _, _, sv = np.linalg.lstsq(M, Y, rcond=None)
            a1[k], a2[k] = x
            chi[k] = np.sum((Y - M @ x) ** 2)
            cond[k] = (sv[0] / sv[-1]) ** 2 if sv[-1] > 0 else np.inf
        return a1, a2, chi, cond


def window_mask(n, nconstrain=None, outside=False, center=0):
    """Which delay bins (output order, centre bin n//2) a request allows."""
    if nconstrain is None:
        return np.ones(n, bool)
    k = min(int(nconstrain), n)
    lo = n // 2 - k // 2 + center
    i = np.arange(n)
    inside = (i >= lo) & (i < lo + k)
    return ~inside if outside else inside


def parabola_ok(m, tag, ref_chi, ref_amp, cand, fs, t, amp, chi, n, ascale, cscale):
    """(t, amp, chi) must be the vertex of the parabola through one of the
    candidate best bins and its two circular neighbours."""
    best = None
    for k in cand:
        y0, y1, y2 = ref_chi[(k - 1) % n], ref_chi[k], ref_chi[(k + 1) % n]
        a = 0.5 * (y2 - 2 * y1 + y0); b = 0.5 * (y2 - y0)
        if not a > 1e-5 * cscale:
            return None                      # too flat to be decided
        d = -b / (2 * a)
        c = a * d * d + b * d + y1
        z0, z1, z2 = ref_amp[(k - 1) % n], ref_amp[k], ref_amp[(k + 1) % n]
        az = 0.5 * (z2 - 2 * z1 + z0); bz = 0.5 * (z2 - z0)
        aa = az * d * d + bz * d + z1
        err = max(abs(t * fs - (k - n // 2) - d) / 1e-5, abs(c - chi) / (1e-8 * cscale),
                  abs(aa - amp) / (1e-5 * ascale))
        best = err if best is None else min(best, err)
    m.expect(tag, best is not None and best <= 1,
             f"interpolated (t={t}, amp={amp}, chi2={chi}) is not the vertex of the parabola at best bin(s) "
             f"{[int(k) - n // 2 for k in cand]}, misfit ratio {best}")
    return best
