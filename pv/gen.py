"""Sample generators for declared inputs (shared by the symbolic sampler and the concrete replayer)."""
import numpy as np, zlib


def rng_for(seed, name):
    return np.random.default_rng([seed & 0x7fffffff, zlib.crc32(name.encode())])


def real(rng, K, lo, hi, prev, special=True):
    v = rng.uniform(lo, hi, K)
    if special:
        r = rng.random(K)
        ints = rng.integers(int(np.ceil(lo)), max(int(np.floor(hi)), int(np.ceil(lo))) + 1, K).astype(float)
        ints = np.clip(ints, lo, hi)
        v = np.where(r < 0.15, ints, v)
        if lo <= 0 <= hi:
            v = np.where((r >= 0.15) & (r < 0.23), 0.0, v)
        v = np.where((r >= 0.23) & (r < 0.25), lo, v)
        v = np.where((r >= 0.25) & (r < 0.27), hi, v)
        if prev:
            pick = rng.integers(0, len(prev), K)
            tie = np.stack(prev)[pick, np.arange(K)]
            sg = np.where(rng.random(K) < 0.3, -1.0, 1.0)
            t = tie * sg
            ok = (r >= 0.27) & (r < 0.37) & (t >= lo) & (t <= hi)
            v = np.where(ok, t, v)
    return v


def integer(rng, K, lo, hi):
    return rng.integers(lo, hi + 1, K).astype(float)


def unit(rng, K, n):
    v = rng.normal(size=(n, K))
    r = rng.random(K)
    # axis-aligned and sparse directions
    ax = rng.integers(0, n, K)
    e = np.zeros((n, K))
    e[ax, np.arange(K)] = np.where(rng.random(K) < 0.5, -1.0, 1.0)
    v = np.where(r < 0.1, e, v)
    z = rng.integers(0, n, K)
    w = v.copy()
    w[z, np.arange(K)] = 0.0
    v = np.where((r >= 0.1) & (r < 0.25), w, v)
    s = np.sign(v)
    s[:, np.abs(s).sum(axis=0) == 0] = 1.0
    v = np.where((r >= 0.25) & (r < 0.3), s, v)
    nn = np.sqrt((v * v).sum(axis=0))
    bad = nn < 1e-9
    v[0, bad] = 1.0
    nn = np.sqrt((v * v).sum(axis=0))
    return v / nn
