"""Strategies for cases (plain JSON values) and their deterministic interpretation.

Array cases: {"h","w","dt","kind",...,"pts":[[y,x,v]...],"lay"}; build(spec) -> ndarray. The pixel
noise is a hash of the position and a drawn salt, so it is part of the case and needs no RNG."""
import itertools

import numpy as np
from hypothesis import strategies as st

ANGLES = [0, 45, -45, 90]
PERMS = [dict(zip(ANGLES, p)) for p in itertools.permutations(range(4))]


def hash01(salt, n, lane=0):
    """n pseudo-random floats in [0, 1), a pure function of (salt, lane)."""
    with np.errstate(over="ignore"):
        x = np.arange(n, dtype=np.uint64) + np.uint64((salt * 0x9E3779B97F4A7C15 + lane * 0xD1B54A32D192ED03) & (2**64 - 1))
        for sh, mul in ((30, 0xBF58476D1CE4E5B9), (27, 0x94D049BB133111EB)):
            x = (x ^ (x >> np.uint64(sh))) * np.uint64(mul)
        x ^= x >> np.uint64(31)
    return (x >> np.uint64(11)).astype(float) / float(1 << 53)


def hashint(salt, shape, lo, hi, lane=0):
    n = int(np.prod(shape))
    return (lo + np.floor(hash01(salt, n, lane) * (hi - lo + 1))).reshape(shape)


def hashfloat(salt, shape, lo, hi, lane=0):
    n = int(np.prod(shape))
    return (lo + hash01(salt, n, lane) * (hi - lo)).reshape(shape)


def build(s):
    h, w = s["h"], s["w"]
    dt = np.dtype(s.get("dt", "f8"))
    k = s.get("kind", "const")
    y, x = np.mgrid[:h, :w]
    lo, hi = s.get("lo", 0), s.get("hi", 0)
    if k == "const":
        a = np.full((h, w), float(lo))
    elif k == "hash":
        a = hashint(s["salt"], (h, w), lo, hi)
    elif k == "hashf":
        a = hashfloat(s["salt"], (h, w), lo, hi)
    elif k == "fam":
        vals = hashint(s["salt"], (4,), lo, hi)
        a = vals[(y % 2) * 2 + (x % 2)]
    elif k == "ramp":
        span = max(1, (h - 1) * 3 + (w - 1))
        a = lo + np.floor((3 * y + x) * ((hi - lo) / span))
    elif k == "index":  # every pixel different, so that any misplacement shows
        a = (lo + y * w + x).astype(float)
        if dt.kind in "ui":
            a = a % (np.iinfo(dt).max + 1.0) if dt.kind == "u" else a
    elif k == "sparse":
        u = hash01(s["salt"], h * w).reshape(h, w)
        a = np.where(u < 0.25, hashint(s["salt"], (h, w), lo, hi, 1), 0.0)
    else:
        raise ValueError(k)
    for py, px, v in s.get("pts", []):
        a[py % h, px % w] = v
    if dt.kind in "ui":
        info = np.iinfo(dt)
        a = np.clip(a, info.min, info.max)
    elif "exp" in s:  # fractional, tiny or huge values; a power of two keeps the arithmetic exact
        a = a * 2.0 ** s["exp"]
    a = a.astype(dt)
    return layout(a, s.get("lay", "C"))


def layout(a, lay):
    if lay == "F":
        return np.asfortranarray(a)
    if lay == "S":  # a strided view of a larger array
        big = np.full((a.shape[0] * 2, a.shape[1] * 3), 77, dtype=a.dtype)
        big[::2, ::3] = a
        return big[::2, ::3]
    if lay == "N":  # negative strides
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if lay == "B":  # big-endian, as read from FITS
        return a.astype(a.dtype.newbyteorder(">"))
    if lay == "R":
        b = a.copy()
        b.flags.writeable = False
        return b
    return a


DT_ALL = ["f8", "f4", "i4", "i2", "u2", "u1", "i8", "u4"]
WIDE = {"u4": (0, 2**32 - 1), "i4": (-(2**31), 2**31 - 1), "i8": (-(2**44), 2**44), "u2": (0, 65535), "i2": (-32768, 32767),
        "u1": (0, 255), "f8": (-(2**40), 2**40), "f4": (-(2**23), 2**23)}
LO_HI = {"u1": (0, 255), "u2": (0, 65535), "u4": (0, 10**6), "i2": (-32000, 32000), "i4": (-(10**6), 10**6),
         "i8": (-(10**6), 10**6), "f4": (-4096, 4096), "f8": (-4096, 4096)}
salts = st.integers(0, 2**20)


@st.composite
def shapes(draw, step=2, lo=2, hi=24, square=False, big=None):
    """(h, w), multiples of step; square and non-square, sometimes one long side."""
    a = draw(st.integers(-(-lo // step), hi // step)) * step
    if square:
        return a, a
    b = draw(st.integers(-(-lo // step), hi // step)) * step
    mode = draw(st.integers(0, 9))
    if mode == 0:
        b = a
    elif mode == 1 and big:
        b = draw(st.integers(hi // step, big // step)) * step
        if draw(st.booleans()):
            a, b = b, a
    return a, b


@st.composite
def arrays(draw, shape=None, dts=("f8",), positive=False, kinds=None, lo=None, hi=None, lays=("C", "C", "C", "F", "S", "N", "B"),
           npts=3, step=2, maxside=24, minside=2, square=False, big=None, frac=True, exps=(-2, -3, -40, 30), wide=True):
    h, w = draw(shape) if hasattr(shape, "validate") else (shape or draw(shapes(step, minside, maxside, square, big)))
    dt = draw(st.sampled_from(list(dts)))
    l0, h0 = WIDE[dt] if wide and lo is None and hi is None and draw(st.integers(0, 5)) == 0 else LO_HI[dt]
    l = l0 if lo is None else max(lo, l0)
    u = h0 if hi is None else min(hi, h0)
    if positive:
        l = max(l, 1)
    elif lo is None and draw(st.booleans()):
        l = 0
    base = ["hash", "hash", "hash", "fam", "ramp", "index", "sparse", "const"]
    if dt in ("f8", "f4") and frac:
        base += ["hashf", "hashf"]
    if positive:
        base = [b for b in base if b not in ("sparse",)]
    kind = draw(st.sampled_from(kinds or base))
    small = draw(st.booleans())
    if small and u > l + 30:
        u = l + draw(st.integers(0, 30))
    s = dict(h=h, w=w, dt=dt, kind=kind, lo=l, hi=u)
    if kind in ("hash", "hashf", "fam", "sparse"):
        s["salt"] = draw(salts)
    if kind == "const":
        s["lo"] = draw(st.integers(int(l), int(u)))
    k = draw(st.integers(0, npts))
    if k:
        s["pts"] = [
            [draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1)), draw(st.sampled_from([l, u, l + 1, (l + u) // 2] + ([] if positive else [0 if l <= 0 <= u else l])))]
            for _ in range(k)
        ]
    if dt in ("f8", "f4") and exps and frac and draw(st.booleans()):
        s["exp"] = draw(st.sampled_from(list(exps)))
    lay = draw(st.sampled_from(list(lays)))
    if lay != "C":
        s["lay"] = lay
    return s


perms = st.integers(0, 23)


def perm(i):
    return dict(PERMS[i])


def perm_shuffled(i, j):
    """assignment i with the dict's insertion order permuted by j (order must not matter)"""
    items = list(PERMS[i].items())
    order = list(itertools.permutations(range(4)))[j]
    return dict(items[k] for k in order)


def label_array(ctx, s, pre=""):
    ctx.label(pre + s["dt"], pre + s.get("lay", "C"), pre + s["kind"], pre + ("square" if s["h"] == s["w"] else "oblong"))
    if s["h"] == 2 or s["w"] == 2:
        ctx.label(pre + "one-superpixel-side")


# ---------------------------------------------------------------- reference model of the mosaic


def fams(a):
    """the four pixel families, row by row inside the superpixel"""
    a = np.asarray(a, dtype=float)
    return np.stack([a[0::2, 0::2], a[0::2, 1::2], a[1::2, 0::2], a[1::2, 1::2]])


def unfams(f):
    out = np.zeros((f[0].shape[0] * 2, f[0].shape[1] * 2))
    out[0::2, 0::2], out[0::2, 1::2], out[1::2, 0::2], out[1::2, 1::2] = f
    return out


def stokes(a, dic):
    f = fams(a)
    return stokes4(f, dic)


def stokes4(f, dic):
    return np.stack([0.5 * (f[0] + f[1] + f[2] + f[3]), f[dic[0]] - f[dic[90]], f[dic[45]] - f[dic[-45]]])


def m_adjacent(a):
    f = fams(a)
    out = []
    for g in f:
        p = np.pad(g, ((0, 1), (0, 1)), mode="edge")
        o = np.zeros((g.shape[0] * 2, g.shape[1] * 2))
        o[0::2, 0::2] = g
        o[1::2, 0::2] = (p[:-1, :-1] + p[1:, :-1]) / 2
        o[0::2, 1::2] = (p[:-1, :-1] + p[:-1, 1:]) / 2
        o[1::2, 1::2] = (p[:-1, :-1] + p[1:, :-1] + p[:-1, 1:] + p[1:, 1:]) / 4
        out.append(o)
    return np.stack(out)


def m_mean(a):
    return np.stack([np.kron(g, np.ones((2, 2))) / 4 for g in fams(a)])


def m_linear(a, h, w):
    """separable linear interpolation, first to first and last to last sample"""

    def one(v, n):
        v = np.asarray(v, dtype=float)
        m = v.shape[0]
        pos = np.arange(n) * ((m - 1) / (n - 1))
        i = np.minimum(np.floor(pos).astype(int), m - 2)
        t = (pos - i)[:, None]
        return v[i] * (1 - t) + v[i + 1] * t

    return one(one(a, h).T, w).T


def m_spline(a):
    a = np.asarray(a, dtype=float)
    return np.stack([m_linear(g, *a.shape) for g in fams(a)])


DEMOSAIC = {"adjacent": m_adjacent, "mean": m_mean, "spline": m_spline}


def m_rebin(a, n):
    a = np.asarray(a, dtype=float)
    H, W = a.shape[0] // (2 * n), a.shape[1] // (2 * n)
    return unfams([g[: H * n, : W * n].reshape(H, n, W, n).sum(axis=(1, 3)) for g in fams(a)])


def m_shift(a, y, x, missing=0.0):
    a = np.asarray(a, dtype=float)
    out = np.full(a.shape, float(missing))
    h, w = a.shape
    ys, xs = np.arange(h), np.arange(w)
    sy, sx = ys - y, xs - x
    oky, okx = (sy >= 0) & (sy < h), (sx >= 0) & (sx < w)
    if oky.any() and okx.any():
        out[np.ix_(ys[oky], xs[okx])] = a[np.ix_(sy[oky], sx[okx])]
    return out


def m_shift_fam(a, y, x, missing=0.0):
    return unfams([m_shift(g, y, x, missing) for g in fams(a)])


def m_ifov(a):
    out = []
    for g in fams(a):
        o = np.zeros_like(g)
        o[1:, 1:] = (g[1:, 1:] + g[:-1, 1:] + g[1:, :-1] + g[:-1, :-1]) / 4
        out.append(o)
    return unfams(out)


def m_median2(g):
    """third smallest of the 2x2 neighbourhood reaching up and left, edges mirrored (the edge
    sample itself is repeated)"""
    p = np.pad(g, ((1, 0), (1, 0)), mode="symmetric")
    st_ = np.sort(np.stack([p[1:, 1:], p[:-1, 1:], p[1:, :-1], p[:-1, :-1]]), axis=0)
    return st_[2]


def m_clean(a, flags):
    return unfams([np.where(q == 1, m_median2(g), g) for g, q in zip(fams(a), fams(flags))])


def m_dark(a, d):
    return np.maximum(np.asarray(a, dtype=float) - np.asarray(d, dtype=float), 0.0)


def m_flat(a, f):
    a, f = np.asarray(a, dtype=float), np.asarray(f, dtype=float)
    n = f / f.mean()
    return np.where(n != 0, a / np.where(n != 0, n, 1), a)
