"""C29 - C34: hot pixels, thresholds, angle and statistics helpers, header alignment, plots."""
import math
import os
import re
import warnings

import numpy as np
import scipy.ndimage
from astropy.io import fits
from hypothesis import strategies as st

import micropolarray as ml
from vf import gen, util
from vf.c_pixels import ALLDT, IM, MI, TOL, check_params, frozen, mod, same_frozen
from vf.core import Skip, check, close, fail, raises, same, sub
from vf.gen import arrays, build, fams, perms, unfams

# ------------------------------------------------------------------------------------- C29


@st.composite
def clean_case(draw):
    rng = draw(st.sampled_from([(0, 4000), (0, 4000), (-2000, 4000), (-900, -1)]))  # images less a dark or another image too
    a = draw(arrays(dts=ALLDT if rng[1] > 0 else ("f8", "f4", "i4", "i2"), minside=2, maxside=20, lo=rng[0], hi=rng[1]))
    h, w = a["h"], a["w"]
    n = draw(st.integers(0, 6))
    pts = [[draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1)), draw(st.sampled_from([1, 1, 1, 0, 2]))] for _ in range(n)]
    return dict(arr=a, perm=draw(perms), mperm=draw(perms), pts=pts, dense=draw(st.sampled_from([0, 0, 0.2, 0.7, 1.0])), salt=draw(gen.salts),
                mdt=draw(st.sampled_from(["f8", "i4", "u1"])), demo=draw(st.sampled_from([None, None, None, "adjacent", "mean"])))


@sub("C29", "clean", clean_case(), 500, thorough=12000, shards=2,
     rule="any flag map (values other than 1 included) on any image; non-trivial: at least one flagged pixel and one not flagged")
def c29_clean(case, ctx):
    a = build(case["arr"])
    gen.label_array(ctx, case["arr"])
    flags = (gen.hash01(case["salt"], a.size).reshape(a.shape) < case["dense"]) * 1.0
    for y, x, v in case["pts"]:
        flags[y, x] = v
    dic = gen.perm(case["perm"])
    im, fm = MI(a, angle_dic=dic), MI(flags.astype(case["mdt"]), angle_dic=gen.perm(case["mperm"]))
    im.header["OBSERVER"] = "me"
    if case["demo"]:
        im.demosaic(case["demo"])
    f1, f2 = frozen(im), frozen(fm)
    r = im.clean_hot_pixels(fm)
    want = gen.m_clean(a, flags)
    check(type(r) is MI, f"result is {type(r).__name__}")
    same(r.data, want, "cleaned pixels")
    check(r.angle_dic == dic, "orientation assignment")
    check(r.header.get("OBSERVER") == "me", "header entries lost")
    if not case["demo"]:
        check_params(r, dic, gen.stokes(want, dic), "cleaned ")
    same_frozen(im, f1, "source image")
    same_frozen(fm, f2, "flag map")
    ctx.label("demosaiced" if case["demo"] else "")
    ctx.nt((flags == 1).any() and not (flags == 1).all())


@st.composite
def detect_case(draw):
    a = draw(arrays(dts=("f8", "f8", "f4", "i4", "u2", "u1", "i8"), minside=2, maxside=20, lo=1, hi=4000, positive=True))
    h, w = a["h"], a["w"]
    hi = gen.LO_HI[a["dt"]][1]
    pts = [[draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1)), min(hi, draw(st.sampled_from([3, 255, 4095, 10000])))] for _ in range(draw(st.integers(0, 4)))]
    return dict(arr=a, perm=draw(perms), pts=pts, thr=draw(st.sampled_from([None, 0.5, 0.25, 0.1, 0.8, 0.05, 0.0, -0.5])))


@sub("C29", "detect", detect_case(), 500, thorough=12000, shards=2,
     rule="positive images with added bright pixels, all thresholds; non-trivial: at least one pixel over and one under the threshold",
     examples=[dict(arr=dict(h=16, w=16, dt="f8", kind="fam", lo=100, hi=120, salt=4), perm=0, pts=[[5, 6, 4000]], thr=0.5)])
def c29_detect(case, ctx):
    arr = dict(case["arr"])
    arr["pts"] = arr.get("pts", []) + case["pts"]
    a = build(arr)
    if a.min() <= 0:
        raise Skip
    gen.label_array(ctx, arr)
    dic = gen.perm(case["perm"])
    im = MI(a, angle_dic=dic)
    f = frozen(im)
    thr = 100 if case["thr"] is None else case["thr"]
    g = fams(a)
    m = np.stack([gen.m_median2(q) for q in g])
    c = (g - m) / (g + m)
    want = unfams((c > thr) * 1.0)
    unsure = unfams((np.abs(c - thr) < 1e-6) * 1.0) > 0
    if thr in (0.5, 0.25, 0.0, -0.5) and a.dtype.itemsize > 2 and a.dtype.kind != "f":
        unsure[...] = False
    r = ml.get_hot_pixels(im) if case["thr"] is None else ml.get_hot_pixels(im, case["thr"]) if case["perm"] % 2 else ml.get_hot_pixels(im, threshold=case["thr"])
    got = np.asarray(r.data)
    check(got.shape == a.shape, f"map shape {got.shape}")
    same(np.where(unsure, 0, got), np.where(unsure, 0, want), "flag map")
    check(bool(np.all((got == 0) | (got == 1))), "flags other than 0 and 1")
    same_frozen(im, f, "image")
    cleaned = im.clean_hot_pixels(r)
    same(cleaned.data, gen.m_clean(a, got), "image cleaned with the detected map")
    ctx.label(f"threshold {case['thr']}")
    ctx.nt(want.any() and not want.all())


@st.composite
def isolated_case(draw):
    h, w = [2 * draw(st.integers(3, 12)) for _ in range(2)]
    bg = [draw(st.integers(10, 500)) for _ in range(4)]
    n = draw(st.integers(1, 3))
    pts = [[draw(st.integers(0, h // 2 - 1)), draw(st.integers(0, w // 2 - 1)), draw(st.integers(0, 3))] for _ in range(n)]
    return dict(h=h, w=w, bg=bg, pts=pts, f=draw(st.sampled_from([4, 10, 100])), perm=draw(perms), dt=draw(st.sampled_from(["f8", "i4", "u2", "f4"])))


@sub("C29", "isolated", isolated_case(), 300, thorough=5000,
     rule="uniform families with isolated bright pixels (no other within two superpixels in its family), found and removed; every case is non-trivial")
def c29_isolated(case, ctx):
    g = np.stack([np.full((case["h"] // 2, case["w"] // 2), float(b)) for b in case["bg"]])
    clean = unfams(g)
    flags = np.zeros_like(g)
    for y, x, k in case["pts"]:
        if (y, x) == (0, 0) or flags[k, max(0, y - 2) : y + 3, max(0, x - 2) : x + 3].any():
            continue  # in a corner the mirrored neighbourhood is the pixel itself
        if y == 0 or x == 0:
            continue  # on the edge two of the four neighbours are the pixel itself
        g[k, y, x] *= case["f"]
        flags[k, y, x] = 1
    if not flags.any():
        raise Skip
    im = MI(unfams(g).astype(case["dt"]), angle_dic=gen.perm(case["perm"]))
    hot = ml.get_hot_pixels(im, threshold=0.5)
    same(hot.data, unfams(flags), "bright pixels found")
    same(im.clean_hot_pixels(hot).data, clean, "cleaned image")
    ctx.nt()


# ------------------------------------------------------------------------------------- C30


@st.composite
def otsu_case(draw):
    if draw(st.booleans()):
        h, w = draw(st.integers(24, 60)), draw(st.integers(24, 60))
        return dict(h=h, w=w, lo=draw(st.integers(-50, 500) | st.integers(-9000, -3500)), gap=draw(st.integers(200, 3000)), jit=draw(st.sampled_from([0, 1, 5, 20])), cut=draw(st.integers(12, w - 12)),
                    salt=draw(gen.salts), tr=draw(st.booleans()), dt=draw(st.sampled_from(["f8", "i4", "f4", "i8"])))
    rng = draw(st.sampled_from([(0, 4000), (0, 4000), (-2000, 2000), (-900, -1)]))
    return dict(arr=draw(arrays(dts=("f8", "i4", "f4", "i2", "u2", "u1") if rng[1] > 0 else ("f8", "i4", "f4", "i2"), step=1, minside=2, maxside=40, big=60, lo=rng[0], hi=rng[1])))


def intra(v, th):
    up = v >= th
    s = 0.0
    for c in (up, ~up):
        if c.any():
            s += c.mean() * v[c].var()
    return s


@sub("C30", "threshold", otsu_case(), 120, thorough=2500, shards=4,
     rule="two-population images (separation required) and arbitrary images; the objective is recomputed at every candidate; non-trivial: at least 3 different objective values")
def c30(case, ctx):
    two = "arr" not in case
    if two:
        h, w = case["h"], case["w"]
        x = np.arange(w)[None, :]
        a = case["lo"] + np.floor(gen.hash01(case["salt"], h * w).reshape(h, w) * (case["jit"] + 1)) + np.where(x >= case["cut"], case["gap"], 0)
        a = (a.T if case["tr"] else a).astype(case["dt"])
    else:
        a = build(case["arr"])
        gen.label_array(ctx, case["arr"])
    v = scipy.ndimage.rank_filter(a.astype(float), 50, size=10)
    if v.max() - v.min() < 2:
        raise Skip
    keep = a.copy()
    th = ml.auto_threshold(a)
    check(np.ndim(th) == 0 and np.isfinite(th), f"threshold {th!r}")
    cand = np.linspace(v.min() + 1, v.max(), min(a.size, 1000))
    tol = 1e-5 * max(1.0, abs(v).max())
    check(np.min(np.abs(cand - th)) <= tol, f"threshold {th} is none of the candidates {cand[0]}..{cand[-1]}")
    obj = np.array([intra(v, c) for c in cand])
    best = obj.min()
    mine = min(intra(v, th + d) for d in (0, tol, -tol))
    slack = (1e-4 if a.dtype.itemsize <= 4 and a.dtype.kind == "f" else 1e-7) * v.var()
    check(mine <= best + slack, f"threshold {th} gives {mine}, {cand[int(obj.argmin())]} gives {best}")
    if two:
        mid = case["lo"] + case["gap"] / 2
        low, high = v[v < mid].max(), v[v >= mid].min()
        check(low < th <= high, f"threshold {th} does not separate populations up to {low} and from {high}")
    same(a, keep, "input changed")
    ctx.label("two populations" if two else "arbitrary")
    ctx.nt(len(np.unique(np.round(obj, 6))) >= 3)


@sub("C30", "outliers", st.fixed_dictionaries(dict(
    v=st.one_of(st.lists(st.integers(-50, 50), min_size=1, max_size=25), st.lists(st.integers(0, 10**6), min_size=3, max_size=15), st.lists(st.integers(-9, 9).map(lambda k: k * 10**10), min_size=3, max_size=9), st.lists(st.integers(-9**9, -1), min_size=3, max_size=9)),
    s=st.sampled_from([1, 0.5, 0.1]), m=st.sampled_from([None, 1, 2.0, 3, 1.5, 10]), pos=st.booleans(), f4=st.integers(0, 2).map(lambda k: k == 0))), 500, thorough=15000,
     rule="value lists with outliers, ties and repeated values; non-trivial: something kept and something rejected")
def c30_outliers(case, ctx):
    v = np.array(case["v"]) * case["s"] if case["s"] != 1 else np.array(case["v"])
    if case.get("f4") and np.array_equal(v.astype("f4"), v):
        v = v.astype("f4")
    keep = v.copy()
    med = np.median(v)
    d = np.abs(v - med)
    md = np.median(d)
    if md == 0:
        raise Skip
    m = 2.0 if case["m"] is None else case["m"]
    near = np.abs(d - m * md) < 1e-9 * md
    if near.any() and case["s"] != 1:
        raise Skip
    f = mod("processing.image_cleaning").reject_outliers
    r = f(v) if case["m"] is None else f(v, m) if case["pos"] else f(v, m=m)
    same(r, v[d < m * md], "values kept")
    same(v, keep, "input changed")
    ctx.nt(0 < len(r) < len(v))


# ------------------------------------------------------------------------------------- C31

near = st.builds(lambda k, d: 90 * k + d / 10, st.integers(-5, 5), st.integers(-9, 9))
deg = st.one_of(near, st.integers(-40, 40).map(lambda k: 45 * k), st.integers(-40, 40).map(lambda k: 45.0 * k), st.integers(-1000, 1000),
                st.integers(-10**7, 10**7).map(lambda k: k / 1e4), st.floats(-720, 720, allow_nan=False))


@sub("C31", "degrees", st.fixed_dictionaries(dict(v=st.lists(deg, max_size=8), number=st.booleans(), module=st.sampled_from(["", "utils", "polarization_functions"]))), 1200, thorough=30000, shards=1,
     rule="numbers and lists, whole multiples of 45 and odd multiples of 90 preferred; non-trivial: an angle out of range")
def c31_degrees(case, ctx):
    v = list(case["v"])
    if case["number"] and v:
        arg, v = v[0], v[:1]
    else:
        arg = list(v)
    normalize = mod(case["module"]).normalize2pi if case["module"] else ml.normalize2pi
    r = normalize(arg)
    check(isinstance(r, list) and len(r) == len(v), f"result {r!r} for {v}")
    for o, n in zip(v, r):
        eps = 0 if float(o).is_integer() else 1e-9  # rounding may reach the open end
        check(-90 - eps < n <= 90 + eps, f"{o} -> {n} out of (-90, 90]")
        k = (o - n) / 180
        check(abs(k - round(k)) < 1e-9, f"{o} -> {n} is another direction")
        if -90 < o <= 90:
            check(abs(n - o) < 1e-9, f"{o} was in range but became {n}")
    once = list(r)
    same(normalize(list(once)), once, "normalized angles normalized again", None, 1e-9)
    ctx.label("number" if case["number"] else "list", "boundary" if any(o % 180 == 90 for o in v) else "")
    ctx.nt(any(not -90 < o <= 90 for o in v))


@sub("C31", "radians", st.fixed_dictionaries(dict(
    v=st.lists(st.one_of(st.integers(-24, 24).map(lambda k: ["q", k]), st.floats(-40, 40, allow_nan=False).map(lambda x: ["f", x])), min_size=1, max_size=24),
    shape=st.integers(0, 3), lay=st.sampled_from("CFNR"), dt=st.sampled_from(["f8", "f8", "f4"]))), 900, thorough=30000, shards=1,
     rule="arrays of 1 to 3 dimensions, multiples of pi/4 preferred; non-trivial: an angle out of range")
def c31_radians(case, ctx):
    v = np.array([x * np.pi / 4 if k == "q" else x for k, x in case["v"]])
    n = len(v)
    shape = [(n,), (n, 1), (1, n), (2, n // 2, 1) if n % 2 == 0 else (n,)][case["shape"]]
    v = v.reshape(shape).astype(case["dt"])
    if v.ndim == 2:
        v = gen.layout(v, case["lay"])
    keep = v.copy()
    r = np.asarray(ml.normalize2piarray(v))
    check(r.shape == v.shape, f"shape {r.shape}, was {v.shape}")
    eps = 1e-9 if case["dt"] == "f8" else 1e-4
    check(bool(np.all((r > -np.pi / 2 - eps) & (r <= np.pi / 2 + eps))), f"{v.tolist()} -> {r.tolist()} out of range")
    k = (v.astype(float) - r) / np.pi
    check(bool(np.all(np.abs(k - np.round(k)) < eps * 10)), f"{v.tolist()} -> {r.tolist()} changes directions")
    if case["dt"] == "f8":
        ins = (v > -np.pi / 2) & (v <= np.pi / 2)
        same(r[ins], v[ins], "angles in range")
        at = v == -np.pi / 2
        same(r[at], np.full(int(at.sum()), np.pi / 2), "the lower limit itself")
    same(v, keep, "input changed")
    inner = np.abs(r) < np.pi / 2 - eps  # rounding may carry an angle at a limit to the other one
    same(np.asarray(ml.normalize2piarray(r))[inner], r[inner], "normalizing twice", None, eps)
    ctx.nt(bool(np.any((v <= -np.pi / 2) | (v > np.pi / 2))))


# ------------------------------------------------------------------------------------- C32


@st.composite
def stat_case(draw):
    a = draw(arrays(dts=ALLDT, step=1, **draw(st.sampled_from([dict(minside=1, maxside=20)] * 3 + [dict(minside=34, maxside=60)]))))
    return dict(arr=a, off=draw(st.sampled_from([0, 0, 0, 2**30, -(2**40)])), n=draw(st.sampled_from([None, 1, 2, 0, 3, 0.5, -1])), flat=draw(st.booleans()),
                lim=sorted([draw(st.one_of(st.integers(-50, 300), st.sampled_from([0, 0, 0.5, 4000, -4000]))) for _ in range(2)]))


@sub("C32", "statistics", stat_case(), 600, thorough=15000, shards=2,
     rule="arrays of all types; non-trivial: nonzero deviations and something clipped")
def c32(case, ctx):
    a = build(case["arr"])
    gen.label_array(ctx, case["arr"])
    if case["flat"]:
        a = a.ravel()
    if case.get("off") and (a.dtype.kind, a.dtype.itemsize) in (("f", 8), ("i", 8)):  # values far larger than their spread
        a = a + a.dtype.type(case["off"])
        ctx.label("far from 0")
    keep = a.copy()
    v = sorted(float(x) for x in a.ravel())
    N = len(v)
    mean = math.fsum(v) / N
    std = (math.fsum((x - mean) ** 2 for x in v) / N) ** 0.5
    med = lambda s: (s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2
    M = med(v)
    MAD = med(sorted(abs(x - M) for x in v))
    n = 1 if case["n"] is None else case["n"]
    scale = max(map(abs, v))
    tol = (1e-4 if a.dtype.kind == "f" and a.dtype.itemsize == 4 else 1e-12) * (scale + 1) * (1 + abs(n))
    for f, want in (("mean_minus_std", mean - n * std), ("mean_plus_std", mean + n * std), ("median_minus_std", M - n * MAD), ("median_plus_std", M + n * MAD)):
        fn = getattr(ml, f)
        got = fn(a) if case["n"] is None else fn(a, n) if case["flat"] else fn(a, stds_n=n)
        check(np.ndim(got) == 0 and abs(float(got) - want) <= tol, f"{f}({case['n']}) = {got}, expected {want}")
    fix = mod("utils").fix_data
    lo, hi = case["lim"]
    got = fix(a, lo, hi)
    same(got, np.minimum(np.maximum(keep.astype(float), lo), hi).astype(np.result_type(np.float32, keep.dtype) if keep.dtype.kind == "f" else float), "clipped data", None, 1e-3 if a.dtype.itemsize == 4 and a.dtype.kind == "f" else 0)
    inside = (keep >= lo) & (keep <= hi)
    same(np.asarray(got)[inside], keep[inside], "values inside the limits")
    same(a, keep, "input changed")
    ctx.nt(std > 0 and MAD > 0 and not inside.all())


num = st.integers(1, 10**6).map(lambda k: k / 1000)


@sub("C32", "units", st.fixed_dictionaries(dict(dn=st.lists(st.integers(0, 65535) | st.sampled_from([10**6, 2**31, 2**40, 0.5, 12.25, 3000.125, 0.001]), min_size=1, max_size=12), dt=st.sampled_from(["f8", "i8", "u2", "i4", "scalar", "image"]),
                                                 I=num, ti=st.one_of(st.none(), num), td=st.one_of(st.none(), num), arr=st.one_of(st.none(), arrays(dts=("f8", "f4", "i4", "u2", "u1", "i8", "u4"), step=1, minside=1, maxside=44, lo=0, hi=65535, exps=(-2, -3, 20))), k=st.sampled_from([2, 3.5, 10]), pos=st.booleans())),
     500, thorough=15000, rule="signals, exposures and diffuser levels over six decades; every case is non-trivial")
def c32_units(case, ctx):
    x = np.array(case["dn"], dtype="f8")
    if case["dt"] in ("u2", "i4", "i8"):
        x = np.floor(np.minimum(x, 65535.0) if case["dt"] != "i8" else x)
    if case.get("arr"):
        d = build(case["arr"])
        gen.label_array(ctx, case["arr"])
        k = d.copy()
        close(ml.sigma_DN(d), np.sqrt(np.asarray(d, dtype=float) / 6.93), "pixel noise of an image", {1: 1e-2, 2: 1e-3, 4: 1e-6}.get(d.dtype.itemsize, 1e-9))
        same(d, k, "input changed")
    if case["dt"] == "scalar":
        got, want = ml.sigma_DN(case["dn"][0]), np.sqrt(x[0] / 6.93)
    elif case["dt"] == "image":
        d = np.tile(x, (2, 1))
        got, want = ml.sigma_DN(d), np.sqrt(d / 6.93)
    else:
        d = x.astype(case["dt"])
        k = d.copy()
        got, want = ml.sigma_DN(d), np.sqrt(x / 6.93)
        same(d, k, "input changed")
    close(got, want, "pixel noise", 1e-6 if case["dt"] != "u2" else 1e-3)
    kw = {}
    if case["ti"] is not None:
        kw["texp_image"] = case["ti"]
    if case["td"] is not None:
        kw["texp_diffuser"] = case["td"]
    f = lambda I, **k: float(ml.get_Bsun_units(I, k["texp_image"], k["texp_diffuser"]) if case["pos"] and len(k) == 2 else ml.get_Bsun_units(I, **k))
    base = f(case["I"], **kw)
    ti, td = case["ti"] or 1.0, case["td"] or 1.0
    close(base, 0.28 * 1.083e-5 / (ti * (case["I"] / td)), "solar brightness factor", 1e-9)
    k = case["k"]
    close(f(case["I"] * k, **kw), base / k, "with a brighter diffuser", 1e-9)
    close(f(case["I"], **dict(kw, texp_image=ti * k)), base / k, "with a longer image exposure", 1e-9)
    close(f(case["I"], **dict(kw, texp_diffuser=td * k)), base * k, "with a longer diffuser exposure", 1e-9)
    ctx.nt()


# ------------------------------------------------------------------------------------- C33


@st.composite
def align_case(draw):
    a = draw(arrays(dts=("f8", "i4", "u2", "f4", "i2", "u1", "i8"), minside=2, maxside=40, square=True, kinds=["index", "index", "hash", "hash", "fam"], npts=1))
    if draw(st.integers(0, 60)) == 0:
        a = dict(a, **dict.fromkeys("hw", 2 * draw(st.integers(900, 1200))), pts=[])
    elif a["h"] < 12 and draw(st.integers(0, 4)):
        a = dict(a, **dict.fromkeys("hw", a["h"] + 2 * draw(st.integers(6, 30))))
    pos = st.one_of(st.integers(0, 1951), st.integers(0, 1951), st.sampled_from([0, 1, 60, 1900, 1950, 1951]))
    return dict(arr=a, y=draw(pos), x=draw(pos), ps=draw(st.sampled_from([4.3, 2.15, 1.0])), bin=draw(st.sampled_from([None, 1, 2, 4, 8])),
                date=draw(st.sampled_from(["2021-12-11", "2022-01-02"])), time=draw(st.sampled_from(["03:04:05.678", "23:59:59"])), hdr=draw(st.sampled_from(["fits", "dict", "f4", "i2", "i4", "u1", "f8"])),
                seq=draw(st.sampled_from(["list", "tuple"])))


def anti(g):
    return g[::-1, ::-1].T


@sub("C33", "align", align_case(), 500, thorough=12000, shards=2,
     rule="square images of all types with any Sun centre; the position is also followed with a marker; non-trivial: data not symmetric and Sun centre off the anti-diagonal",
     examples=[dict(arr=dict(h=n, w=n, dt="f4", kind="index", lo=0, hi=9), y=919, x=1441, ps=4.3, bin=None, date="2021-12-11", time="03:04:05", hdr="fits", seq="list") for n in (1952, 3904)])
def c33(case, ctx):
    a = build(case["arr"])
    gen.label_array(ctx, case["arr"])
    n = a.shape[0]
    keep = a.copy()

    def header():
        if case["hdr"] in ("fits", "dict"):
            h = fits.Header() if case["hdr"] == "fits" else {}
        else:  # of a file with another pixel type, as after averaging
            h = fits.PrimaryHDU(data=np.zeros(a.shape, dtype=case["hdr"])).header
        for k, v in (("NAXIS1", 7), ("NAXIS2", 8), ("DATE-OBS", case["date"]), ("TIME-OBS", case["time"]), ("OBSERVER", "me")):
            h[k] = v
        if case["y"] % 2:  # left by an earlier processing
            for k, v in (("CRVAL1", 12.5), ("CRVAL2", -3.0), ("CUNIT1", "deg"), ("CUNIT2", "deg"), ("CTYPE1", "RA---TAN"), ("CTYPE2", "DEC--TAN"), ("CROTA2", 33.0), ("CDELT1", 9.0), ("CRPIX1", 5)):
                h[k] = v
        return h

    center = (list if case["seq"] == "list" else tuple)([case["y"], case["x"]])

    def align(d, h):
        if case["bin"] is None:
            return ml.align_keywords_and_data(h, d, center, case["ps"])
        return ml.align_keywords_and_data(h, d, sun_center=center, platescale=case["ps"], binning=case["bin"])

    h, d = align(a, header())
    want = unfams(np.stack([anti(g) for g in fams(keep)]))
    same(d, want, "aligned data")
    same(align(np.array(d), header())[1], keep, "aligned twice")
    same(a, keep, "input data changed")
    check((h["NAXIS1"], h["NAXIS2"]) == (n, n), f"NAXIS {h['NAXIS1']} x {h['NAXIS2']}, data {np.shape(d)}")
    check(h["DATE-OBS"] == case["date"] + "T" + case["time"], f"DATE-OBS {h['DATE-OBS']}")
    check(h["OBSERVER"] == "me", "other header entries")
    b = case["bin"] or 1
    for k in ("CDELT1", "CDELT2"):
        check(abs(h[k] - case["ps"] * b) < 1e-9, f"{k} = {h[k]}, plate scale {case['ps']} x {b}")
    for k, v in (("CRVAL1", 0), ("CRVAL2", 0), ("CUNIT1", "arcsec"), ("CUNIT2", "arcsec"), ("CTYPE1", "HPLN-TAN"), ("CTYPE2", "HPLT-TAN"), ("CROTA2", -9)):
        check(h.get(k) == v, f"{k} = {h.get(k)!r}, expected {v!r}")
    py, px = min(n - 1, int(case["y"] * n / 1952)), min(n - 1, int(case["x"] * n / 1952))
    marker = np.zeros((n, n))
    marker[py, px] = 1
    my, mx = np.argwhere(np.asarray(align(marker, header())[1]) == 1)[0]
    check(abs(h["CRPIX1"] - 1 - mx) <= 2.5 and abs(h["CRPIX2"] - 1 - my) <= 2.5,
          f"CRPIX ({h['CRPIX1']}, {h['CRPIX2']}), the Sun centre pixel went to column {mx + 1}, row {my + 1} (counted from 1)")
    check(case["seq"] == "tuple" or center == [case["y"], case["x"]], "Sun centre argument changed")
    ctx.label(f"binning {case['bin']}", f"header {case['hdr']}")
    ctx.nt(not np.array_equal(want, keep) and abs(py - px) > 2)


# ------------------------------------------------------------------------------------- C34


def planes(ax):
    ims = ax.get_images()
    check(len(ims) == 1, f"{len(ims)} images drawn in one axes")
    return np.ma.filled(np.ma.asarray(ims[0].get_array()).astype(float), np.nan), ims[0]


def shown(ax, want, what, lim=(None, None), extremes=False):
    """drawn data; colour limits as given, otherwise the extremes, or mean and standard deviation, of this plane"""
    got, art = planes(ax)
    want = np.asarray(want, dtype=float)
    same(got, want, what)
    m, d = want.mean(), want.std()
    auto = (want.min(), want.max()) if extremes else (m - d, m + d)
    for n, g, e, x in zip(("lower", "upper"), art.get_clim(), lim, auto):
        check(e is None or g == e, f"{what}: {n} colour limit {g}, given {e}")
        # a scale of no extent is widened by the plotting library
        check(e is not None or not np.isfinite(x) or auto[1] - auto[0] <= 1e-4 * abs(m) or abs(g - x) <= 1e-5 * (abs(m) + d), f"{what}: {n} colour limit {g} for data that give {x}")


def stairs(ax):
    out = []
    for p in ax.patches:
        if hasattr(p, "get_data"):
            s = p.get_data()
            out.append((np.asarray(s.values), np.asarray(s.edges)))
    return out


limit = st.one_of(st.none(), st.integers(-5, 5), st.sampled_from([0, 0, 0.0, 2.5, 100]))


@st.composite
def show_case(draw):
    a = draw(arrays(dts=("f8", "f8", "i4", "u2", "f4", "u1", "i2", "i8"), minside=2, maxside=16, **draw(st.sampled_from([dict(lo=0, hi=4000), dict(lo=-4000, hi=4000), {}]))))
    lo, hi = draw(limit), draw(limit)
    if lo is not None and hi is not None:
        lo, hi = min(lo, hi), max(lo, hi)
        if lo == hi:
            hi = lo + 1
    elif lo is not None:  # a single limit must leave a range to the other, which follows the data
        lo = -(10.0**30)
    elif hi is not None:
        hi = 10.0**30
    hist = {}
    if draw(st.booleans()):
        hist["bins"] = draw(st.sampled_from([1, 5, 16, [0, 10, 100, 5000]]))
    if draw(st.booleans()):
        hist["range"] = draw(st.sampled_from([[0, 4095], [10, 50], [0, 1]]))
    return dict(arr=a, perm=draw(perms), lo=lo, hi=hi, what=draw(st.sampled_from(["show", "plain", "hist", "hist", "plainhist", "with", "params", "param", "single", "demo", "demo"])),
                par=draw(st.sampled_from(["I", "Q", "U", "pB", "AoLP", "DoLP"])), hist=hist, split=draw(st.sampled_from([None, True, False])),
                demo=draw(st.sampled_from([None, None, "adjacent", "mean", "spline"])), demod=draw(st.integers(0, 3)) == 0)


NAMES = ["I", "Q", "U", "pB", "AoLP", "DoLP"]


@sub("C34", "show", show_case(), 260, thorough=4000, shards=6,
     rule="every display function on images of every type and assignment, with and without colour limits (0 included), histogram bins and ranges; "
          "non-trivial: the displayed data are not constant")
def c34(case, ctx):
    import matplotlib.pyplot as plt

    a = build(case["arr"])
    gen.label_array(ctx, case["arr"])
    dic = gen.perm(case["perm"])
    w = case["what"]
    im = IM(a) if w.startswith("plain") else MI(a, angle_dic=dic)
    if "hist" in w and a.dtype.kind == "f":
        a = a.astype("f8")  # single precision bin edges would be rounded one way or another
        im = IM(a) if w.startswith("plain") else MI(a, angle_dic=dic)
    mode = case["demo"] or ("adjacent" if w == "demo" else None)
    if mode == "spline" and min(a.shape) < 4:
        mode = "mean"
    if mode and isinstance(im, MI):
        im.demosaic(mode)
    im.header["OBSERVER"] = "me"
    f = frozen(im)
    kw = {k: v for k, v in (("vmin", case["lo"]), ("vmax", case["hi"])) if v is not None}
    lim = (case["lo"], case["hi"])
    try:
        if w in ("show", "plain"):
            fig, ax = im.show(**kw)
            shown(ax, a, "show", lim, True)
        elif w in ("hist", "plainhist"):
            hk = {k: (np.array(v) if k == "bins" and isinstance(v, list) else v) for k, v in case["hist"].items()}
            sk = {} if case["split"] is None else dict(split_pols=case["split"])
            split = case["split"] is not False and w == "hist"
            if w == "plainhist":
                sk = {}
            fig, ax = im.show_histogram(**sk, **hk)
            got = stairs(ax)
            want = [np.histogram(a, **hk)]
            if split:
                want += [np.histogram(g, **hk) for g in (a[::2, ::2], a[::2, 1::2], a[1::2, ::2], a[1::2, 1::2])]
            check(len(got) == len(want), f"{len(got)} histograms drawn, expected {len(want)}")
            for n, ((gv, ge), (wv, we)) in enumerate(zip(got, want)):
                same(gv, wv, f"histogram {n} counts")
                same(ge, we, f"histogram {n} edges", 1e-9)
            if "range" not in hk and not isinstance(case["hist"].get("bins"), list):
                check(got[0][0].sum() == a.size, "the histogram does not count every pixel once")
        elif w == "with":
            fig, ax, fig2, ax2 = im.show_with_pol_params()
            shown(ax, a, "data figure")
            check(len(np.ravel(ax2)) == 6, "six parameters")
            for n, x, s in zip(NAMES, np.ravel(ax2), f["S"]):
                shown(x, s, n)
        elif w == "params":
            fig, ax = im.show_pol_params()
            check(len(np.ravel(ax)) == 6, "six parameters")
            for n, x, s in zip(NAMES, np.ravel(ax), f["S"]):
                shown(x, s, n)
                check(getattr(im, n).title in x.get_title(), f"{n} is titled {x.get_title()!r}")
        elif w == "param":
            fig, ax = im.show_pol_param(case["par"], **kw)
            shown(ax, f["S"][NAMES.index(case["par"])], case["par"], lim)
            check(getattr(im, case["par"]).title in ax.get_title(), f"{case['par']} is titled {ax.get_title()!r}")
        elif w == "single":
            fig, ax = im.show_single_pol_images(**kw)
            check(len(np.ravel(ax)) == 4, "four orientations")
            g = [a[::2, ::2], a[::2, 1::2], a[1::2, ::2], a[1::2, 1::2]]
            for ang, x in zip((0, 45, 90, -45), np.ravel(ax)):
                shown(x, g[dic[ang]], f"orientation {ang}", lim, True)
                t = re.match(r"\s*(-?\d+)", x.get_title())
                check(t and int(t.group(1)) == ang, f"orientation {ang} is titled {x.get_title()!r}")
        elif w == "demo":
            fig, ax = im.show_demo_images(**kw)
            check(len(np.ravel(ax)) == 4, "four images")
            for n, x in enumerate(np.ravel(ax)):
                shown(x, f["demo"][n], f"demosaiced image {n}", lim)
                t = re.search(r"(-?\d+)\s*$", x.get_title())
                check(t and dic[int(t.group(1))] == n, f"demosaiced image {n} is titled {x.get_title()!r} with assignment {dic}")
        check(hasattr(fig, "get_axes") and ax is not None, "figure and axes returned")
        same_frozen(im, f, "after showing, image")
        same(a, build(case["arr"]).astype(a.dtype), "after showing, input array")
    finally:
        plt.close("all")
    ctx.label(w, "limits" if kw else "", "demosaiced" if mode and isinstance(im, MI) else "")
    ctx.nt(a.min() != a.max())


@st.composite
def show_demod_case(draw):
    return dict(H=draw(st.integers(1, 5)), W=draw(st.integers(1, 5)), salt=draw(gen.salts), lo=draw(limit), hi=draw(st.sampled_from([None, 6, 7.5])))


@sub("C34", "calibration", show_demod_case(), 40, thorough=400, shards=2,
     rule="stored calibrations shown as 12 planes; every case is non-trivial")
def c34_calibration(case, ctx):
    import matplotlib.pyplot as plt

    m = gen.hashfloat(case["salt"], (3, 4, case["H"], case["W"]), -1, 1)
    d = util.demodulator(os.path.join(ctx.tmp, "cal"), m)
    kw = {k: v for k, v in (("vmin", case["lo"]), ("vmax", case["hi"])) if v is not None}
    if case["lo"] is not None and case["lo"] >= (case["hi"] if case["hi"] is not None else 1):
        raise Skip
    keep = np.array(d.mij)
    try:
        fig, ax = d.show(**kw)
        check(np.shape(ax) == (3, 4), f"axes {np.shape(ax)}")
        for i in range(3):
            for j in range(4):
                shown(ax[i, j], keep[i, j], f"matrix element {i}{j}", [v if v is not None else u for v, u in ((case["lo"], -1), (case["hi"], 1))])
        same(d.mij, keep, "calibration changed")
    finally:
        plt.close("all")
    ctx.nt()
