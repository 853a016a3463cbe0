"""C42: computing the Chen-Wan-Liang calibration."""
import os

import numpy as np
from hypothesis import strategies as st

import micropolarray as ml
from micropolarray.processing.chen_wan_liang_calibration import calculate_chen_wan_lian_calibration
from vf import gen, util
from vf.core import check, close, raises, same, sub
from vf.gen import fams, unfams

NOMINALS = [list(d) for d in ([0, 45, -45, 90], [90, -45, 45, 0], [45, 0, 90, -45], [-45, 90, 0, 45], [0, 90, 45, -45])]


def m_correct(images, dark, flat, occulted=None):
    """dark- and flat-corrected images, in float"""
    if flat is not None:
        if dark is not None:
            flat = flat - dark
            flat = np.where(flat > 0, flat, 1.0)
            if occulted is not None:
                flat = np.where(occulted, 1.0, flat)
        n = flat / flat.max()
        if occulted is not None:
            n = np.where(occulted, 1.0, n)
    out = []
    for a in images:
        if dark is not None:
            a = np.maximum(a - dark, 0.0)
        if flat is not None:
            a = np.where(n != 0, a / np.where(n != 0, n, 1.0), a)
        out.append(a)
    return out


def ideal(nominal):
    p = np.deg2rad(np.array(nominal, dtype=float))
    return 0.5 * np.stack([np.ones(4), np.cos(2 * p), np.sin(2 * p)], axis=1)


def m_cwl(images, nominal):
    """matrices (4, 4, h, w) and offsets (4, h, w): means over the images of the least-norm ones.

    P = [W d] (S0, S1, S2, 1): the least-norm solution is P s^T / |s|^2, of rank one, whose
    pseudo-inverse is s W^T / (|W|^2 |s|^2)."""
    k = {a: i for i, a in enumerate(nominal)}
    C, D = 0.0, 0.0
    for a in images:
        P = fams(a)
        S = np.stack([P[k[0]] + P[k[90]], P[k[0]] - P[k[90]], P[k[45]] - P[k[-45]]])
        s2, p2 = np.sum(S**2, axis=0), np.sum(P**2, axis=0)
        D = D + P / (1 + s2)
        with np.errstate(all="ignore"):
            C = C + np.where(s2 * p2 > 0, np.einsum("ik,kyx,jyx->ijyx", ideal(nominal), S, P) * (1 + s2) / (p2 * s2), 0.0)
    return C / len(images), D / len(images)


def stored(folder):
    names = sorted(f"C{i}{j}.fits" for i in range(4) for j in range(4)) + ["d_ij.fits"]
    check(sorted(os.listdir(folder)) == names, f"files in the calibration folder: {sorted(os.listdir(folder))}")
    C = np.array([[util.read_primary(f"{folder}/C{i}{j}.fits")[0] for j in range(4)] for i in range(4)])
    return C, util.read_primary(f"{folder}/d_ij.fits")[0]


def compare(folder, images, nominal, what, tol=1e-9):
    C, D = stored(folder)
    h, w = images[0].shape
    check(C.shape == (4, 4, h, w) and D.shape == (h, w), f"{what}: shapes {C.shape}, {D.shape}")
    eC, eD = m_cwl(images, nominal)
    for i in range(4):
        for j in range(4):
            same(C[i, j], np.kron(eC[i, j], np.ones((2, 2))), f"{what}: C{i}{j}", tol, 1e-12)
    same(D, unfams(eD), f"{what}: offsets", tol, 1e-12)
    return C, D


@st.composite
def cwl_case(draw):
    extra = draw(st.lists(st.sampled_from([-90, -60, -30, 10, 22.5, 30, 60, 135, 0, 45]), max_size=2))
    n = 4 + len(extra)
    return dict(h=draw(st.integers(1, 4)), w=draw(st.integers(1, 4)), salt=draw(gen.salts), nominal=draw(st.integers(0, len(NOMINALS) - 1)), extra=extra,
                dt=draw(st.sampled_from(["f8", "f8", "u2", "i2", "f4", "i4"])), hi=draw(st.sampled_from([3, 200, 4000, 30000])), dark=draw(st.sampled_from([None, None, "low", "high", "f8"])),
                flat=draw(st.sampled_from([None, None, "f8", "u2", "zeros"])), order=draw(st.permutations(range(n))), occulter=draw(st.booleans()),
                pattern=draw(st.sampled_from([None, None, None, "same"])), path=draw(st.sampled_from(["cal", "a/b", "cal.v1", "there"])), dead=draw(st.booleans()))


@sub("C42", "compute", cwl_case(), 160, thorough=2500, shards=3,
     rule="stored images of any pixel type at all needed and additional angles, in any order, with and without dark (also brighter than the image), flat (also with "
          "zeros) and occulter, into new, nested and existing folders; non-trivial: at least two superpixels, or images that all show one pattern")
def c42_compute(case, ctx):
    h, w, salt, nominal = 2 * case["h"], 2 * case["w"], case["salt"], NOMINALS[case["nominal"]]
    angles = [0, 45, 90, -45] + case["extra"]
    raw = [gen.hashint(salt, (h, w), 0, case["hi"], 10 + (0 if case["pattern"] else k)) for k in range(len(angles))]
    if case["dead"]:
        raw = [np.where(gen.hash01(salt, h * w, 3).reshape(h, w) < 0.2, 0.0, r) for r in raw]
    dark = flat = None
    kw = dict(occulter=case["occulter"])
    ctx.label(case["dt"], f"dark-{case['dark']}", f"flat-{case['flat']}", "one pattern" if case["pattern"] else None, "occulter" if case["occulter"] else None)
    ctx.nt(h * w > 4 or case["pattern"])
    files = [util.write_fits(os.path.join(ctx.tmp, f"i{k}.fits"), r.astype(case["dt"])) for k, r in enumerate(raw)]
    if case["dark"]:
        dark = gen.hashint(salt, (h, w), 0, case["hi"] // (1 if case["dark"] == "high" else 10), 30)
        kw["dark_filename"] = util.write_fits(os.path.join(ctx.tmp, "dark.fits"), dark.astype("f8" if case["dark"] == "f8" else case["dt"]))
    if case["flat"]:
        flat = gen.hashint(salt, (h, w), 0 if case["flat"] == "zeros" else 1, 9, 31) * max(1, case["hi"] // 4)
        flat[0, 0] = max(1, case["hi"])
        flat = np.minimum(flat, 60000 if case["flat"] == "u2" else 1e9)
        kw["flat_filename"] = util.write_fits(os.path.join(ctx.tmp, "flat.fits"), flat.astype("u2" if case["flat"] == "u2" else "f8"))
    out = os.path.join(ctx.tmp, case["path"])
    if case["path"] == "there":
        os.makedirs(out)
        for i in range(4):
            util.write_fits(f"{out}/C{i}{i}.fits", np.full((h, w), 55.0))
        util.write_fits(f"{out}/d_ij.fits", np.full((2 * h, w), 55.0))
    calculate_chen_wan_lian_calibration([angles[k] for k in case["order"]], [files[k] for k in case["order"]], list(nominal), out, **kw)
    images = m_correct(raw, dark, flat)
    C, D = compare(out, images, nominal, "calibration")
    if case["pattern"]:  # the stored calibration makes this pattern ideal
        P = fams(images[0])
        k = {a: i for i, a in enumerate(nominal)}
        S = np.stack([P[k[0]] + P[k[90]], P[k[0]] - P[k[90]], P[k[45]] - P[k[-45]]])
        want = np.where(np.sum(S**2, axis=0) * np.sum(P**2, axis=0) > 0, np.einsum("ik,kyx->iyx", ideal(nominal), S), 0.0)
        r = ml.chen_wan_liang_calibration(images[0], out)
        same(r, gen.m_ifov(unfams(want)), "the calibration pattern, calibrated", 1e-7)


@sub("C42", "refuse", st.fixed_dictionaries(dict(missing=st.sampled_from([None, 0, 45, 90, -45]), count=st.sampled_from([-1, 0, 0, 1]), salt=gen.salts)), 40, thorough=80,
     rule="lists without one of the four orientations, or not as long as the file list; non-trivial: every refused case")
def c42_refuse(case, ctx):
    angles = [a for a in (0, 45, 90, -45, 30) if a != case["missing"]]
    files = [util.write_fits(os.path.join(ctx.tmp, f"i{k}.fits"), gen.hashint(case["salt"], (4, 4), 0, 99, k)) for k in range(len(angles) + case["count"])]
    out = os.path.join(ctx.tmp, "cal")
    call = lambda: calculate_chen_wan_lian_calibration(list(angles), list(files), [0, 45, -45, 90], out)
    if case["missing"] is None and case["count"] == 0:
        call()
        stored(out)
        return
    ctx.nt()
    raises(ValueError, call, f"angles {angles} for {len(files)} files")
    check(not os.path.exists(out), "folder written although refused")


@sub("C42", "changed", st.fixed_dictionaries(dict(h=st.integers(1, 3), w=st.integers(1, 3), salt=gen.salts, nominal=st.integers(0, len(NOMINALS) - 1), dark=st.booleans(), flat=st.booleans(), n=st.integers(2, 3))), 50, thorough=600, shards=2,
     rule="2..3 measurements under the same names, each overwriting the files of the one before, stored in the same folder and applied to the same array after each; non-trivial: every case")
def c42_changed(case, ctx):
    h, w, nominal = 2 * case["h"], 2 * case["w"], NOMINALS[case["nominal"]]
    out = os.path.join(ctx.tmp, "cal")
    data = gen.hashint(case["salt"], (h, w), 1, 500, 90)
    ctx.nt()
    for n in range(case["n"]):
        salt = case["salt"] + 17 * n
        raw = [gen.hashint(salt, (h, w), 1, 4000, k) for k in range(4)]
        files = [util.write_fits(os.path.join(ctx.tmp, f"i{k}.fits"), r) for k, r in enumerate(raw)]
        kw = dict(occulter=False)
        dark = flat = None
        if case["dark"]:
            dark = gen.hashint(salt, (h, w), 0, 300, 8)
            kw["dark_filename"] = util.write_fits(os.path.join(ctx.tmp, "dark.fits"), dark)
        if case["flat"]:
            flat = gen.hashint(salt, (h, w), 1, 9, 9)
            kw["flat_filename"] = util.write_fits(os.path.join(ctx.tmp, "flat.fits"), flat)
        calculate_chen_wan_lian_calibration([0, 45, 90, -45], files, list(nominal), out, **kw)
        C, D = compare(out, m_correct(raw, dark, flat), nominal, f"calibration {n + 1}")
        for k in range(2):
            eC = C[:, :, ::2, ::2]
            want = np.einsum("ijyx,jyx->iyx", eC, fams(data) - fams(D))
            same(ml.chen_wan_liang_calibration(data, out), gen.m_ifov(unfams(want)), f"array calibrated by calibration {n + 1}", 1e-7)
            data[...] = gen.hashint(salt, (h, w), 1, 500, 91 + k)


@sub("C42", "occulter", st.fixed_dictionaries(dict(salt=gen.salts, dark=st.booleans())), 1, thorough=4, hang=600,
     rule="an image reaching into the camera's occulted area, whose flat is not applied there; non-trivial: every case")
def c42_occulter(case, ctx):
    y0, x0, r0 = ml.PolarCam().occulter_pos_last
    h, w, nominal = 546, 568, [0, 45, -45, 90]
    yy, xx = np.mgrid[:h, :w]
    raw = [np.tile(gen.hashint(case["salt"], (20, 2), 1, 4000, k), (28, 284))[:h] for k in range(4)]
    flat = gen.hashint(case["salt"], (h, w), 300, 1000, 7).astype(float)
    kw = dict(flat_filename=util.write_fits(os.path.join(ctx.tmp, "flat.fits"), flat))
    dark = None
    if case["dark"]:
        dark = np.full((h, w), 7.0)
        kw["dark_filename"] = util.write_fits(os.path.join(ctx.tmp, "dark.fits"), dark)
    files = [util.write_fits(os.path.join(ctx.tmp, f"i{k}.fits"), r) for k, r in enumerate(raw)]
    r = np.hypot(yy - y0, xx - x0)
    occ = fams(r <= r0 + 10).any(axis=0)
    check(bool(occ.any()), "occulter outside the test image")
    occulted = np.kron(occ, np.ones((2, 2))) > 0
    ctx.nt()
    ctx.label("dark" if case["dark"] else None)
    calculate_chen_wan_lian_calibration([0, 45, -45, 90], files, nominal, os.path.join(ctx.tmp, "cal"), **kw)
    compare(os.path.join(ctx.tmp, "cal"), m_correct(raw, dark, flat, occulted), nominal, "calibration")
