"""C43: calls that are refused leave everything as it was."""
import os

import numpy as np
from hypothesis import strategies as st

import micropolarray as ml
from micropolarray.processing.chen_wan_liang_calibration import calculate_chen_wan_lian_calibration
from vf import gen, util
from vf.c_calib import Rig, rig
from vf.c_files import inside, subdirs, tree
from vf.c_pixels import IM, MI, frozen, same_frozen
from vf.core import check, raises, same, sub
from vf.gen import perms

ANY = (Exception,)
BAD_NAMES = ["o", "o.fit", "o.FITS", "o.fits.gz", "new/o", "new/deep/o.txt", "o.raw", "new/o.fits/x", "sub"]
BAD = ["rebin", "demosaic", "matrices", "dark", "flat", "arith", "save", "save-single", "save-param", "save-all", "save-demosaiced", "save-early", "unknown-param", "raw", "new-dark", "new-file", "assign"]
GOOD = ["demosaic", "dark", "flat", "demodulate", "rebin", "add", "rotate", "congrid", "save", "assign"]

steps = st.lists(st.one_of(
    st.tuples(st.just("bad"), st.sampled_from(BAD), st.integers(0, 9), st.integers(0, 10**6)),
    st.tuples(st.just("bad"), st.sampled_from(BAD), st.integers(0, 9), st.integers(0, 10**6)),
    st.tuples(st.just("good"), st.sampled_from(GOOD), st.integers(0, 9), st.integers(0, 10**6))), min_size=1, max_size=9)


def good(im, op, k, salt, D, folder, tag):
    """one valid operation; returns the image to go on with"""
    h, w = im.data.shape
    other = lambda lo=0: MI(gen.hashint(salt, (h, w), lo, 50 + 100 * k, 5), angle_dic=dict(im.angle_dic))
    if op == "demosaic":
        return im.demosaic(["mean", "adjacent"][k % 2])
    if op == "dark":
        return im.subtract_dark(other())
    if op == "flat":
        return im.correct_flat(other(1))
    if op == "demodulate":
        return im.demodulate(D, demosaicing=bool(k % 2)) if D.mij.shape[2:] == (h // 2, w // 2) else im
    if op == "rebin":
        return im.rebin(1)
    if op == "add":
        return im + other()
    if op == "rotate":
        return im.rotate(float(90 * (k % 4)))
    if op == "congrid":
        return im.congrid(h, w) if min(h, w) > 2 else im
    if op == "assign":
        im.data = gen.hashint(salt, (h, w), 0, 999, 6)
        return im
    im.save_as_fits(os.path.join(folder, tag, "good.fits"))
    return im


def bad(im, op, k, salt, ctx):
    """(exceptions, call, extra objects that must not change) of one invalid call"""
    h, w = im.data.shape
    name = os.path.join(ctx.tmp, "x", BAD_NAMES[k % len(BAD_NAMES)])
    sizes = [(h + 2, w), (h, w + 2), (h + 2, w + 2), (2 * h, 2 * w)]
    oh, ow = sizes[k % 4]
    other = MI(gen.hashint(salt, (oh, ow), 1, 60, 7), angle_dic=dict(im.angle_dic))
    fix = [None, [0, 10]][k % 2]
    if op == "rebin":
        n = [0, -1, -2, -100][k % 4]
        return ValueError, lambda: im.rebin(n), []
    if op == "demosaic":
        m = ["", "Mean", "median", "none", "adjacent ", "linear"][k % 6]
        return ValueError, lambda: im.demosaic(m), []
    if op == "matrices":
        D = util.demodulator(os.path.join(ctx.tmp, f"bad{k}_{salt}"), np.ones((3, 4, oh // 2, ow // 2)), np.ones((oh // 2, ow // 2)) if salt % 2 else None)
        return ValueError, lambda: im.demodulate(D, demosaicing=bool(k % 2)), []
    if op == "dark":
        return ANY, lambda: im.subtract_dark(other), [other]
    if op == "flat":
        return ANY, lambda: im.correct_flat(other), [other]
    if op == "new-dark":
        a = im.data.copy()
        src = [MI(a, angle_dic=dict(im.angle_dic)), im][salt % 2]
        good_one = MI(np.ones((h, w)), angle_dic=dict(im.angle_dic))
        return ANY, lambda: MI(src, angle_dic=dict(im.angle_dic), dark=good_one if k % 2 else other, flat=other), [other, good_one, src]
    if op == "new-file":
        names = [["missing.fits"], [], ["a.raw"], ["here.fits", "missing.fits"], ["here.fits", "big.fits"], ["here.fits", "a.raw"], ["text.fits"]][k % 7]
        paths = [os.path.join(ctx.tmp, "x", n) for n in names]
        return (NameError if not paths or paths[-1].endswith(".raw") else ANY), lambda: [MI, IM][salt % 2](list(paths)), []
    if op == "arith":
        f = [lambda: im + other, lambda: im - other, lambda: im * other, lambda: im / other][salt % 4]
        return ANY, f, [other]
    if op == "assign":
        v = [np.ones((2, h, w)), np.ones(h * w), np.float64(3.0), np.ones((1, 2, 3, 4))][k % 4]

        def assign():
            im.data = v

        return ANY, assign, []
    if op == "save":
        return ValueError, lambda: im.save_as_fits(name, fix), []
    if op == "save-single":
        return ValueError, lambda: im.save_single_pol_images(name, fix), []
    if op == "save-param":
        return ValueError, lambda: im.save_param_as_fits(["I", "Q", "U", "pB", "AoLP", "DoLP"][salt % 6], name, fix), []
    if op == "save-all":
        return ValueError, lambda: im.save_all_pol_params_as_fits(name), []
    if op == "save-demosaiced":
        return ValueError, lambda: im.save_demosaiced_images_as_fits(name, fix), []
    if op == "save-early":
        fresh = MI(im.data, angle_dic=dict(im.angle_dic))
        return ValueError, lambda: fresh.save_demosaiced_images_as_fits(os.path.join(ctx.tmp, "x", "new", "o.fits"), fix), [fresh]
    if op == "unknown-param":
        p = ["S0", "i", "dolp", "V", "Stokes"][k % 5]
        return AttributeError, lambda: im.save_param_as_fits(p, os.path.join(ctx.tmp, "x", "new", "o.fits")), []
    n = ["o.fits", "o", "o.RAW", "o.raw.x", "sub"][k % 5]
    return ValueError, lambda: im.save_as_raw(os.path.join(ctx.tmp, "x", n)), []


@sub("C43", "images", st.fixed_dictionaries(dict(h=st.integers(1, 5), w=st.integers(1, 5), perm=perms, salt=gen.salts, dt=st.sampled_from(["f8", "u2", "i2", "f4"]),
     src=st.sampled_from(["array", "file"]), steps=steps)), 350, shards=4, thorough=4000,
     rule="histories of valid operations with refused calls in between (bad sizes, modes, bins, names, parameters, arrays, file lists), beside a twin image that sees the valid "
          "ones only; non-trivial: at least two refused calls, one of them followed by a valid one")
def c43_images(case, ctx):
    h, w, salt = 2 * case["h"], 2 * case["w"], case["salt"]
    dic = gen.perm(case["perm"])
    a = gen.hashint(salt, (h, w), 0, 3000, 1).astype(case["dt"])
    x = os.path.join(ctx.tmp, "x")
    os.makedirs(os.path.join(x, "sub"))
    util.write_fits(os.path.join(x, "here.fits"), a)
    util.write_fits(os.path.join(x, "big.fits"), np.ones((h + 2, w + 4)))
    util.write_fits(os.path.join(x, "o.fits"), np.full((2, 2), 7.0))
    for n in ("a.raw", "o.raw", "o", "text.fits"):
        with open(os.path.join(x, n), "w") as f:
            f.write("not an image")
    D = util.demodulator(os.path.join(ctx.tmp, "cal"), gen.hashint(salt, (3, 4, h // 2, w // 2), -5, 5, 2))
    start = lambda: MI(os.path.join(x, "here.fits") if case["src"] == "file" else a.copy(), angle_dic=dict(dic))
    im, twin = start(), start()
    im.header["OBSERVER"] = twin.header["OBSERVER"] = "me"
    refused, after = 0, False
    for n, (kind, op, k, s) in enumerate(case["steps"]):
        what = f"step {n} ({op} {k} {s})"
        if kind == "good":
            im, twin = good(im, op, k, s, D, ctx.tmp, "im"), good(twin, op, k, s, D, ctx.tmp, "twin")
            after = after or refused > 0
            continue
        err, call, extra = bad(im, op, k, s, ctx)
        keep, keeps, t, d = frozen(im), [frozen(e) for e in extra], tree(ctx.tmp), subdirs(ctx.tmp)
        with inside(x):
            raises(err, call, what)
        ctx.label(op)
        refused += 1
        same_frozen(im, keep, what + ": image after the refused call")
        for e, f in zip(extra, keeps):
            same_frozen(e, f, what + ": argument of the refused call")
        check(tree(ctx.tmp) == t, what + f": files changed by a refused call: {sorted(set(tree(ctx.tmp)) ^ set(t))}")
        check(subdirs(ctx.tmp) == d, what + f": folders made by a refused call: {sorted(set(subdirs(ctx.tmp)) - set(d))}")
    ctx.nt(refused > 1 and after)
    same_frozen(im, frozen(twin), "image that saw refused calls, compared with one that did not:")
    good(im, "save", 0, 0, D, ctx.tmp, "im"), good(twin, "save", 0, 0, D, ctx.tmp, "twin")
    t = tree(ctx.tmp)
    check(t["im/good.fits"] == t["twin/good.fits"], "files saved of the two differ")


RAW = ["convert-name", "convert-short", "convert-missing", "merge-name", "merge-short", "merge-missing", "average-short", "set-name", "set-short", "set-missing"]


@sub("C43", "frames", st.fixed_dictionaries(dict(h=st.integers(1, 6), w=st.integers(1, 6), salt=gen.salts, old=st.booleans(), good=st.integers(0, 3),
     what=st.lists(st.tuples(st.sampled_from(RAW), st.integers(0, 99)), min_size=1, max_size=4))), 250, shards=2, thorough=2500,
     rule="conversions of raw frames that are too short, missing or wrongly named, before, between or after good frames, with and without an older output; then a valid conversion; every case non-trivial")
def c43_frames(case, ctx):
    h, w, salt = case["h"], case["w"], case["salt"]
    px = gen.hashint(salt, (h, w), 0, 4095, 1).astype("<u2")
    p = lambda *n: os.path.join(ctx.tmp, *n)
    for n in range(3):
        with open(p(f"g{n}.raw"), "wb") as f:
            f.write((px + n).astype("<u2").tobytes())
    ctx.nt()
    for what, k in case["what"]:
        ctx.label(what)
        with open(p("short.raw"), "wb") as f:
            f.write(px.tobytes()[: (k % (2 * px.size))])
        if case["old"]:
            for n in ("short.fits", "o.fits", "g0.fits"):
                util.write_fits(p(n), np.full((2, 3), 4.0))
        names = [p(f"g{i}.raw") for i in range(case["good"])]
        names.insert(k % (len(names) + 1), p("none.raw" if what.endswith("missing") else "short.raw"))
        if what.startswith("convert"):
            src = {"name": "o.fits", "short": "short.raw", "missing": "none.raw"}[what[8:]]
            call = lambda: ml.convert_rawfile_to_fits(p(src), h, w, remove_old=bool(k % 2))
        elif what.startswith("set"):
            out = p(["o.bin", "o", "new/o.raw"][k % 3] if what == "set-name" else "o.fits")
            call = lambda: ml.convert_set(list(names), out, 1952, 1952)
        else:
            f = ml.average_rawfiles_to_fits if what.startswith("average") else ml.merge_rawfiles_to_fits
            good_ones = [p("g0.raw"), p("g1.raw")]
            call = (lambda: f(good_ones, p(["o.raw", "o", "new/o.bin"][k % 3]), h, w)) if what == "merge-name" else (lambda: f(list(names), p("o.fits"), h, w))
        t, d = tree(ctx.tmp), subdirs(ctx.tmp)
        raises(ValueError if what.endswith("name") and not (what == "convert-name" and not case["old"]) else ANY, call, f"{what} {k}")
        check(tree(ctx.tmp) == t, f"{what} {k}: files changed by a refused call: {sorted(n for n in set(tree(ctx.tmp)) | set(t) if tree(ctx.tmp).get(n) != t.get(n))}")
        check(subdirs(ctx.tmp) == d, f"{what} {k}: folders made by a refused call")
    ml.convert_rawfile_to_fits(p("g1.raw"), h, w)
    same(util.read_primary(p("g1.fits"))[0], px + 1.0, "frame converted after refused calls")


CAL = ["angles", "grid", "missing-file", "other-size", "dark-size", "flat-missing", "text"]


@sub("C43", "calibrations", st.fixed_dictionaries(dict(rig, h=st.integers(1, 3), w=st.integers(1, 3), angles=st.just([0, 45, 90, -45]), kind=st.sampled_from(["tensor", "tensor", "cwl"]), old=st.booleans(),
     what=st.lists(st.tuples(st.sampled_from(CAL), st.integers(0, 3)), min_size=1, max_size=3, unique_by=lambda x: x[0]))), 60, shards=4, thorough=500,
     rule="computing calibrations with missing angles, impossible grids, absent, unreadable or differently sized files, into new folders or those of an older calibration, which stays; "
          "then a valid one; non-trivial: an older calibration was there")
def c43_calibrations(case, ctx):
    R = Rig(case, ctx)
    out = os.path.join(ctx.tmp, "cal")
    if case["old"]:
        util.write_tensor(out, gen.hashint(case["salt"], (3, 4, R.h // 2, R.w // 2), -9, 9, 3), np.ones((R.h // 2, R.w // 2)))
        for i in range(4):
            for j in range(4):
                util.write_fits(f"{out}/C{i}{j}.fits", np.full((R.h, R.w), 3.0))
        util.write_fits(f"{out}/transmittancies.fits", np.full((R.h, R.w), 0.5))
    ctx.nt(case["old"])
    files = R.write()
    big = util.write_fits(os.path.join(ctx.tmp, "big.fits"), np.ones((R.h + 2, R.w + 4)))
    text = os.path.join(ctx.tmp, "text.fits")
    with open(text, "w") as f:
        f.write("no image")

    def compute(folder, files, angles, grid=(1, 1), **kw):
        if case["kind"] == "cwl":
            return calculate_chen_wan_lian_calibration(list(angles), list(files), list(R.nominal), folder, occulter=False, **kw)
        if angles == R.angles:
            kw["normalizing_S"] = R.S
        return ml.calculate_demodulation_tensor(list(angles), list(files), list(R.nominal), 2.6, folder, procs_grid=list(grid), **kw)

    if case["kind"] == "cwl":
        R.nominal = [-45 if a == 135 else a for a in R.nominal]
    for what, k in case["what"]:
        f, a, kw = list(files), list(R.angles), {}
        if what == "angles":
            a[k] = 33
        elif what == "grid":
            if case["kind"] == "cwl":
                a = a + [30]
            else:
                kw["grid"] = (R.h, 1) if k % 2 else (1, R.w + 1)
        elif what == "missing-file":
            f[k] = os.path.join(ctx.tmp, "none.fits")
        elif what == "other-size":
            f[k] = big
        elif what == "text":
            f[k] = text
        elif what == "dark-size":
            kw["dark_filename"] = big
        else:
            kw["flat_filename"] = os.path.join(ctx.tmp, "none.fits")
        ctx.label(f"{case['kind']} {what}")
        t = tree(ctx.tmp)
        raises(ValueError if what in ("angles", "grid") else ANY, lambda: compute(out, f, a, **kw), f"{case['kind']} calibration, {what} {k}")
        check(tree(ctx.tmp) == t, f"{what} {k}: files changed by the refused calibration: {sorted(n for n in set(tree(ctx.tmp)) | set(t) if tree(ctx.tmp).get(n) != t.get(n))}")
    compute(out, files, R.angles)
    compute(os.path.join(ctx.tmp, "fresh"), files, R.angles)
    t = tree(ctx.tmp)
    new = sorted(n[6:] for n in t if n.startswith("fresh/"))
    check(len(new) > 12, f"calibration files {new}")
    for n in new:
        if n.endswith(".fits"):
            same(util.read_primary(os.path.join(out, n))[0], util.read_primary(os.path.join(ctx.tmp, "fresh", n))[0], f"{n} after refused calls")


@sub("C43", "demodulators", st.fixed_dictionaries(dict(h=st.integers(1, 4), w=st.integers(1, 4), salt=gen.salts, flags=st.booleans(), missing=st.lists(st.integers(0, 11), min_size=1, max_size=3, unique=True),
     steps=st.lists(st.tuples(st.sampled_from(["open-missing", "open-empty", "open-incomplete", "use-other-size", "covariance", "use"]), st.integers(0, 9)), min_size=2, max_size=6))), 120, shards=2, thorough=1500,
     rule="a calibration in use while others are refused: absent, empty and incomplete folders, images of other sizes; non-trivial: used again after a refused call")
def c43_demodulators(case, ctx):
    h, w, salt = case["h"], case["w"], case["salt"]
    M = gen.hashint(salt, (3, 4, h, w), -9, 9, 1)
    F = gen.hashint(salt, (h, w), 0, 1, 2) if case["flags"] else None
    D = util.demodulator(os.path.join(ctx.tmp, "cal"), M, F)
    os.makedirs(os.path.join(ctx.tmp, "empty"))
    util.write_tensor(os.path.join(ctx.tmp, "half"), M + 1, F, order=[k for k in range(12) if k not in case["missing"]])
    cov = os.path.join(ctx.tmp, "cal", "covariance_tensor")
    os.makedirs(cov)
    util.write_fits(os.path.join(cov, "C00.fits"), np.ones((2 * h, 2 * w)))
    dic = gen.perm(salt % 24)
    t, d = tree(ctx.tmp), subdirs(ctx.tmp)
    refused = False
    for n, (op, k) in enumerate(case["steps"] + [("use", 0)]):
        what = f"step {n} ({op} {k})"
        if op.startswith("open"):
            folder = {"open-missing": "none", "open-empty": "empty", "open-incomplete": "half"}[op]
            raises((FileNotFoundError, ValueError), lambda: ml.Demodulator(os.path.join(ctx.tmp, folder)), what)
        elif op == "covariance":
            raises(ANY, lambda: D.Cij, what)
        elif op == "use-other-size":
            im = MI(gen.hashint(salt, (2 * h + 2 * (k % 2), 2 * w + 2 + 2 * (k % 3)), 0, 99, k), angle_dic=dic)
            keep = frozen(im)
            raises(ValueError, lambda: im.demodulate(D, demosaicing=k % 4 == 0), what)
            same_frozen(im, keep, what + ": image")
        else:
            a = gen.hashint(salt, (2 * h, 2 * w), 0, 999, 10 + k)
            r = MI(a, angle_dic=dic).demodulate(D)
            S = util.m_demodulate(gen.fams(a), M)
            if F is not None:
                S = np.where(F == 1, S, gen.stokes(a, dic))
            same([r.I.data, r.Q.data, r.U.data], S, what + ": demodulation", 1e-10)
            ctx.nt(refused)
            continue
        refused = True
        ctx.label(op)
    check((tree(ctx.tmp), subdirs(ctx.tmp)) == (t, d), "files or folders changed")
