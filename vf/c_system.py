"""C37-C40: guarantees that span the parts - files, locality, the whole chain, threads."""
import glob
import os
import shutil
import sys
import threading
import time

import numpy as np
from hypothesis import strategies as st

import micropolarray as ml
from micropolarray.processing.chen_wan_liang_calibration import calculate_chen_wan_lian_calibration
from vf import c_cwl, gen, util
from vf.c_calib import NOMINAL, Rig, divisors, rig
from vf.c_files import inside, tree
from vf.c_images import op
from vf.c_pixels import IM, MI, frozen, same_frozen
from vf.core import check, fail, same, sub
from vf.gen import arrays, build, fams, perms, unfams

# ------------------------------------------------------------------------------------- C37

idx, rel = st.integers(0, 5), st.booleans()
FILE_OPS = [
    op("load", rel=rel), op("load"), op("load_plain", rel=rel), op("load_list", j=idx, avg=st.booleans()), op("load_corrected", j=idx), op("open"), op("open"), op("demodulate", j=idx), op("demodulate", j=idx),
    op("convert", rel=rel, gone=st.integers(0, 3).map(lambda k: k == 0)), op("convert", rel=rel, gone=st.just(False)), op("merge", mode=st.sampled_from(["sum", "average"]), rel=rel), op("chen"),
    op("read", what=st.sampled_from(["tk", "eff", "phi", "Cij", "angle_dic"])), op("read", what=st.sampled_from(["tk", "eff", "phi", "Cij"])), op("go", to=st.sampled_from(["", "here", "in", "out"])),
    op("half"), op("save_raw", rel=rel), op("rewrite_raw", how=st.sampled_from(["in-place", "new"])),
    op("change", how=st.sampled_from(["pixels", "header", "ifov", "mask", "demosaic", "dark", "stokes"])), op("change", how=st.sampled_from(["pixels", "stokes", "header"])),
    op("change_cal", how=st.sampled_from(["matrix", "flags", "flip", "turn"])), op("save", fix=st.booleans(), rel=rel), op("save", fix=st.booleans(), rel=rel),
    op("export", what=st.sampled_from(["params", "param", "single", "demosaiced"]), rel=rel),
    op("rewrite", how=st.sampled_from(["in-place", "new", "gone"])), op("rewrite_cal", how=st.sampled_from(["in-place", "new", "gone"])), op("errors"), op("calibrate", dark=st.booleans(), flat=st.booleans()),
    op("chen_calibrate", dark=st.booleans(), flat=st.booleans(), rel=rel),
]
PARAMS = ["tk", "eff", "phi", "Cij"]
FILE_OPS += [  # steps that only tell something one after another
    st.tuples(op("open"), op("read", what=st.sampled_from(PARAMS)), op("rewrite_cal", how=st.just("in-place"))), st.tuples(op("read", what=st.sampled_from(PARAMS)), op("rewrite_cal", how=st.just("in-place"))),
    st.tuples(op("half"), op("save_raw", rel=rel), op("save_raw", rel=rel)), st.tuples(op("half"), op("save", fix=st.just(False), rel=rel), op("save", fix=st.just(False), rel=rel)),
    st.tuples(op("convert", rel=rel, gone=st.just(False)), op("rewrite_raw", how=st.just("new")), op("convert", rel=rel, gone=st.just(False))),
]


@sub("C37", "history", st.fixed_dictionaries(dict(
        h=st.integers(2, 4), w=st.integers(2, 4), salt=gen.salts, perm=perms, dts=st.lists(st.sampled_from(["f8", "f4", "i2", "i4", "u2", "u2", "u1"]), min_size=3, max_size=3),
        flags=st.booleans(), start=st.integers(0, 3).map(lambda k: int(k > 0)), cov=st.integers(0, 2).map(lambda k: k == 0), big=st.integers(0, 3).map(lambda k: k == 0), ops=st.lists(st.one_of(*FILE_OPS), min_size=8, max_size=16))), 320, thorough=3500, shards=8,
     rule="histories of loading, correcting, calibrating, demodulating, converting, exporting and changing things in memory over a folder of images, raw frames and calibrations, whose "
          "files are also rewritten in place, replaced or deleted by others; after every step the whole folder tree and everything loaded before is compared; non-trivial: "
          "something loaded was changed, or its file was, and at least one more step follows")
def c37(case, ctx):
    h, w, salt, dic = case["h"], case["w"], case["salt"], gen.perm(case["perm"])
    if case["big"]:
        h, w = 8 * h, 8 * w  # files of more than one memory page
    root = os.path.join(ctx.tmp, "w")
    for d in ("in", "out", "here"):
        os.makedirs(os.path.join(root, d))
    P = lambda *n: os.path.join(root, *n)
    sh = (2 * h, 2 * w)
    contents = {}

    def put(k, turn=0, how="new"):
        a = gen.hashint(salt, sh, 1, 250 if case["dts"][k] == "u1" else 4000, 10 * turn + k).astype(case["dts"][k])
        if how == "in-place" and os.path.exists(P("in", f"i{k}.fits")):
            util.write_fits(P("swap.fits"), a, dict(EXPTIME=turn + 1))
            new = open(P("swap.fits"), "rb").read()
            os.remove(P("swap.fits"))
            with open(P("in", f"i{k}.fits"), "r+b") as f:
                f.write(new)
        else:
            util.write_fits(P("in", f"i{k}.fits"), a, dict(EXPTIME=turn + 1))
        contents[k] = a

    def put_cal(k, turn=0, how="new"):
        mij = gen.hashint(salt, (3, 4, h, w), -5, 5, 100 + 10 * turn + k)
        fl = gen.hashint(salt, (h, w), 0, 1, 200 + 10 * turn + k) if case["flags"] else None
        par = dict(tk=gen.hashfloat(salt, sh, 0.3, 0.9, 300 + 10 * turn + k), eff=gen.hashfloat(salt, sh, 0.3, 0.9, 400 + 10 * turn + k),
                   phi=unfams([np.full((h, w), float(n)) for n in np.roll([0, 45, -45, 90], turn)]) + gen.hashfloat(salt, sh, -2, 2, 500 + 10 * turn + k))
        if case["cov"]:
            par["Cij"] = gen.hashfloat(salt, (3, 3) + sh, -1, 1, 600 + 10 * turn + k)

        def write(folder):
            util.write_tensor(folder, mij, fl)
            for n, name in (("tk", "transmittancies"), ("eff", "efficiences"), ("phi", "phases")):
                util.write_fits(os.path.join(folder, name + ".fits"), par[n])
            if case["cov"]:
                os.makedirs(os.path.join(folder, "covariance_tensor"), exist_ok=True)
                for i in range(3):
                    for j in range(3):
                        util.write_fits(os.path.join(folder, "covariance_tensor", f"C{i}{j}.fits"), par["Cij"][i, j])

        if how == "in-place":
            write(P("swap"))
            for n in tree(P("swap")):
                new = open(P("swap", n), "rb").read()
                os.makedirs(os.path.dirname(P(f"cal{k}", n)), exist_ok=True)
                with open(P(f"cal{k}", n), "r+b" if os.path.exists(P(f"cal{k}", n)) else "wb") as f:
                    f.write(new)
            shutil.rmtree(P("swap"))
        else:
            write(P(f"cal{k}"))
        cals[k] = (mij, fl, par)

    cals = {}
    for k in range(3):
        put(k)
    put_cal(0), put_cal(1)
    raws = [gen.hashint(salt, sh, 0, 65535, 50 + k).astype("<u2") for k in range(2)]
    for k, r in enumerate(raws):
        r.tofile(P("in", f"r{k}.raw"))
    util.write_fits(P("in", "dark.fits"), gen.hashint(salt, sh, 0, 5, 60))
    util.write_fits(P("in", "flat.fits"), gen.hashint(salt, sh, 1, 9, 61))
    os.makedirs(P("chen"))
    for i in range(4):
        for j in range(4):
            util.write_fits(P("chen", f"C{i}{j}.fits"), np.full(sh, float(i == j)))
    util.write_fits(P("chen", "d_ij.fits"), gen.hashint(salt, sh, 0, 3, 62))
    ims, snap, D, dsnap, held, dpath = [], [], [], [], [], []
    N = lambda o, *n: os.path.relpath(P(*n)) if o.get("rel") else P(*n)
    written = lambda *n: util.read_primary(P(*n))[0]
    touched, turn = False, 0
    names = []
    with inside(P("here")):
        before = tree(root)
        for o in [dict(op="load", i=case["salt"] % 3), dict(op="open", i=case["salt"] % 2)] * case["start"] + [x for o in case["ops"] for x in (o if isinstance(o, (list, tuple)) else [o])]:
            name, i = o["op"], o["i"]
            allowed, gone, changed, changed_cal = set(), set(), None, None
            new = None
            if touched:
                ctx.nt()
            if name in ("load", "load_plain", "load_corrected"):
                k = i % 3
                if k not in contents:
                    continue
                if name == "load":
                    new = MI(N(o, "in", f"i{k}.fits"), angle_dic=dic)
                elif name == "load_plain":
                    new = IM(N(o, "in", f"i{k}.fits"))
                else:
                    new = MI(P("in", f"i{k}.fits"), angle_dic=dic, dark=MI(P("in", "dark.fits"), angle_dic=dic), flat=MI(P("in", "flat.fits"), angle_dic=dic) if o["j"] % 2 else None)
                if name != "load_corrected":
                    same(new.data, np.asarray(contents[k], dtype=float), f"pixels of i{k}.fits")
            elif name == "load_list":
                ks = [k for k in (i % 3, o["j"] % 3) if k in contents]
                if not ks:
                    continue
                new = MI([P("in", f"i{k}.fits") for k in ks], angle_dic=dic, averageimages=o["avg"])
                total = sum(np.asarray(contents[k], dtype=float) for k in ks)
                same(new.data, total / len(ks) if o["avg"] else total, f"pixels of {ks}", 1e-6)
            elif name == "go":
                os.chdir(P(o["to"]) if o["to"] else root)
            elif name == "read":
                if not D:
                    continue
                k = i % len(D)
                if dpath[k] not in cals or (o["what"] == "Cij" and not case["cov"]):
                    continue
                v = getattr(D[k], o["what"])
                if o["what"] == "angle_dic":
                    v, p = [v[n] for n in (0, 45, -45, 90)], cals[dpath[k]][2]["phi"]
                    # nominal angle of every family, -90 and 90 being the same
                    near = [int(np.argmin([abs((m - n + 90) % 180 - 90) for n in (0, 45, -45, 90)])) for m in fams(p).mean(axis=(1, 2))]
                    check([near[x] for x in v] == [0, 1, 2, 3], f"orientation assignment of cal{dpath[k]}: {v}")
                else:
                    same(v, cals[dpath[k]][2][o["what"]], f"{o['what']} of cal{dpath[k]}")
                    held.append((v, np.array(v), f"{o['what']} read from calibration {k}"))
            elif name == "half":
                if not ims or min(np.shape(ims[i % len(ims)].data)) < 8:
                    continue
                new = ims[i % len(ims)].rebin(2)
            elif name == "open":
                k = i % 2
                if k not in cals:
                    continue
                D.append(ml.Demodulator(P(f"cal{k}")))
                dpath.append(k)
                same(D[-1].mij, cals[k][0], f"matrices of cal{k}")
                dsnap.append((np.array(D[-1].mij), None if D[-1].fit_found_flags is None else np.array(D[-1].fit_found_flags)))
            elif name in ("demodulate", "errors"):
                good = [x for x in ims if isinstance(x, MI)]
                if not good or not D:
                    continue
                im, d = good[i % len(good)], D[o.get("j", i) % len(D)]
                if im.demosaiced_images is not None or (2 * d.mij.shape[2], 2 * d.mij.shape[3]) != np.shape(im.data):
                    continue
                if name == "errors":
                    ml.MicropolImageError(im, np.ones(sh), d)
                else:
                    new = im.demodulate(d)
            elif name == "convert":
                k = i % 2
                if not os.path.exists(P("in", f"r{k}.raw")):
                    continue
                ml.convert_rawfile_to_fits(N(o, "in", f"r{k}.raw"), *sh, remove_old=o["gone"])
                allowed = {f"in/r{k}.fits"}
                gone = {f"in/r{k}.raw"} if o["gone"] else set()
                same(written("in", f"r{k}.fits"), raws[k], f"converted r{k}.raw")
            elif name == "merge":
                if not all(os.path.exists(P("in", f"r{k}.raw")) for k in range(2)):
                    continue
                ml.merge_rawfiles_to_fits([N(o, "in", "r0.raw"), N(o, "in", "r1.raw")], N(o, "out", "m.fits"), *sh, mode=o["mode"])
                allowed = {"out/m.fits"}
                total = raws[0].astype(float) + raws[1]
                same(written("out", "m.fits"), total if o["mode"] == "sum" else total / 2, "merged raw frames", 1e-12)
            elif name == "rewrite_raw":
                k = i % 2
                turn += 1
                raws[k] = gen.hashint(salt, sh, 0, 65535, 50 + 10 * turn + k).astype("<u2")
                with open(P("in", f"r{k}.raw"), "r+b" if o["how"] == "in-place" and os.path.exists(P("in", f"r{k}.raw")) else "wb") as f:
                    f.write(raws[k].tobytes())
                before = tree(root)
            elif name == "save_raw":
                if not ims:
                    continue
                im = ims[i % len(ims)]
                if not (np.all(np.isfinite(im.data)) and np.min(im.data) >= -32768 and np.max(im.data) <= 32767):
                    continue
                im.save_as_raw(N(o, "out", "s.raw"))
                allowed = {"out/s.raw"}
                check(open(P("out", "s.raw"), "rb").read() == np.asarray(im.data).astype("int16").tobytes(), f"saved raw file of an image of size {np.shape(im.data)}: its bytes are not the pixels as 16-bit integers")
            elif name == "chen":
                k = i % 3
                if k not in contents:
                    continue
                ml.chen_wan_liang_calibration(contents[k].astype(float), P("chen"))
            elif name == "chen_calibrate":
                if case["big"] or len(contents) < 3:
                    continue
                fs = [P("in", f"i{k % 3}.fits") for k in range(4)]
                kw = {}
                if o["dark"]:
                    kw["dark_filename"] = P("in", "dark.fits")
                if o["flat"]:
                    kw["flat_filename"] = P("in", "flat.fits")
                calculate_chen_wan_lian_calibration([0, 45, 90, -45], fs, [0, 45, -45, 90], N(o, "out", "newchen"), **kw)
                allowed = {f"out/newchen/{n}.fits" for n in ["d_ij"] + [f"C{i}{j}" for i in range(4) for j in range(4)]}
                images = c_cwl.m_correct([contents[k % 3].astype(float) for k in range(4)], util.read_primary(P("in", "dark.fits"))[0] if o["dark"] else None, util.read_primary(P("in", "flat.fits"))[0] if o["flat"] else None)
                c_cwl.compare(P("out", "newchen"), images, [0, 45, -45, 90], "Chen-Wan-Liang calibration of the present files")
            elif name == "change":
                if not ims:
                    continue
                k = i % len(ims)
                im, how = ims[k], o["how"]
                if how == "pixels":
                    im.data[0, 0] += 1
                    im.data[...] = im.data[::-1].copy()
                elif how == "header":
                    im.header["EXPTIME"] = 99
                elif not isinstance(im, MI):
                    continue
                elif how == "ifov":
                    im.correct_ifov()
                elif how == "mask":
                    im.mask_occulter(y=2, x=2, r=2)
                elif how == "demosaic":
                    im.demosaic()
                elif how == "dark":
                    if np.shape(im.data) != sh:
                        continue
                    im.subtract_dark(MI(P("in", "dark.fits"), angle_dic=dic))
                else:
                    im.I.data[0, 0] += 1
                changed, touched = k, True
            elif name == "change_cal":
                if not D:
                    continue
                k = i % len(D)
                if o["how"] == "matrix":
                    D[k].mij[0, 0] += 1
                elif o["how"] == "flip":
                    D[k].flip(0)
                elif o["how"] == "turn":
                    D[k].rot90(2)
                elif D[k].fit_found_flags is None:
                    continue
                else:
                    D[k].fit_found_flags[...] = 1 - D[k].fit_found_flags
                changed_cal, touched = k, True
            elif name == "save":
                if not ims:
                    continue
                im = ims[i % len(ims)]
                im.save_as_fits(N(o, "out", "s.fits"), **(dict(fixto=[5, 60]) if o["fix"] else {}))
                allowed = {"out/s.fits"}
                same(written("out", "s.fits"), np.clip(np.asarray(im.data, dtype=float), 5, 60) if o["fix"] else im.data, "saved image", 1e-6)
            elif name == "export":
                good = [x for x in ims if isinstance(x, MI)]
                if not good:
                    continue
                im = good[i % len(good)]
                if o["what"] == "params":
                    im.save_all_pol_params_as_fits(N(o, "out", "e.fits"))
                    planes = {f"_{p}": getattr(im, p).data for p in ("I", "Q", "U", "pB", "AoLP", "DoLP")}
                elif o["what"] == "param":
                    im.save_param_as_fits("pB", N(o, "out", "e.fits"))
                    planes = {"_pB": im.pB.data}
                elif o["what"] == "single":
                    im.save_single_pol_images(N(o, "out", "e.fits"))
                    planes = {f"_POL{p}": fams(im.data)[im.angle_dic[p]] for p in gen.ANGLES}
                elif im.demosaiced_images is None:
                    continue
                else:
                    im.save_demosaiced_images_as_fits(N(o, "out", "e.fits"))
                    planes = {f"_POL{p}": im.demosaiced_images[im.angle_dic[p]] for p in gen.ANGLES}
                allowed = {f"out/e{p}.fits" for p in planes}
                for p, v in planes.items():
                    same(written("out", f"e{p}.fits"), v, f"exported file e{p}.fits ({o['what']})", 1e-6)
            elif name == "rewrite":  # somebody else changes a file
                k = i % 3
                turn += 1
                if o["how"] == "gone" and k in contents:
                    os.remove(P("in", f"i{k}.fits"))
                    del contents[k]
                else:
                    put(k, turn, o["how"])
                touched |= bool(ims)
                before = tree(root)
            elif name == "rewrite_cal":
                k = i % 2
                turn += 1
                if o["how"] == "gone" and k in cals:
                    shutil.rmtree(P(f"cal{k}"))
                    del cals[k]
                else:
                    put_cal(k, turn, o["how"])
                touched |= bool(D)
                before = tree(root)
            elif name == "calibrate":
                if case["big"] or "calibrate" in names:
                    continue
                mk = lambda a: 500 * (1 + 0.8 * np.cos(2 * np.deg2rad(unfams([np.full((h, w), float(n)) for n in (0, 45, -45, 90)]) - a)))
                fs = [util.write_fits(P("in", f"c{a}.fits"), mk(a) + (5 if o["dark"] else 0)) for a in (0, 45, 90, -45)]
                before = tree(root)
                kw = {}
                if o["dark"]:
                    kw["dark_filename"] = P("in", "dark.fits")
                if o["flat"]:
                    kw["flat_filename"] = P("in", "flat.fits")
                Rig.calibrate(type("R", (), dict(ctx=type("X", (), dict(tmp=P("out"))), S=1000.0, angles=[0, 45, 90, -45], nominal=[0, 45, -45, 90]))(), "newcal", fs, **kw)
                allowed = {n for n in tree(root) if n.startswith("out/newcal/")}
            names.append(name)
            ctx.label(name + (":" + o["how"] if "how" in o else ""))
            what = " > ".join(names[-4:])
            after = tree(root)
            check(set(before) - set(after) == gone, f"{what}: files gone: {sorted(set(before) - set(after))}")
            check(set(after) - set(before) <= allowed, f"{what}: unexpected new files {sorted(set(after) - set(before) - allowed)}")
            bad = [n for n in before if n in after and after[n] != before[n] and n not in allowed]
            check(not bad, f"{what}: files changed: {bad}")
            before = after
            for k, im in enumerate(ims):
                if k != changed:
                    same_frozen(im, snap[k], f"{what}: loaded image {k}:")
            for k, d in enumerate(D):
                if k != changed_cal:
                    same(d.mij, dsnap[k][0], f"{what}: matrices of opened calibration {k}")
                    if dsnap[k][1] is not None:
                        same(d.fit_found_flags, dsnap[k][1], f"{what}: fit flags of opened calibration {k}")
            for v, v0, where in held:
                same(v, v0, f"{what}: {where}")
            if changed is not None:
                snap[changed] = frozen(ims[changed])
            if changed_cal is not None:
                d = D[changed_cal]
                dsnap[changed_cal] = (np.array(d.mij), None if d.fit_found_flags is None else np.array(d.fit_found_flags))
            if new is not None:
                ims.append(new)
                snap.append(frozen(new))


# ------------------------------------------------------------------------------------- C38


def sp(mask):
    """superpixels with a marked pixel"""
    return np.any(fams(mask), axis=0)


def px(mask):
    return np.kron(mask, np.ones((2, 2), bool)).astype(bool)


def support(n, m, k):
    """samples of m interpolated points that may depend on sample k of n"""
    c = np.linspace(0, n - 1, m)
    return np.abs(c - k) <= 1 + 1e-6


@st.composite
def local_case(draw):
    o = draw(st.sampled_from(["params", "rebin", "shift", "adjacent", "mean", "ifov", "demodulate", "demodulate-full", "dark", "flat", "clean", "detect", "arith", "arith-second", "mask", "roi", "nrgf",
                              "congrid", "chen", "error", "rebin-plain", "rotate", "align", "save", "sum-files"]))
    arr = draw(arrays(dts=("f8", "f8", "f4"), minside=4, maxside=16, lo=1, hi=4000, kinds=["hash", "hashf", "fam", "const"], square=o == "align", lays=("C", "C", "F", "S", "N", "B") if o not in ("align",) else ("C",)))
    arr.pop("pts", None)
    return dict(arr=arr, op=o, y=draw(st.integers(0, arr["h"] - 1)), x=draw(st.integers(0, arr["w"] - 1)), perm=draw(perms), salt=draw(gen.salts), n=draw(st.integers(1, 3)),
                sy=draw(st.integers(-4, 4)), sx=draw(st.integers(-4, 4)), a=draw(st.sampled_from([0, 90, 180, 30, 45.5, -9])), o=draw(st.sampled_from("+-*/")),
                v=draw(st.sampled_from(["nan", "nan", "nan", "inf", "-inf", "big", "zero", "more"])))


VALUES = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "big": 1e12, "zero": 0.0, "more": 4321.0}


@sub("C38", "one_pixel", local_case(), 1400, thorough=30000, shards=4,
     rule="every processing operation run twice, the second time with one pixel replaced by NaN, an infinity, a huge, zero or ordinary value: results may differ only where they are "
          "defined from that pixel, and sums that contain a NaN pixel are NaN; non-trivial: some result differs and some does not")
def c38(case, ctx):
    a = np.array(build(case["arr"]))
    gen.label_array(ctx, case["arr"])
    a = gen.layout(a, case["arr"].get("lay", "C"))
    o, y, x, dic, salt, n = case["op"], case["y"], case["x"], gen.perm(case["perm"]), case["salt"], case["n"]
    v = VALUES[case["v"]]
    if o in ("clean", "detect") and not np.isfinite(v):
        v = 4321.0
    ctx.label(o, case["v"])
    b = np.array(a)
    b[y, x] = v
    b = gen.layout(b, case["arr"].get("lay", "C"))
    h, w = a.shape
    e = np.zeros((h, w))
    e[y, x] = 1
    own, S1 = e != 0, sp(e != 0)
    mij = gen.hashint(salt, (3, 4, h // 2, w // 2), 1, 5)
    exact = {}  # results whose every marked entry must be NaN when the pixel is

    def params(im, mask, sums=True):
        out = {"I": (im.I.data, mask)}
        if sums:
            exact["I"] = mask
        for p, n_ in zip(im.polparam_list[1:], ("Q", "U", "pB", "AoLP", "DoLP")):
            out[n_] = (p.data, mask)
        return out

    def run(d):
        if o == "params":
            im = MI(d, angle_dic=dic)
            out = params(im, S1)
            for n_, p in zip(("p0", "p45", "p-45", "p90"), (im.pol0, im.pol45, im.pol_45, im.pol90)):
                out[n_] = (p.data, S1)
            return out
        if o == "rebin":
            im = MI(d, angle_dic=dic)
            if min(h, w) < 2 * n:
                return {}
            m = gen.m_rebin(e, n) != 0
            exact["data"] = m
            r = im.rebin(n)
            return dict(params(r, sp(m)), data=(r.data, m))
        if o == "rebin-plain":
            m = e[: h // n * n, : w // n * n].reshape(h // n, n, w // n, n).sum(axis=(1, 3)) != 0
            exact["data"] = m
            return dict(data=(IM(d).rebin(n).data, m))
        if o == "shift":
            m = gen.m_shift_fam(e, case["sy"], case["sx"]) != 0
            exact["data"] = m
            r = MI(d, angle_dic=dic).shift(case["sy"], case["sx"])
            return dict(params(r, sp(m)), data=(r.data, m))
        if o in ("adjacent", "mean"):
            m = np.asarray(gen.DEMOSAIC[o](e)) != 0
            exact["demosaiced"] = m
            r = MI(d, angle_dic=dic).demosaic(o)
            return dict(params(r, np.any(m, axis=0)), demosaiced=(np.array(r.demosaiced_images), m))
        if o == "ifov":
            m = gen.m_ifov(e) != 0
            exact["data"] = m
            r = MI(d, angle_dic=dic).correct_ifov()
            return dict(params(r, sp(m)), data=(r.data, m))
        if o in ("demodulate", "demodulate-full"):
            fl = gen.hashint(salt, (h // 2, w // 2), 0, 1, 3) if n == 2 else None
            D = util.demodulator(os.path.join(ctx.tmp, "c"), mij, fl)
            full = o != "demodulate"
            r = MI(d, angle_dic=dic).demodulate(D, demosaicing=full)
            m = np.any(np.asarray(gen.m_adjacent(e)) != 0, axis=0) if full else S1
            return dict(params(r, m if not (full and fl is not None) else m | px(S1), fl is None), data=(r.data, own))
        if o in ("dark", "flat"):
            c = MI(gen.hashint(salt, (h, w), 1, 9), angle_dic=dic)
            r = MI(d, angle_dic=dic)
            r = r.subtract_dark(c) if o == "dark" else r.correct_flat(c)
            return dict(params(r, S1, False), data=(r.data, own))
        if o in ("clean", "detect"):
            m = np.zeros((h, w), bool)
            m[y : y + 3 : 2, x : x + 3 : 2] = True
            im = MI(d, angle_dic=dic)
            if o == "detect":
                return dict(flags=(ml.get_hot_pixels(im, threshold=0.2).data, m))
            f = MI((gen.hash01(salt, h * w).reshape(h, w) < 0.4).astype(float), angle_dic=dic)
            r = im.clean_hot_pixels(f)
            return dict(params(r, sp(m), False), data=(r.data, m & (f.data == 1) | own))
        if o in ("arith", "arith-second"):
            c = MI(gen.hashint(salt, (h, w), -2, 3), angle_dic=dic)
            p, q = (MI(d, angle_dic=dic), c) if o == "arith" else (c, MI(d, angle_dic=dic))
            r = {"+": lambda: p + q, "-": lambda: p - q, "*": lambda: p * q, "/": lambda: p / q}[case["o"]]()
            return dict(params(r, S1, False), data=(r.data, own))
        if o == "mask":
            r = MI(d, angle_dic=dic)
            r.mask_occulter(y=h // 2, x=w // 2, r=3)
            return dict(params(r, S1, False), data=(r.data, own))
        if o == "roi":
            return dict(data=(ml.roi_from_polar(d, [h // 2, w // 2], [0, max(2, h // 2)], include_superpixels=n == 1), own))
        if o == "nrgf":
            R = np.hypot(*(np.mgrid[:h, :w] - np.array([h // 2, w // 2])[:, None, None]))
            m = np.ceil(R - 1e-9) == np.ceil(R[y, x] - 1e-9)
            return dict(data=(ml.nrgf(d, h // 2, w // 2, 0), m))
        if o == "congrid":
            if min(h, w) < 4:
                return {}
            H, W = 2 * (2 + salt % 9), 2 * (2 + salt // 9 % 9)
            k = np.outer(support(h // 2, H // 2, y // 2), support(w // 2, W // 2, x // 2))
            m = np.zeros((H, W), bool)
            m[y % 2 :: 2, x % 2 :: 2] = k
            r = MI(d, angle_dic=dic).congrid(H, W)
            ks = np.outer(support(h // 2, r.I.data.shape[0], y // 2), support(w // 2, r.I.data.shape[1], x // 2))
            return dict(params(r, ks, False), data=(r.data, m))
        if o == "chen":
            folder = os.path.join(ctx.tmp, "chen")
            os.makedirs(folder, exist_ok=True)
            C = gen.hashint(salt, (4, 4, h // 2, w // 2), 1, 4)
            for i in range(4):
                for j in range(4):
                    util.write_fits(f"{folder}/C{i}{j}.fits", np.kron(C[i, j], np.ones((2, 2))))
            util.write_fits(f"{folder}/d_ij.fits", np.zeros((h, w)))
            m = gen.m_ifov(px(S1).astype(float)) != 0
            exact["data"] = m
            return dict(data=(ml.chen_wan_liang_calibration(d, folder), m))
        if o == "error":
            D = util.demodulator(os.path.join(ctx.tmp, "c"), mij)
            E = ml.MicropolImageError(MI(gen.hashint(salt, (h, w), 1, 4000, 9), angle_dic=dic), np.abs(d), D)
            exact.update(sI=S1)
            return dict(sI=(E.sigma_S[0], S1), sQ=(E.sigma_S[1], S1), sU=(E.sigma_S[2], S1), **{k: (getattr(E, "sigma_" + k), S1) for k in ("pB", "AoLP", "DoLP")})
        if o == "rotate":
            r = MI(np.asarray(d, dtype=float), angle_dic=dic).rotate(case["a"])
            t = np.deg2rad(case["a"])
            H, W = h // 2, w // 2
            Y, X = np.mgrid[:H, :W]
            dy, dx = Y + 0.5 - H / 2, X + 0.5 - W / 2
            m = np.zeros((H, W), bool)
            for ey in (-0.02, 0, 0.02):
                for ex in (-0.02, 0, 0.02):
                    m |= (np.floor(np.sin(t) * dx + np.cos(t) * dy + H / 2 + ey) == y // 2) & (np.floor(np.cos(t) * dx - np.sin(t) * dy + W / 2 + ex) == x // 2)
            md = np.zeros((h, w), bool)
            md[y % 2 :: 2, x % 2 :: 2] = m
            return dict(params(r, m, False), data=(r.data, md))
        if o == "align":
            _, r = ml.align_keywords_and_data({"DATE-OBS": "2022-01-01", "TIME-OBS": "00:00:00"}, d, (900, 900), 4.3)
            m = np.zeros((h, w), bool)
            k = np.zeros((h // 2, w // 2), bool)
            k[w // 2 - 1 - x // 2, h // 2 - 1 - y // 2] = True
            m[y % 2 :: 2, x % 2 :: 2] = k
            exact["data"] = m
            return dict(data=(r, m))
        if o == "save":
            p = os.path.join(ctx.tmp, "s.fits")
            MI(d, angle_dic=dic).save_as_fits(p)
            exact["data"] = own
            return dict(data=(MI(p, angle_dic=dic).data, own))
        if o == "sum-files":
            fs = [util.write_fits(os.path.join(ctx.tmp, "1.fits"), d), util.write_fits(os.path.join(ctx.tmp, "2.fits"), gen.hashint(salt, (h, w), 0, 9))]
            exact["data"] = own
            return dict(data=(MI(fs, angle_dic=dic).data, own))
        raise ValueError(o)

    with np.errstate(all="ignore"):
        A = {k: (np.array(p, dtype=float), m) for k, (p, m) in run(a).items()}
        B = {k: (np.array(p, dtype=float), m) for k, (p, m) in run(b).items()}
    check(set(A) == set(B), "results")
    diff = still = False
    for k, (p, m) in A.items():
        q = B[k][0]
        check(p.shape == q.shape == m.shape, f"{o}: shape of {k} {p.shape}, {q.shape}, expected {m.shape}")
        d = ~((p == q) | ((p != p) & (q != q)))
        bad = d & ~m
        if bad.any():
            i = tuple(int(t) for t in np.argwhere(bad)[0])
            fail(f"{o}: {k} at {i} is {q[i]!r} instead of {p[i]!r} after pixel {(y, x)} was set to {v}")
        diff |= bool(d.any())
        still |= bool((~m).any())
        if k in exact and v != v:
            check(bool(np.all(np.isnan(q[exact[k]]))), f"{o}: {k} is a number although it contains pixel {(y, x)}, which is not")
    ctx.nt(diff and still)


# ------------------------------------------------------------------------------------- C39


@sub("C39", "chain", st.fixed_dictionaries(dict(
        rig, h=st.sampled_from([2, 4]), w=st.sampled_from([2, 4, 6]), S=st.sampled_from([2000.0, 30000.0]), angles=st.sampled_from([[0, 45, 90, -45], [90, 0, 135, 45, 20], [0, 30, 45, 60, 90, 120, 135, 150]]),
        dark=st.sampled_from([0, 20, 300]), flat=st.booleans(), binning=st.sampled_from([1, 1, 2]), frames=st.integers(1, 4), light=gen.salts, gy=st.integers(0, 2), gx=st.integers(0, 2), raw=st.booleans(),
        merge=st.booleans())), 56, thorough=700, shards=8,
     rule="a simulated camera (per-pixel transmittance, efficiency, orientation, dark level, flat response) is calibrated from files; it then takes raw 16-bit frames of arbitrary light, which are "
          "converted, averaged, corrected, demodulated and exported: the exported planes must hold the light within the rounding of the frames; every case non-trivial")
def c39(case, ctx):
    b = case["binning"]
    R = Rig(dict(case, h=case["h"] // b, w=case["w"] // b), ctx)
    if b > 1:  # the superpixels of a bin are alike
        up = lambda p: unfams([np.kron(f, np.ones((b, b))) for f in fams(p)])
        R.t, R.eff, R.phi = up(R.t), up(R.eff), up(R.phi)
        R.images = [up(d) for d in R.images]
        R.h, R.w = R.h * b, R.w * b
    H, W = R.h // 2, R.w // 2
    ctx.nt()
    ctx.label(f"binning{b}", "flat" if case["flat"] else None, "dark" if case["dark"] else None, f"{case['frames']} frames", "raw" if case["raw"] else "fits")
    dark = gen.hashint(case["salt"], (R.h, R.w), 0, case["dark"], 60)
    files = R.write([d + dark for d in R.images])
    kw = dict(dark_filename=util.write_fits(os.path.join(R.folder, "dark.fits"), dark)) if case["dark"] else {}
    if b > 1:
        kw["binning"] = b
    gy, gx = divisors(H // b)[case["gy"] % len(divisors(H // b))], divisors(W // b)[case["gx"] % len(divisors(W // b))]
    D = R.calibrate("cal", files, grid=(gy, gx), **kw)
    # the observation
    big = (lambda p: np.kron(p, np.ones((b, b)))) if b > 1 else (lambda p: p)
    sh = (H // b, W // b)
    I = big(gen.hashfloat(case["light"], sh, 500, 20000, 1))
    P = big(gen.hashfloat(case["light"], sh, 0, 1, 2))
    th = big(gen.hashfloat(case["light"], sh, 0, np.pi, 3))
    L = np.stack([I, I * P * np.cos(2 * th), I * P * np.sin(2 * th)])
    pix = unfams(np.einsum("kiyx,iyx->kyx", R.modulation(), L))
    flat = gen.hashfloat(case["salt"], (R.h, R.w), 0.6, 1.5, 61) if case["flat"] else np.ones((R.h, R.w))
    counts = pix * flat / flat.mean() + dark
    whole = np.round(counts)
    n = case["frames"]
    wobble = [gen.hashint(case["light"], (R.h, R.w), 0, 3, 70 + k) for k in range(n)]
    mean = sum(wobble) / n
    frames = [np.clip(whole + d, 0, 65535).astype("<u2") for d in wobble]
    check(bool(np.all(whole + 3 < 65535)), "harness: saturated")
    dic = {(-45 if a == 135 else a): R.nominal.index(a) for a in R.nominal}
    names = []
    for k, f in enumerate(frames):
        if case["raw"]:
            p = os.path.join(ctx.tmp, f"frame.{k}.raw")
            f.tofile(p)
            names.append(p)
        else:
            names.append(util.write_fits(os.path.join(ctx.tmp, f"frame.{k}.fits"), f, {"DATE-OBS": f"2022-12-03T10:30:0{k}"}))
    if case["raw"]:
        if case["merge"]:
            ml.average_rawfiles_to_fits(names, os.path.join(ctx.tmp, "mean.fits"), R.h, R.w)
            names = [os.path.join(ctx.tmp, "mean.fits")]
        else:
            for p in names:
                ml.convert_rawfile_to_fits(p, R.h, R.w, remove_old=True)
            names = [p[:-4] + ".fits" for p in names]
    kw = {}
    if case["dark"]:
        kw["dark"] = MI(dark, angle_dic=dic)
    if case["flat"]:
        kw["flat"] = MI(flat * 1000, angle_dic=dic)
    im = MI(names, angle_dic=dic, **kw)
    if b > 1:
        im = im.rebin(b)
    g = fams(np.asarray(im.data, dtype=float))
    for n_, e in (("I", g.sum(axis=0) / 2), ("Q", g[dic[0]] - g[dic[90]]), ("U", g[dic[45]] - g[dic[-45]])):
        same(getattr(im, n_).data, e, f"{n_} before demodulation", 1e-9)
    r = im.demodulate(D)
    out = os.path.join(ctx.tmp, "result.fits")
    r.save_all_pol_params_as_fits(out)
    got = {k: util.read_primary(os.path.join(ctx.tmp, f"result_{k}.fits"))[0].astype(float) for k in ("I", "Q", "U", "pB", "AoLP", "DoLP")}
    # each frame is rounded to half a count; the wobble adds its known mean
    M = R.modulation()[:, :, ::b, ::b]
    T = np.moveaxis(np.linalg.pinv(np.moveaxis(M, (2, 3), (0, 1))), (0, 1), (2, 3))
    gain = np.ones((R.h, R.w)) / (flat / flat.mean())
    known = mean * gain  # added by the wobble
    err = (0.5 + 1e-6) * gain
    kb, eb = fams(gen.m_rebin(known, b)), fams(gen.m_rebin(err, b))
    true = L[:, ::b, ::b] * b * b
    bias = np.einsum("ijyx,jyx->iyx", T, kb)
    tol = np.einsum("ijyx,jyx->iyx", np.abs(T), eb) + 3e-4 * true[0].max() * max(1.0, 0.2 * float(np.abs(T).max()))
    for k, n_ in enumerate("IQU"):
        d = np.abs(got[n_] - true[k] - bias[k])
        check(bool(np.all(d <= tol[k])), f"{n_} is off by up to {float(d.max()):.3f} (limit there {float(tol[k].ravel()[int(np.argmax(d - tol[k]))]):.3f}), light {float(true[0].max()):.0f}")
    same(got["pB"], np.hypot(got["Q"], got["U"]), "exported pB", 1e-6)
    same(got["DoLP"], np.hypot(got["Q"], got["U"]) / got["I"], "exported DoLP", 1e-6)
    strong = got["pB"] > 1e-3 * true[0]
    same(np.where(strong, np.cos(2 * got["AoLP"]), 0), np.where(strong, got["Q"] / np.where(strong, got["pB"], 1), 0), "exported AoLP", None, 1e-5)
    same(np.where(strong, np.sin(2 * got["AoLP"]), 0), np.where(strong, got["U"] / np.where(strong, got["pB"], 1), 0), "exported AoLP", None, 1e-5)


# ------------------------------------------------------------------------------------- C40

JOB = st.fixed_dictionaries(dict(arr=arrays(dts=("f8", "f8", "i4", "f4"), minside=4, maxside=24, lo=0, hi=4000, lays=("C", "C", "F", "S")), perm=perms, salt=gen.salts, steps=st.lists(st.sampled_from(
    ["rebin", "shift", "rotate", "congrid", "demodulate", "demodulate-full", "demosaic", "demosaic-mean", "ifov", "dark", "flat", "clean", "arith", "mask", "roi", "nrgf", "profile", "save", "load", "hot", "params", "copy", "error", "radial"]),
    min_size=2, max_size=7)))


def work(job, common, folder):
    """run one job and return everything it shows; its files are beside those of the others"""
    a, dic, salt = build(job["arr"]), gen.perm(job["perm"]), job["salt"]
    out = []
    im = MI(a, angle_dic=dic)
    full = im.data.shape
    for k, s in enumerate(job["steps"]):
        h, w = im.data.shape
        n = salt // (k + 1)
        key = (h // 2, w // 2)
        if s == "rebin" and min(h, w) >= 8:
            im = im.rebin(2)
        elif s == "shift":
            im = im.shift(n % 5 - 2, n % 7 - 3)
        elif s == "rotate":
            im = MI(np.asarray(im.data, dtype=float), angle_dic=dic).rotate(n % 360)
        elif s == "congrid":
            im = im.congrid(4 + 2 * (n % 9), 4 + 2 * (n % 7))
        elif s in ("demodulate", "demodulate-full", "error") and key in common["cal"]:
            if s == "error":
                E = ml.MicropolImageError(MI(im.data, angle_dic=dic), np.sqrt(np.abs(im.data)), common["cal"][key])
                out += [np.array(E.sigma_S), np.array(E.sigma_pB)]
            else:
                r = MI(im.data, angle_dic=dic).demodulate(common["cal"][key], demosaicing=s != "demodulate")
                out += [np.array(p.data) for p in r.polparam_list]
        elif s == "demosaic":
            im.demosaic()
        elif s == "demosaic-mean":
            im.demosaic("mean")
        elif s == "ifov":
            im = MI(im).correct_ifov()
        elif s in ("dark", "flat") and (h, w) in common["dark"]:
            im = MI(im, **{s: common[s][h, w]})
        elif s == "clean":
            im = im.clean_hot_pixels(MI((gen.hash01(n, h * w).reshape(h, w) < 0.2).astype(float), angle_dic=dic))
        elif s == "arith":
            im = (im * 2.5 + im) / 3 - 1
        elif s == "mask":
            im.mask_occulter(y=h // 2, x=w // 2, r=n % 5 + 1)
        elif s == "roi":
            out.append(ml.roi_from_polar(np.array(im.data), [h // 2, w // 2], [n % 3, 3 + n % 8], theta=[10, 200]))
        elif s == "nrgf":
            out.append(ml.nrgf(np.array(im.data, dtype=float), h // 2, w // 2, 0, 1 + n % 2))
        elif s == "profile":
            out += [np.array(x, dtype=float) for x in ml.linear_roi(im.data, [0, 0], [h - 1, n % w])[:1]]
        elif s == "radial":
            out += [np.array(x, dtype=float) for x in ml.linear_roi_from_polar(im.data, [h // 2, w // 2], n % 360)[:1]]
        elif s == "hot":
            out.append(np.array(ml.get_hot_pixels(im, threshold=0.3).data))
        elif s == "save":
            im.save_as_fits(folder + "_s.fits")
            out.append(util.read_primary(folder + "_s.fits")[0])
        elif s == "load":
            util.write_fits(folder + "_l.fits", im.data)
            im = MI(folder + "_l.fits", angle_dic=dic)
        elif s == "copy":
            im = MI(im)
        out += [np.array(im.data)] + [np.array(p.data) for p in im.polparam_list]
        if im.demosaiced_images is not None:
            out.append(np.array(im.demosaiced_images))
    return out


@sub("C40", "threads", st.fixed_dictionaries(dict(jobs=st.lists(JOB, min_size=2, max_size=4), rounds=st.integers(2, 4), same=st.booleans(), salt=gen.salts)), 160, thorough=2500, shards=4,
     rule="2..4 processing jobs run one after another and then at the same time, one thread each, several rounds, with the thread switch interval at 1 microsecond; calibrations, darks and flats are shared; "
          "every plane of every step must be the same; non-trivial: jobs of at least two different steps")
def c40(case, ctx):
    jobs = case["jobs"]
    if case["same"]:  # the same steps on different images of one size
        jobs = [dict(j, steps=jobs[0]["steps"], arr=dict(jobs[0]["arr"], salt=j["salt"]) if "salt" in jobs[0]["arr"] else jobs[0]["arr"]) for j in jobs]
    ctx.label(f"{len(jobs)} threads", *{s for j in jobs for s in j["steps"]})
    ctx.nt(len({s for j in jobs for s in j["steps"]}) >= 2)
    common = dict(cal={}, dark={}, flat={})
    for j in jobs:
        h, w = j["arr"]["h"], j["arr"]["w"]
        if (h // 2, w // 2) not in common["cal"]:
            common["cal"][h // 2, w // 2] = util.demodulator(os.path.join(ctx.tmp, f"c{h}x{w}"), gen.hashint(case["salt"], (3, 4, h // 2, w // 2), -3, 3), gen.hashint(case["salt"], (h // 2, w // 2), 0, 1, 1))
            common["dark"][h, w] = MI(gen.hashint(case["salt"], (h, w), 0, 50, 2), angle_dic=gen.perm(0))
            common["flat"][h, w] = MI(gen.hashint(case["salt"], (h, w), 1, 9, 3), angle_dic=gen.perm(0))
    with np.errstate(all="ignore"):
        want = [work(j, common, os.path.join(ctx.tmp, f"j{k}")) for k, j in enumerate(jobs)]
    got, errors = {}, []
    start = threading.Barrier(len(jobs))

    def go(k):
        try:
            with np.errstate(all="ignore"):
                for r in range(case["rounds"]):
                    start.wait(60)
                    got[k, r] = work(jobs[k], common, os.path.join(ctx.tmp, f"j{k}"))
        except threading.BrokenBarrierError:
            pass
        except BaseException as e:
            errors.append(f"job {k}: {type(e).__name__}: {e}")
            start.abort()

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=go, args=(k,), daemon=True) for k in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    check(not errors, f"in a thread, but not alone: {errors}")
    for (k, r), g in sorted(got.items()):
        check(len(g) == len(want[k]), f"job {k}: number of results")
        for i, (p, q) in enumerate(zip(g, want[k])):
            same(p, q, f"job {k} ({' > '.join(jobs[k]['steps'])}), result {i}, run at the same time as {len(jobs) - 1} others")


HEADER = {"NAXIS1": 0, "NAXIS2": 0, "DATE-OBS": "2021-12-11", "TIME-OBS": "10:00:00"}


def saved(im, c, what):
    """save into a folder that may not be there yet and that others write into, too; what was written"""
    folder = os.path.join(c["here"], f"x{c['rep']}", "y")
    path = os.path.join(folder, f"s{c['tag']}")
    if what in ("raw", "convert", "merge"):
        os.makedirs(folder, exist_ok=True)
        im.save_as_raw(path + ".raw")
        if what == "raw":
            return [np.fromfile(path + ".raw", dtype="<i2")]
        if what == "convert":
            ml.convert_rawfile_to_fits(path + ".raw", *im.data.shape)
        else:
            ml.merge_rawfiles_to_fits([path + ".raw"] * 2, path + ".fits", *im.data.shape)
    elif what == "params":
        im.save_all_pol_params_as_fits(path + ".fits")
    elif what == "single":
        im.save_single_pol_images(path + ".fits")
    elif what == "param":
        im.save_param_as_fits("DoLP", path + ".fits")
    elif what == "demo":
        MI(im).demosaic().save_demosaiced_images_as_fits(path + ".fits")
    else:
        im.save_as_fits(path + ".fits")
    return [util.read_primary(p)[0] for p in sorted(glob.glob(path + "*.fits"))]


def _one(name):
    """one processing step on image im (pixels a): the arrays it gives"""
    S = lambda x: [np.array(x.data), *[np.array(p.data) for p in x.polparam_list], *([] if x.demosaiced_images is None else [np.array(x.demosaiced_images)])]
    f = lambda a: np.array(a, dtype=float)
    mod = lambda m, n: getattr(__import__("micropolarray.processing." + m, fromlist=["x"]), n)
    return {
        "split": lambda a, im, c, n: [ml.split_polarizations(a)],
        "merge": lambda a, im, c, n: [ml.merge_polarizations(fams(f(a)))],
        "create": lambda a, im, c, n: S(MI(a, angle_dic=im.angle_dic)),
        "copy": lambda a, im, c, n: S(MI(im)),
        "params": lambda a, im, c, n: S(im),
        "demosaic": lambda a, im, c, n: [np.array(ml.demosaic(a, ["adjacent", "mean", "spline"][n % 3]))],
        "rebin": lambda a, im, c, n: S(im.rebin(1 + n % 2)),
        "rebin-plain": lambda a, im, c, n: [IM(f(a)).rebin(1 + n % 3).data],
        "shift": lambda a, im, c, n: S(im.shift(n % 5 - 2, n % 7 - 3)),
        "rotate": lambda a, im, c, n: S(im.rotate(n % 360)),
        "congrid": lambda a, im, c, n: S(im.congrid(4 + 2 * (n % 9), 4 + 2 * (n % 7))),
        "demodulate": lambda a, im, c, n: S(im.demodulate(c["cal"])),
        "demodulate-full": lambda a, im, c, n: S(im.demodulate(c["cal"], demosaicing=True)),
        "error": lambda a, im, c, n: (lambda E: [E.sigma_S, E.sigma_pB, E.sigma_DoLP, E.sigma_AoLP])(ml.MicropolImageError(im, np.sqrt(np.abs(f(a))), c["cal"])),
        "ifov": lambda a, im, c, n: S(MI(im).correct_ifov()),
        "corrections": lambda a, im, c, n: S(MI(im, dark=c["dark"], flat=c["flat"])),
        "clean": lambda a, im, c, n: S(im.clean_hot_pixels(c["map"])),
        "hot": lambda a, im, c, n: S(ml.get_hot_pixels(im, threshold=0.3)),
        "arith": lambda a, im, c, n: S([im + c["flat"], im - 3, im * c["dark"], im / c["flat"]][n % 4]),
        "mask": lambda a, im, c, n: (lambda x: (x.mask_occulter(y=a.shape[0] // 2, x=a.shape[1] // 2, r=n % 5 + 1), S(x))[1])(MI(im)),
        "roi": lambda a, im, c, n: [ml.roi_from_polar(a, [a.shape[0] // 2, n % a.shape[1]], [n % 3, 3 + n % 8], theta=[10, 200], include_superpixels=bool(n % 2))],
        "nrgf": lambda a, im, c, n: [ml.nrgf(f(a), a.shape[0] // 2, a.shape[1] // 2, 0, 2)],
        "line": lambda a, im, c, n: [np.array(x) for x in ml.linear_roi(a, [0, 0], [a.shape[0] - 1, n % a.shape[1]])],
        "radial": lambda a, im, c, n: [np.array(x) for x in ml.linear_roi_from_polar(a, [a.shape[0] // 2, a.shape[1] // 2], n % 360)],
        "resample": lambda a, im, c, n: [ml.congrid(a, (a.shape[0] + n % 5, a.shape[1] + n % 3))],
        "ifov-array": lambda a, im, c, n: [ml._ifov_jitcorrect(f(a), *a.shape)],
        "shift-array": lambda a, im, c, n: [mod("shift", "shift_micropol")(f(a), n % 3 - 1, n % 5 - 2, 0.0)],
        "statistics": lambda a, im, c, n: [np.array([g(a, 2) for g in (ml.mean_plus_std, ml.mean_minus_std, ml.median_plus_std, ml.median_minus_std)])],
        "angles": lambda a, im, c, n: [np.array(ml.normalize2pi([float(x) for x in f(a).ravel()[:40]])), ml.normalize2piarray(f(a) / 50)],
        "save": lambda a, im, c, n: saved(im, c, ["fits", "raw", "fits", "fits"][n % 4]),
        "export": lambda a, im, c, n: saved(im, c, ["params", "single", "demo", "param"][n % 4]),
        "convert": lambda a, im, c, n: saved(im, c, ["convert", "merge"][n % 2]),
        "threshold": lambda a, im, c, n: [np.array(ml.auto_threshold(f(a)[:12, :12]))],
        "align": lambda a, im, c, n: (lambda r: [r[1], np.array([r[0]["CRPIX1"], r[0]["CRPIX2"], r[0]["CDELT1"]])])(ml.align_keywords_and_data(HEADER, f(a)[: min(a.shape), : min(a.shape)], (900 + n, 970), 4.3, 1 + n % 2)),
        "load": lambda a, im, c, n: S(MI(c["file"], angle_dic=im.angle_dic)),
    }[name]


ONE = ["split", "merge", "create", "copy", "params", "demosaic", "rebin", "rebin-plain", "shift", "rotate", "congrid", "demodulate", "demodulate-full", "error", "ifov", "corrections", "clean", "hot",
       "arith", "mask", "roi", "nrgf", "line", "radial", "resample", "ifov-array", "shift-array", "statistics", "angles", "save", "save", "export", "export", "convert", "threshold", "align", "load"]


@sub("C40", "together", st.fixed_dictionaries(dict(
        step=st.sampled_from(ONE), n=st.integers(0, 60), h=st.integers(2, 20), w=st.integers(2, 20), dt=st.sampled_from(["f8", "f8", "i4", "u2"]), perm=perms, salt=gen.salts, threads=st.integers(2, 4),
        vary=st.booleans())), 200, thorough=4000, shards=4,
     rule="2..4 threads repeat one and the same step, each on its own image of one common size (or of different sizes), as often as fits in a fraction of a second, with the thread switch interval at "
          "1 microsecond; calibration, dark, flat and map are shared; every result must be the one of running alone; every case non-trivial")
def c40_together(case, ctx):
    h, w, salt, n = 2 * case["h"], 2 * case["w"], case["salt"], case["n"]
    step, dic = _one(case["step"]), gen.perm(case["perm"])
    ctx.nt()
    ctx.label(case["step"], f"{case['threads']} threads", "sizes differ" if case["vary"] else "one size")
    jobs = []
    for k in range(case["threads"]):
        hk = h + 2 * k if case["vary"] else h
        a = gen.hashint(salt, (hk, w), 0, 4000, 10 + k).astype(case["dt"])
        folder = os.path.join(ctx.tmp, f"t{k}")
        os.makedirs(folder)
        c = dict(here=ctx.tmp, tag=chr(97 + k), rep="", file=util.write_fits(os.path.join(folder, "l.fits"), a))
        if k and not case["vary"]:
            c.update({x: jobs[0][2][x] for x in ("cal", "dark", "flat", "map")})
        else:
            c["cal"] = util.demodulator(os.path.join(folder, "cal"), gen.hashint(salt, (3, 4, hk // 2, w // 2), -3, 3), gen.hashint(salt, (hk // 2, w // 2), 0, 1, 1))
            c["dark"] = MI(gen.hashint(salt, (hk, w), 0, 50, 2), angle_dic=dic)
            c["flat"] = MI(gen.hashint(salt, (hk, w), 1, 9, 3), angle_dic=dic)
            c["map"] = MI((gen.hashint(salt, (hk, w), 0, 4, 4) == 0).astype(float), angle_dic=dic)
        jobs.append((a, MI(a, angle_dic=dic), c))
    with np.errstate(all="ignore"):
        t0 = time.perf_counter()
        want = [step(*j, n) for j in jobs]
        t0 = time.perf_counter()
        [step(*j, n) for j in jobs]
        cost = (time.perf_counter() - t0) / len(jobs)
    reps = int(min(40, max(3, 0.12 / len(jobs) / max(cost, 1e-6))))
    bad, errors = [], []
    start = threading.Barrier(len(jobs))

    def go(k):
        try:
            with np.errstate(all="ignore"):
                start.wait(60)
                for r in range(reps):
                    if bad or errors:
                        return
                    jobs[k][2]["rep"] = r
                    g = step(*jobs[k], n)
                    if not (len(g) == len(want[k]) and all(np.shape(p) == np.shape(q) and np.array_equal(p, q, equal_nan=True) for p, q in zip(g, want[k]))):
                        bad.append((k, g))
        except threading.BrokenBarrierError:
            pass
        except BaseException as e:
            errors.append(f"thread {k}: {type(e).__name__}: {e}")
            start.abort()

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=go, args=(k,), daemon=True) for k in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    check(not errors, f"{case['step']} in threads, but not alone: {errors}")
    for k, g in bad:
        check(len(g) == len(want[k]), f"{case['step']}: number of results")
        for i, (p, q) in enumerate(zip(g, want[k])):
            same(p, q, f"{case['step']} on {len(jobs)} images at the same time: image {k}, result {i}")
