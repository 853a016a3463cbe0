"""C11, C12: images as objects - independence of copies and consistency through histories."""
import os

import numpy as np
from astropy.io import fits
from hypothesis import strategies as st

import micropolarray as ml
from vf import gen, util
from vf.c_pixels import IM, MI, TOL, check_params, frozen, mod, same_frozen
from vf.core import check, fail, raises, same, sub
from vf.gen import arrays, build, fams, perms, unfams

sidx = st.integers(0, 9)
small = st.integers(-4, 4)


def op(name, **kw):
    return st.fixed_dictionaries(dict(op=st.just(name), i=sidx, **kw))


# ------------------------------------------------------------------------------------- C11

COPY_OPS = [
    op("copy"), op("copy"), op("copy_with_angles", perm=perms), op("plain_copy"), op("array"), op("array"), op("rebin", n=st.integers(1, 3)),
    op("congrid", y=st.integers(4, 14), x=st.integers(4, 14)), op("shift", y=small, x=small), op("rotate", a=st.sampled_from([0, 30, 90, 180, 360])),
    op("demodulate", demo=st.booleans(), flags=st.booleans(), salt=gen.salts), op("clean", salt=gen.salts),
    op("arith", o=st.sampled_from("+-*/"), j=sidx), op("arith_num", o=st.sampled_from("+-*/"), v=st.sampled_from([0, 1, 2.5, -1])),
    op("arith_arr", o=st.sampled_from("+-*/"), salt=gen.salts),
]
INPLACE_OPS = [
    op("dark", j=sidx), op("flat", j=sidx), op("ifov"), op("demosaic", mode=st.sampled_from(["adjacent", "mean", "spline"])),
    op("mask", y=st.integers(0, 10), x=st.integers(0, 10), r=st.integers(1, 8)), op("header_set", k=st.sampled_from(["EXPTIME", "OBSERVER", "NEWKEY"]), v=st.integers(0, 99)),
    op("header_del"), op("angles", v=st.integers(0, 2)), op("poke", y=st.integers(0, 30), x=st.integers(0, 30), v=st.integers(-5, 5000)), op("poke_array", v=st.integers(0, 99)),
    op("poke_params", v=st.integers(0, 99)), op("poke_demo", v=st.integers(0, 99)),
]
READ_OPS = [op("save"), op("params"), op("views")]


@st.composite
def history(draw):
    arr = draw(arrays(dts=("f8", "f8", "i4", "i8", "f4"), minside=4, maxside=12, lo=-200, hi=4000))
    ops = draw(st.lists(st.one_of(st.one_of(*COPY_OPS), st.one_of(*INPLACE_OPS), st.one_of(*INPLACE_OPS), st.one_of(*READ_OPS)), min_size=3, max_size=12))
    return dict(arr=arr, perm=draw(perms), plain=draw(st.integers(0, 9)) == 0, pre=draw(st.sampled_from([None, None, "adjacent", "mean", "file"])), ops=ops)


def equal_copy(c, s, what):
    """a fresh copy shows what its source shows"""
    a, b = frozen(c), frozen(s)
    drop = ("SIMPLE", "EXTEND")
    b["header"] = [h for h in b["header"] if h[0] not in drop]
    check(type(c) is type(s) or type(s) is not MI or type(c) is IM, what + " class")
    same(a["data"], b["data"], what + " pixels", dtype=s.data.dtype)
    got = {k: v for k, v, _ in a["header"]}
    for k, v, _ in b["header"]:
        check(k in got and got[k] == v, f"{what} header entry {k} is {got.get(k)!r}, source has {v!r}")
    if "S" in a and "S" in b:
        check(a["dic"] == b["dic"], what + " orientation assignment")
        for n, x, y in zip(["I", "Q", "U", "pB", "AoLP", "DoLP"], a["S"], b["S"]):
            same(x, y, f"{what} {n}")
        check((a["demo"] is None) == (b["demo"] is None), what + " demosaiced images")
        if a["demo"] is not None:
            for x, y in zip(a["demo"], b["demo"]):
                same(x, y, what + " demosaiced images")


@sub("C11", "history", history(), 450, thorough=6000, shards=4,
     rule="histories of copies, derived images and in-place changes over a growing pool of images; after every step all images (and "
          "input arrays) except the one changed in place must look exactly as before; non-trivial: an in-place change of an image that "
          "has a copy or is one")
def c11(case, ctx):
    a = build(case["arr"])
    gen.label_array(ctx, case["arr"])
    dic = gen.perm(case["perm"])
    arrs = [(a, a.copy())]
    if case["pre"] == "file":
        first = (IM if case["plain"] else lambda f: MI(f, angle_dic=dic))(util.write_fits(os.path.join(ctx.tmp, "a.fits"), a, dict(EXPTIME=3, OBSERVER="x")))
    else:
        first = IM(a) if case["plain"] else MI(a, angle_dic=dic)
        first.header["EXPTIME"] = (3, "exposure")
    same(first.data, np.asarray(arrs[0][1], dtype=float), "image made from an array")
    if case["pre"] in ("adjacent", "mean") and not case["plain"]:
        first.demosaic(case["pre"])
    pool, snap, related = [first], [frozen(first)], {0}
    demod = {}

    def verify(changed, what):
        for k, im in enumerate(pool):
            if k != changed:
                same_frozen(im, snap[k], f"image {k} after '{what}'{'' if changed is None else f' of image {changed}'}:")
        for k, (x, x0) in enumerate(arrs):
            same(x, x0, f"array {k} after '{what}'")

    for o in case["ops"]:
        i, name = o["i"] % len(pool), o["op"]
        im = pool[i]
        mp = isinstance(im, MI)
        new, changed = None, None
        if name == "copy":
            new = MI(im) if mp else IM(im)
            equal_copy(new, im, f"copy of image {i}")
        elif name == "copy_with_angles" and mp:
            new = MI(im, angle_dic=gen.perm(o["perm"]))
            same(new.data, snap[i]["data"], "pixels of a copy")
        elif name == "plain_copy":
            new = IM(im)
            equal_copy(new, im, f"plain copy of image {i}")
        elif name == "array":
            x = np.array(im.data) + 0
            arrs.append((x, x.copy()))
            new = MI(x, angle_dic=dict(im.angle_dic)) if mp else IM(x)
            same(new.data, x, "image made from an array")
        elif name == "rebin":
            if min(im.data.shape) < 2 * o["n"]:
                continue
            new = im.rebin(o["n"])
        elif name == "congrid" and mp:
            if min(fams(im.data).shape[1:]) < 2 or min(im.I.data.shape) < 2:
                continue
            new = im.congrid(o["y"], o["x"])
        elif name == "shift":
            new = im.shift(o["y"], o["x"])
        elif name == "rotate" and mp:
            if im.data.dtype != np.float64 and im.data.dtype != np.int32:
                continue
            new = im.rotate(o["a"])
        elif name == "demodulate" and mp:
            h, w = im.data.shape
            demo = o["demo"] or im.I.data.shape == im.data.shape
            flags = gen.hashint(o["salt"], (h // 2, w // 2), 0, 1, 9) if o["flags"] else None
            mij = gen.hashint(o["salt"], (3, 4, h // 2, w // 2), -3, 3)
            key = (o["salt"], h, w, o["flags"])
            if key not in demod:
                demod[key] = util.demodulator(os.path.join(ctx.tmp, f"m{len(demod)}"), mij, flags)
            new = im.demodulate(demod[key], demosaicing=demo)
            same(demod[key].mij, mij, "demodulator after use")
            same(new.data, snap[i]["data"], "pixels of a demodulated image")
        elif name == "clean" and mp:
            flag = MI((gen.hash01(o["salt"], im.data.size).reshape(im.data.shape) < 0.2).astype(float), angle_dic=dict(im.angle_dic))
            fz = frozen(flag)
            new = im.clean_hot_pixels(flag)
            same_frozen(flag, fz, "hot pixel map")
        elif name in ("arith", "arith_num", "arith_arr"):
            if name == "arith":
                j = next((k for k in (o["j"] % len(pool), i) if type(pool[k]) is type(im) and pool[k].data.shape == im.data.shape), i)
                second = pool[j]
            elif name == "arith_arr":
                second = gen.hashint(o["salt"], im.data.shape, -3, 3)
                arrs.append((second, second.copy()))
            else:
                second = o["v"]
            with np.errstate(all="ignore"):
                new = {"+": lambda: im + second, "-": lambda: im - second, "*": lambda: im * second, "/": lambda: im / second}[o["o"]]()
        elif name in ("dark", "flat") and mp:
            j = next((k for k in (o["j"] % len(pool), i) if isinstance(pool[k], MI) and pool[k].data.shape == im.data.shape), i)
            second = pool[j]
            if j == i:
                second = MI(np.asarray(im.data, dtype=float) * 0 + 3.0, angle_dic=dict(im.angle_dic))
            if name == "flat" and np.mean(np.asarray(second.data, dtype=float)) == 0:
                continue
            with np.errstate(all="ignore"):
                (im.subtract_dark if name == "dark" else im.correct_flat)(second)
            changed = i
        elif name == "ifov" and mp:
            im.correct_ifov()
            changed = i
        elif name == "demosaic" and mp:
            if o["mode"] == "spline" and min(im.data.shape) < 4:
                continue
            im.demosaic(o["mode"])
            changed = i
        elif name == "mask" and mp:
            im.mask_occulter(y=o["y"], x=o["x"], r=o["r"], fill=-7)
            changed = i
        elif name == "header_set":
            im.header[o["k"]] = (o["v"], "changed")
            changed = i
        elif name == "header_del":
            if "EXPTIME" not in im.header:
                continue
            del im.header["EXPTIME"]
            changed = i
        elif name == "angles" and mp:
            disturb(im, "angles", o["v"])
            changed = i
        elif name == "poke":
            if not im.data.flags.writeable:
                fail(f"pixels of image {i} are read-only")
            im.data[o["y"] % im.data.shape[0], o["x"] % im.data.shape[1]] = o["v"]
            changed = i
        elif name == "poke_array":
            k = o["i"] % len(arrs)
            if arrs[k][0].flags.writeable:
                arrs[k][0][0, 0] += o["v"] + 1
                arrs[k] = (arrs[k][0], arrs[k][0].copy())
            for q, im2 in enumerate(pool):
                same_frozen(im2, snap[q], f"image {q} after a change of the array it may come from:")
            continue
        elif name == "poke_params" and mp:
            im.I.data[0, 0] = o["v"] + 0.5
            im.Q.data[-1, -1] = o["v"] + 0.25
            changed = i
        elif name == "poke_demo" and mp:
            if im.demosaiced_images is None:
                continue
            im.demosaiced_images[0][0, 0] = o["v"] + 0.5
            changed = i
        elif name == "save":
            im.save_as_fits(os.path.join(ctx.tmp, "s.fits"))
        elif name == "params" and mp:
            [p.data for p in im.polparam_list]
        elif name == "views" and mp:
            for p in (im.pol0, im.pol45, im.pol_45, im.pol90):
                p.data[...] = -1  # the views are computed on demand
            im.single_pol_subimages[...] = -1
        else:
            continue
        ctx.label(name, "plain" if not mp else None)
        verify(changed, name)
        if new is not None:
            pool.append(new)
            snap.append(frozen(new))
            related |= {i, len(pool) - 1}
            verify(None, name)
        if changed is not None:
            snap[changed] = frozen(pool[changed])
            ctx.nt(changed in related and len(pool) > 1)
        if len(pool) > 7:
            pool.pop(0), snap.pop(0)
            related = {k - 1 for k in related if k}


@sub("C11", "from_image", st.fixed_dictionaries(dict(
        arr=arrays(dts=tuple(gen.DT_ALL), minside=2, maxside=12), perm=perms, default=perms, demo=st.sampled_from([None, "adjacent", "mean"]),
        dark=st.booleans(), salt=gen.salts)), 250,
     rule="copy of an image of every pixel type with header cards, comments and a non-default assignment; with dark given, only the copy is "
          "corrected; non-trivial: assignment differs from the process default")
def c11_from_image(case, ctx):
    a, dic = build(case["arr"]), gen.perm(case["perm"])
    gen.label_array(ctx, case["arr"])
    ml.set_default_angles(gen.perm(case["default"]))
    ctx.nt(case["perm"] != case["default"])
    im = MI(a, angle_dic=dic)
    im.header["EXPTIME"] = (1.5, "exposure time")
    im.header["OBJECT"] = ("corona", "target")
    im.header["GAIN"] = True
    if case["demo"]:
        im.demosaic(case["demo"])
    keep = frozen(im)
    c = MI(im)
    equal_copy(c, im, "copy")
    same_frozen(im, keep, "source after copying")
    check(type(IM(im)) is IM, "plain copy class")
    if case["dark"]:
        d = MI(gen.hashint(case["salt"], a.shape, 0, 9), angle_dic=dic)
        c2 = MI(im, dark=d, flat=MI(gen.hashint(case["salt"], a.shape, 1, 9), angle_dic=dic))
        same_frozen(im, keep, "source after making a corrected copy")
        e = gen.m_flat(gen.m_dark(a, d.data), gen.hashint(case["salt"], a.shape, 1, 9))
        same(c2.data, e, "corrected copy", 1e-6)
        check(dict(c2.angle_dic) == dic, "orientation assignment of the corrected copy")
    same_frozen(c, keep, "copy") if type(c) is type(im) else None


NEUTRAL = {
    "copy": lambda im, o: type(im)(im), "copy-angles": lambda im, o: MI(im, angle_dic=dict(im.angle_dic)) if o["mp"] else IM(im), "rebin1": lambda im, o: im.rebin(1),
    "shift00": lambda im, o: im.shift(0, 0), "shift": lambda im, o: im.shift(o["y"], o["x"]), "congrid-same": lambda im, o: im.congrid(*im.data.shape), "rotate": lambda im, o: im.rotate(o["a"]),
    "clean-empty": lambda im, o: im.clean_hot_pixels(MI(np.zeros(im.data.shape), angle_dic=dict(im.angle_dic))),
    "+0": lambda im, o: im + 0, "-0": lambda im, o: im - 0, "*1": lambda im, o: im * 1, "/1": lambda im, o: im / 1, "+1": lambda im, o: im + 1.0,
    "+zeros": lambda im, o: im + np.zeros(im.data.shape), "*ones": lambda im, o: im * np.ones(im.data.shape, dtype=int), "+image": lambda im, o: im + type(im)(np.zeros(im.data.shape)),
    "*image": lambda im, o: im * type(im)(np.ones(im.data.shape)), "demodulate": lambda im, o: im.demodulate(o["D"], demosaicing=o["demo"]),
}
ONLY_MP = ("congrid-same", "rotate", "clean-empty", "demodulate")


def disturb(im, how, v):
    """change one part of an image in place; False when the image has no such part"""
    if how == "pixels":
        im.data[-1, 0] += v
    elif how == "all-pixels":
        im.data *= v + 1
    elif how == "header":
        im.header["EXPTIME"] = (v, "changed")
        im.header["ADDED"] = v
    elif how == "comment":
        if "EXPTIME" not in im.header:
            return False
        im.header.comments["EXPTIME"] = f"changed {v}"
    elif not isinstance(im, MI):
        return False
    elif how == "angles":
        dic = im.angle_dic
        ks = list(dic)
        dic[ks[0]], dic[ks[1 + v % 3]] = dic[ks[1 + v % 3]], dic[ks[0]]
    elif how == "stokes":
        for d in im.Stokes_vec:
            d[...] = v + 0.5
    elif how == "params":
        for p in im.polparam_list:
            p.data[0, 0] = v + 0.25
    elif how == "demosaiced":
        if im.demosaiced_images is None:
            return False
        for d in im.demosaiced_images:
            d[...] = v + 0.75
    elif how == "mask":
        im.mask_occulter(y=1, x=1, r=2, fill=v)
    elif how == "demosaic":
        im.demosaic("mean")
    elif how == "dark":
        im.subtract_dark(MI(np.full(im.data.shape, float(v + 1)), angle_dic=dict(im.angle_dic)))
    elif how == "flat":
        im.correct_flat(MI(gen.hashint(v, im.data.shape, 1, 9), angle_dic=dict(im.angle_dic)))
    elif how == "ifov":
        im.correct_ifov()
    return True


@sub("C11", "neutral", st.fixed_dictionaries(dict(
        arr=arrays(dts=("f8", "f8", "f8", "i4", "f4", "i8"), minside=4, maxside=12, lo=0, hi=4000), perm=perms, plain=st.integers(0, 3).map(lambda v: v == 0), pre=st.sampled_from([None, None, "adjacent", "mean"]),
        op=st.sampled_from(list(NEUTRAL)), a=st.sampled_from([0, 360, -360, 720, 90, 180]), y=small, x=small, demo=st.booleans(), salt=gen.salts,
        how=st.lists(st.tuples(st.booleans(), st.sampled_from(["pixels", "pixels", "all-pixels", "header", "comment", "angles", "stokes", "params", "demosaiced", "mask", "demosaic", "dark", "flat", "ifov"]), st.integers(1, 99)),
                     min_size=1, max_size=5))), 500, thorough=8000, shards=2,
     examples=[dict(arr=dict(h=6, w=8, dt="f8", kind="index", lo=1, hi=4000), perm=3, plain=p, pre=None, op=n, a=0, y=0, x=0, demo=False, salt=3, how=[(True, "header", 3)]) for n in NEUTRAL for p in (False, True)],
     rule="every operation that gives a new image, neutral parameters included (shift by 0, binning by 1, same size, adding 0 ...), then the result or the source is "
          "changed in one of its parts: the other one must look exactly as before; non-trivial: some part was changed")
def c11_neutral(case, ctx):
    a = build(case["arr"])
    gen.label_array(ctx, case["arr"])
    if not a.flags.writeable:
        a = a.copy()
    name = case["op"]
    plain = case["plain"] and name not in ONLY_MP
    ml.set_default_angles(gen.perm(case["perm"]))
    im = IM(a) if plain else MI(a, angle_dic=gen.perm(case["perm"]))
    im.header["EXPTIME"] = (3, "exposure")
    if case["pre"] and not plain and name != "demodulate":
        im.demosaic(case["pre"])
    o = dict(case, mp=not plain)
    h, w = a.shape
    if name == "demodulate":
        o["D"] = util.demodulator(os.path.join(ctx.tmp, "c"), gen.hashint(case["salt"], (3, 4, h // 2, w // 2), -3, 3), np.ones((h // 2, w // 2)) if case["salt"] % 2 else None)
    keep = frozen(im)
    new = NEUTRAL[name](im, o)
    same_frozen(im, keep, f"source after {name}:")
    pair = [im, new]
    snap = [keep, frozen(new)]
    ctx.label(name, "plain" if plain else None)
    for at_new, how, v in case["how"]:
        k = int(at_new)
        if not disturb(pair[k], how, v):
            continue
        ctx.nt()
        ctx.label(how)
        same_frozen(pair[1 - k], snap[1 - k], f"{['source', 'result'][1 - k]} of {name} after changing the {how} of the {['source', 'result'][k]}:")
        snap[k] = frozen(pair[k])
    x0 = np.array(build(case["arr"]))
    if not any(not at_new and how in ("pixels", "all-pixels", "mask", "dark", "flat", "ifov") for at_new, how, v in case["how"]):
        same(a, x0, "the array the image was made from")
    for k in (0, 1):  # at last the pixels of both
        snap = [frozen(im) for im in pair]
        if disturb(pair[k], "pixels", 7 + k):
            same_frozen(pair[1 - k], snap[1 - k], f"{['source', 'result'][1 - k]} of {name} after changing pixels of the {['source', 'result'][k]}:")


USES = dict(NEUTRAL, **{
    "save": lambda im, o: im.save_as_fits(os.path.join(o["tmp"], "u.fits")), "raw": lambda im, o: im.save_as_raw(os.path.join(o["tmp"], "u.raw")),
    "exports": lambda im, o: (im.save_single_pol_images(os.path.join(o["tmp"], "u.fits")), im.save_all_pol_params_as_fits(os.path.join(o["tmp"], "u.fits"))),
    "as dark": lambda im, o: MI(np.ones(im.data.shape), angle_dic=dict(im.angle_dic)).subtract_dark(im), "as flat": lambda im, o: MI(np.ones(im.data.shape), angle_dic=dict(im.angle_dic)).correct_flat(im),
    "as second": lambda im, o: type(im)(np.ones(im.data.shape)) * im, "plain copy": lambda im, o: IM(im), "hot": lambda im, o: mod("processing.image_cleaning").get_hot_pixels(im, 0.5),
    "corrected copy": lambda im, o: MI(im, dark=MI(np.ones(im.data.shape)), flat=MI(np.full(im.data.shape, 2.0))), "changed copy": lambda im, o: disturb(type(im)(im), "ifov", 3),
    "masked copy": lambda im, o: disturb(type(im)(im), "mask", 3), "copy demosaiced": lambda im, o: disturb(type(im)(im), "demosaic", 3)})
USES_MP = ONLY_MP + ("exports", "as dark", "as flat", "hot", "corrected copy", "changed copy", "masked copy", "copy demosaiced")
FOLLOW = {
    "rebin": lambda im, o: im.rebin(2), "shift": lambda im, o: im.shift(1, -1), "add": lambda im, o: im + 3, "copy": lambda im, o: type(im)(im), "copy-dark": lambda im, o: MI(MI(im), dark=MI(np.full(im.data.shape, 5.0))),
    "congrid": lambda im, o: im.congrid(im.data.shape[0] + 2, im.data.shape[1]), "demodulate": lambda im, o: im.demodulate(o["D"]), "demodulate-whole": lambda im, o: im.demodulate(o["D"], demosaicing=True),
    "clean": lambda im, o: im.clean_hot_pixels(MI((gen.hash01(o["salt"], im.data.size).reshape(im.data.shape) < 0.2).astype(float))),
}


@sub("C11", "used", st.fixed_dictionaries(dict(
        arr=arrays(dts=("f8", "f8", "i4"), minside=4, maxside=12, lo=0, hi=4000), perm=perms, plain=st.integers(0, 4).map(lambda v: v == 0), pre=st.sampled_from([None, "adjacent", "mean", "mean", "spline"]),
        calibrated=st.booleans(), a=st.sampled_from([0, 90, 180, 30]), y=small, x=small, demo=st.booleans(), salt=gen.salts, uses=st.lists(st.sampled_from(list(USES)), min_size=1, max_size=4),
        then=st.lists(st.one_of(st.sampled_from(["pixels", "dark", "flat", "ifov", "mask", "demosaic", "header", "dark", "ifov"]), st.sampled_from(list(FOLLOW))), min_size=1, max_size=5))), 400, thorough=8000, shards=2,
     rule="two images made alike, of which only one is used as the source of copies and results, saved, exported, or used as a dark, flat or operand; whatever is done with both of them "
          "afterwards gives the same; non-trivial: a demosaiced or calibrated image, or several operations afterwards")
def c11_used(case, ctx):
    a, dic = build(case["arr"]), gen.perm(case["perm"])
    h, w = a.shape
    ml.set_default_angles(dic)
    o = dict(case, mp=not case["plain"], tmp=ctx.tmp)
    o["D"] = util.demodulator(os.path.join(ctx.tmp, "c"), gen.hashint(case["salt"], (3, 4, h // 2, w // 2), -3, 3), np.ones((h // 2, w // 2)) if case["salt"] % 2 else None)

    def make():
        im = IM(np.array(a)) if case["plain"] else MI(np.array(a), angle_dic=dic)
        im.header["EXPTIME"] = (3, "exposure")
        if case["pre"] and not case["plain"]:
            im.demosaic(case["pre"])
        if case["calibrated"] and not case["plain"]:
            im = im.demodulate(o["D"])
        return im

    used, fresh = make(), make()
    ctx.nt(not case["plain"] and (case["pre"] or case["calibrated"]) or len(case["then"]) > 2)
    ctx.label(*case["uses"], "plain" if case["plain"] else None, case["pre"] if not case["plain"] else None)
    for u in case["uses"]:
        if case["plain"] and u in USES_MP or u == "raw" and case["arr"].get("exp"):
            continue
        with np.errstate(all="ignore"):
            USES[u](used, o)
        same_frozen(used, frozen(fresh), f"image after {u}:")
    for n in case["then"]:
        if n in FOLLOW:
            if case["plain"] and n not in ("rebin", "shift", "add", "copy"):
                continue
            same_frozen(FOLLOW[n](used, o), frozen(FOLLOW[n](fresh, o)), f"{n} of an image that was used before ({', '.join(case['uses'])}):")
        else:
            disturb(used, n, 3), disturb(fresh, n, 3)
        same_frozen(used, frozen(fresh), f"image that was used before ({', '.join(case['uses'])}) after {n}:")


# ------------------------------------------------------------------------------------- C12


@st.composite
def sequence(draw):
    arr = draw(arrays(dts=("f8", "f8", "i4", "i8", "u2", "f4"), minside=2, maxside=14, lo=0, hi=4000))
    o = st.one_of(
        op("add", salt=gen.salts, hi=st.sampled_from([0, 9, 500])), op("num", o=st.sampled_from("+-*/"), v=st.sampled_from([0, 1, 2, 3.5, -2, 0.25])),
        op("img", o=st.sampled_from("+-*/"), salt=gen.salts, hi=st.sampled_from([1, 50]), hdr=st.booleans(), demo=st.booleans()),
        op("arr", o=st.sampled_from("+-*/"), salt=gen.salts), op("self", o=st.sampled_from("+-/")),
        op("rebin", n=st.integers(1, 3)), op("shift", y=small, x=small, m=st.sampled_from([0, 0, 7, -2.5])),
        op("dark", salt=gen.salts, hi=st.sampled_from([5, 2000])), op("flat", salt=gen.salts, lo=st.integers(0, 2)),
        op("ifov"), op("clean", salt=gen.salts), op("demosaic", mode=st.sampled_from(["adjacent", "mean", "spline"])),
        op("demosaic", mode=st.sampled_from(["adjacent", "mean"])), op("copy"), op("copy"),
        op("demodulate", salt=gen.salts, full=st.booleans(), flags=st.booleans()),
        op("congrid", y=st.integers(4, 14), x=st.integers(4, 14)), op("rotate", k=st.integers(0, 4)),
    )
    return dict(arr=arr, perm=draw(perms), default=draw(perms), ops=draw(st.lists(o, min_size=2, max_size=10)), src=draw(st.sampled_from(["array", "file"])))


def arith(a, b, o):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if o == "/":
        return np.where(b != 0, a / np.where(b != 0, b, 1), 0.0)
    return {"+": a + b, "-": a - b, "*": a * b}[o]


def apply(im, x, o):
    return {"+": lambda: im + x, "-": lambda: im - x, "*": lambda: im * x, "/": lambda: im / x}[o]()


@sub("C12", "sequence", sequence(), 700, thorough=8000, shards=4,
     rule="sequences of 2..10 operations run against a reference model of the pixels and of the demosaicing state; non-trivial: at least two "
          "different pixel-changing operations, one of them after demosaicing or on a copy")
def c12(case, ctx):
    a, dic = build(case["arr"]), gen.perm(case["perm"])
    gen.label_array(ctx, case["arr"])
    ml.set_default_angles(gen.perm(case["default"]))
    if case["src"] == "file":
        im = MI(util.write_fits(os.path.join(ctx.tmp, "a.fits"), a, dict(EXPTIME=2)), angle_dic=dic)
    else:
        im = MI(a, angle_dic=dic)
        im.header["EXPTIME"] = 2
    model, demo, done, after, tensors = np.asarray(a, dtype=float), None, [], False, 0
    f4 = a.dtype.itemsize == 4 and a.dtype.kind == "f"
    tol, tolp = (1e-5, 1e-5) if f4 else (1e-11, 1e-9)
    cal = dem = None  # parameters given by a calibration, or resampled ones with their demosaiced images, until the pixels change

    def verify(what):
        check(type(im) is MI, f"{what}: class {type(im)}")
        same(im.data, model, f"{what}: pixels", tol)
        check((im.height, im.width) == np.shape(im.data), f"{what}: height, width {(im.height, im.width)}, pixels {np.shape(im.data)}")
        check((im.header["NAXIS2"], im.header["NAXIS1"]) == np.shape(im.data), f"{what}: header NAXIS1, NAXIS2 = {im.header['NAXIS1']}, {im.header['NAXIS2']} for pixels {np.shape(im.data)}")
        check({k: im.angle_dic[k] for k in gen.ANGLES} == dic, f"{what}: orientation assignment {im.angle_dic}")
        cur = np.asarray(im.data, dtype=float)
        if demo is None:
            S = gen.stokes(cur, dic)
            check(im.demosaiced_images is None, f"{what}: demosaiced images without demosaicing")
        else:
            d = gen.DEMOSAIC[demo](cur) if dem is None else dem
            same(im.demosaiced_images, d, f"{what}: demosaiced images ({demo})", tolp)
            S = gen.stokes4(d, dic)
        if cal is not None:
            S = cal
        check_params(im, dic, S, f"{what}: ", tolp)

    verify("new image")
    for o in case["ops"]:
        name, sh = o["op"], model.shape
        if demo == "spline" and min(sh) < 4:
            break
        keep = frozen(im)
        old = im
        loose = False
        if name == "num":
            im, new = apply(im, o["v"], o["o"]), arith(model, o["v"], o["o"])
            loose = True
        elif name in ("img", "add"):
            b = gen.hashint(o["salt"], sh, 0, o["hi"])
            if im.data.dtype.kind in "ui" and name == "add":
                b = b.astype(im.data.dtype)
            sec = MI(b, angle_dic=gen.perm((o["salt"] + 5) % 24))
            if o.get("hdr"):
                sec.header["EXPTIME"] = 9
            if o.get("demo"):
                sec.demosaic("mean")
            im, new = apply(im, sec, o.get("o", "+")), arith(model, b, o.get("o", "+"))
            loose = True
        elif name == "arr":
            b = gen.hashint(o["salt"], sh, -3, 3)
            im, new = apply(im, b, o["o"]), arith(model, b, o["o"])
            loose = True
        elif name == "self":
            im, new = apply(im, im, o["o"]), arith(model, model, o["o"])
            loose = True
        elif name == "rebin":
            if min(sh) < 2 * o["n"] or (demo == "spline" and min(sh) < 4 * o["n"]):
                continue
            im, new = im.rebin(o["n"]), gen.m_rebin(model, o["n"])
        elif name == "shift":
            m = o["m"] if im.data.dtype.kind == "f" else 0
            im, new = im.shift(o["y"], o["x"], m), gen.m_shift_fam(model, o["y"], o["x"], m)
        elif name == "dark":
            d = gen.hashint(o["salt"], sh, 0, o["hi"])
            im, new = im.subtract_dark(MI(d, angle_dic=dic)), gen.m_dark(model, d)
        elif name == "flat":
            f = gen.hashint(o["salt"], sh, o["lo"], 9)
            if f.mean() == 0:
                continue
            im, new = im.correct_flat(MI(f, angle_dic=dic)), gen.m_flat(model, f)
        elif name == "ifov":
            im, new = im.correct_ifov(), gen.m_ifov(model)
        elif name == "clean":
            g = (gen.hash01(o["salt"], model.size).reshape(sh) < 0.3).astype(float)
            im, new = im.clean_hot_pixels(MI(g, angle_dic=dic)), gen.m_clean(model, g)
        elif name == "demosaic":
            if o["mode"] == "spline" and min(sh) < 4:
                continue
            im, new, demo = im.demosaic(o["mode"]), model, o["mode"]
        elif name == "copy":
            im, new = MI(im), model
        elif name == "demodulate":
            h2, w2 = sh[0] // 2, sh[1] // 2
            if sh[0] % 2 or sh[1] % 2:
                continue
            full = o["full"]
            mij = gen.hashint(o["salt"], (3, 4, h2, w2), -3, 3)
            fl = gen.hashint(o["salt"], (h2, w2), 0, 1, 9) if o["flags"] else None
            tensors += 1
            im, new = im.demodulate(util.demodulator(os.path.join(ctx.tmp, f"t{tensors}"), mij, fl), demosaicing=full), model
            if full:
                demo = "adjacent"
                planes = gen.DEMOSAIC[demo](np.asarray(im.data, dtype=float))
                big = lambda a: np.repeat(np.repeat(a, 2, -2), 2, -1)
                mij, fl = big(mij), None if fl is None else big(fl)
                theo = gen.stokes4(planes, dic)
            else:
                planes = fams(np.asarray(im.data, dtype=float))
                theo = gen.stokes(np.asarray(im.data, dtype=float), dic)
            cal = np.einsum("ijyx,jyx->iyx", mij, planes)
            if fl is not None:
                cal = np.where(fl == 1, cal, theo)
        elif name == "congrid":
            if min(sh) < 4 or sh[0] % 2 or sh[1] % 2 or min(old.I.data.shape) < 2:
                continue
            ny, nx = o["y"] - o["y"] % 2, o["x"] - o["x"] % 2
            im, new = im.congrid(o["y"], o["x"]), unfams([gen.m_linear(g, ny // 2, nx // 2) for g in fams(model)])
            # the parameters are resampled too
            cal = np.stack([gen.m_linear(np.asarray(s), ny, nx) for s in keep["S"][:3]])
            dem = None if demo is None else np.stack([gen.m_linear(np.asarray(d), ny, nx) for d in keep["demo"]])
        elif name == "rotate":
            if im.data.dtype not in (np.float64, np.int32) or sh[0] % 2 or sh[1] % 2:
                continue
            k = o["k"] if sh[0] == sh[1] else 2 * (o["k"] % 2)
            im, new = im.rotate(90 * k), unfams([np.rot90(g, k) for g in fams(model)])
            cal = np.stack([np.rot90(s, k) for s in keep["S"][:3]])
            dem = None if demo is None else np.stack([np.rot90(d, k) for d in keep["demo"]])
            tol, tolp = max(tol, 1e-6), max(tolp, 1e-6)  # rotation works in single precision
        if name not in ("copy", "demodulate", "congrid", "rotate"):
            cal = None
        if name not in ("copy", "congrid", "rotate") and not (name == "demodulate" and not full):
            dem = None
        if im.data.dtype.kind in "ui":
            info = np.iinfo(im.data.dtype)
            if new.max() > info.max or new.min() < info.min:
                break  # integer images wrap like their pixels: outside the property
        if not np.all(np.isfinite(new)) or np.max(np.abs(new)) > (1e6 if f4 else 1e12):
            break
        model = new
        if loose and demo is not None and im.demosaiced_images is None:
            demo = None  # a result rebuilt from pixels alone may start without demosaicing
        what = " > ".join(done[-4:] + [name])
        verify(what)
        if old is not im and name != "demosaic" and name not in ("dark", "flat", "ifov"):
            same_frozen(old, keep, f"operand of {name}")
        check(im.header["EXPTIME"] == 2, f"{what}: header entry EXPTIME is {im.header['EXPTIME']!r}")
        model = np.array(im.data, dtype=float)
        if done and name not in ("copy", "demosaic", "demodulate"):
            after |= demo is not None or "copy" in done or "demodulate" in done
        done.append(name)
        ctx.label(name, "demosaiced" if demo else None)
    ctx.nt(after and len(set(done) - {"copy", "demosaic", "demodulate"}) >= 2)
