"""C45: an image is its pixels, orientations and planes, however it was obtained."""
import copy
import os
import pickle
import shutil

import numpy as np
from hypothesis import strategies as st

import micropolarray as ml
from vf import gen, util
from vf.c_pixels import IM, MI
from vf.core import check, close, same, sub
from vf.gen import perms

TYPES = ["f8", "f8", "i2", "i4", "i8", "u2", "u4", "f4"]


def _file(c, a, name="r.fits", **k):
    return util.write_fits(os.path.join(c["tmp"], name), a, dict(EXPTIME=2.5, **k))


def _saved(c, im):
    p = os.path.join(c["tmp"], "saved.fits")
    im.save_as_fits(p)
    return p


def _raw(c, a):
    p = os.path.join(c["tmp"], "x.raw")
    np.asarray(a).astype("<u2").tofile(p)
    ml.convert_rawfile_to_fits(p, *a.shape)
    return os.path.join(c["tmp"], "x.fits")


def _merged(c, a):
    ps = [os.path.join(c["tmp"], f"m{k}.raw") for k in range(2)]
    b = gen.hashint(c["salt"], a.shape, 0, 1, 77)
    np.minimum(a, b * 9).astype("<u2").tofile(ps[0])
    (a - np.minimum(a, b * 9)).astype("<u2").tofile(ps[1])
    p = os.path.join(c["tmp"], "merged.fits")
    ml.merge_rawfiles_to_fits(ps, p, *a.shape, mode="sum")
    return p


# how the pixels come into a class(X, **k): arrays, files and other images
ROUTES = {
    "F": lambda X, a, k, c: X(gen.layout(a, "F"), **k), "strided": lambda X, a, k, c: X(gen.layout(a, "S"), **k), "negative": lambda X, a, k, c: X(gen.layout(a, "N"), **k),
    "big-endian": lambda X, a, k, c: X(gen.layout(a, "B"), **k), "read-only": lambda X, a, k, c: X(gen.layout(a, "R"), **k), "transposed": lambda X, a, k, c: X(np.array(a.T).T, **k),
    "type": lambda X, a, k, c: X(np.array(a), **k), "type2": lambda X, a, k, c: X(np.array(a), **k),
    "mapped": lambda X, a, k, c: X(_mapped(c, a), **k), "of-list": lambda X, a, k, c: X(np.array(a.tolist()), **k),
    "file": lambda X, a, k, c: X(_file(c, a), **k), "one-of-list": lambda X, a, k, c: X([_file(c, a)], **k),
    "two-halves": lambda X, a, k, c: X([_file(c, np.floor(a / 2)), _file(c, a - np.floor(a / 2), "s.fits")], averageimages=False, **k) if X is MI else X(_file(c, a), **k),
    "mean": lambda X, a, k, c: X([_file(c, a), _file(c, a, "s.fits")], averageimages=True, **k) if X is MI else X(_file(c, a), **k),
    "raw": lambda X, a, k, c: X(_raw(c, a), **k), "merged": lambda X, a, k, c: X(_merged(c, a), **k),
    "saved": lambda X, a, k, c: X(_saved(c, X(np.array(a), **k)), **k), "copy": lambda X, a, k, c: X(X(np.array(a), **k)), "plain-copy": lambda X, a, k, c: X(IM(np.array(a)), **k),
    "+0": lambda X, a, k, c: X(np.array(a), **k) + 0, "*1": lambda X, a, k, c: X(np.array(a), **k) * 1, "-zeros": lambda X, a, k, c: X(np.array(a), **k) - np.zeros(a.shape),
    "/1": lambda X, a, k, c: X(np.array(a), **k) / 1, "sum": lambda X, a, k, c: X(np.floor(a / 2), **k) + X(a - np.floor(a / 2), **k),
    "rebin1": lambda X, a, k, c: X(np.array(a), **k).rebin(1), "shift00": lambda X, a, k, c: X(np.array(a), **k).shift(0, 0),
    "there-and-back": lambda X, a, k, c: _cut(X(np.array(a), **k), a), "merged-families": lambda X, a, k, c: X(ml.merge_polarizations(list(gen.fams(a))), **k),
    "corrected": lambda X, a, k, c: X(a + 3.0, dark=MI(np.full(a.shape, 3.0), **k), **k) if X is MI else X(np.array(a)),
    "cleaned": lambda X, a, k, c: X(np.array(a), **k).clean_hot_pixels(MI(np.zeros(a.shape), **k)) if X is MI else X(np.array(a)),
    "pickled": lambda X, a, k, c: pickle.loads(pickle.dumps(X(np.array(a), **k))), "deep copy": lambda X, a, k, c: copy.deepcopy(X(np.array(a), **k)),
    "subclass": lambda X, a, k, c: X(np.array(a).view(Sub), **k),
}
FILES = ("file", "one-of-list", "two-halves", "mean", "raw", "merged", "saved", "mapped")


class Sub(np.ndarray):
    """an array subclass without behaviour of its own"""


def _mapped(c, a):
    p = os.path.join(c["tmp"], "m.dat")
    np.array(a).tofile(p)
    return np.memmap(p, dtype=a.dtype, mode="r", shape=a.shape)


def _cut(im, a):
    """shifted out and in again by nothing that leaves the frame"""
    big = type(im)(np.pad(np.array(im.data), 4), **(dict(angle_dic=im.angle_dic) if isinstance(im, MI) else {}))
    big = big.shift(2, -2).shift(-2, 2)
    return type(im)(np.asarray(big.data)[4:-4, 4:-4], **(dict(angle_dic=im.angle_dic) if isinstance(im, MI) else {}))


def _show(im):
    """what can be seen of an image"""
    d = dict(pixels=np.array(im.data, dtype=float), size=np.array([im.height, im.width]), naxis=np.array([im.header["NAXIS2"], im.header["NAXIS1"]]))
    if isinstance(im, MI):
        for n in ("I", "Q", "U", "pB", "AoLP", "DoLP", "pol0", "pol45", "pol_45", "pol90"):
            d[n] = np.array(getattr(im, n).data, dtype=float)
        d["subimages"] = np.array(im.single_pol_subimages, dtype=float)
        d["demosaiced"] = None if im.demosaiced_images is None else np.array(im.demosaiced_images, dtype=float)
        d["assignment"] = np.array([im.angle_dic[x] for x in gen.ANGLES])
    return d


def _read(folder):
    return {os.path.basename(p): util.read_primary(os.path.join(folder, p))[0] for p in sorted(os.listdir(folder))}


def _export(im, c, how):
    d = os.path.join(c["tmp"], f"e{c['n'][0]}")
    c["n"][0] += 1
    os.makedirs(d)
    p = os.path.join(d, "e.fits")
    if how == "save":
        im.save_as_fits(p)
    elif how == "raw":
        im.save_as_raw(os.path.join(d, "e.raw"))
        return {"e.raw": np.fromfile(os.path.join(d, "e.raw"), dtype="<i2")}
    elif how == "params":
        im.save_all_pol_params_as_fits(p)
    elif how == "single":
        im.save_single_pol_images(p)
    elif how == "demosaiced":
        MI(im).demosaic().save_demosaiced_images_as_fits(p)
    return _read(d)


def _params(im):
    return dict(angle_dic=im.angle_dic) if isinstance(im, MI) else {}


# steps that give the next image; o has two small numbers y, x and a salt
STEPS = {
    "rebin": lambda im, o, c: im.rebin(2), "rebin1": lambda im, o, c: im.rebin(1), "shift": lambda im, o, c: im.shift(o["y"], o["x"]), "shift-missing": lambda im, o, c: im.shift(o["y"], o["x"], 5),
    "+3": lambda im, o, c: im + 3, "*2": lambda im, o, c: im * 2, "/4": lambda im, o, c: im / 4, "/image": lambda im, o, c: im / type(im)(gen.hashint(o["salt"], im.data.shape, 0, 3), **_params(im)),
    "+image": lambda im, o, c: im + type(im)(gen.hashint(o["salt"], im.data.shape, 0, 9), **_params(im)), "+array": lambda im, o, c: im + gen.hashint(o["salt"], im.data.shape, 0, 9),
    "-array": lambda im, o, c: im - gen.hashint(o["salt"], im.data.shape, 0, 9).astype(c["dt"]), "*self": lambda im, o, c: im * im, "+self": lambda im, o, c: im + im, "copy": lambda im, o, c: type(im)(im), "reload": lambda im, o, c: type(im)(_again(im, c), **_params(im)),
    "rotate": lambda im, o, c: im.rotate(90 * o["y"] + (17 if o["x"] > 2 else 0)), "congrid": lambda im, o, c: im.congrid(im.data.shape[0] + 2 * abs(o["y"]), im.data.shape[1] + 2 * o["x"] % 4),
    "dark": lambda im, o, c: im.subtract_dark(MI(gen.hashint(o["salt"], im.data.shape, 0, 9).astype(c["dt"]), **_params(im))),
    "flat": lambda im, o, c: im.correct_flat(MI(gen.hashint(o["salt"], im.data.shape, 1, 9).astype(c["dt"]), **_params(im))), "ifov": lambda im, o, c: im.correct_ifov(),
    "adjacent": lambda im, o, c: im.demosaic(), "mean": lambda im, o, c: im.demosaic("mean"), "spline": lambda im, o, c: im.demosaic("spline"),
    "demodulate": lambda im, o, c: im.demodulate(c["cal"](im)) if im.demosaiced_images is None else im, "demodulate-whole": lambda im, o, c: im.demodulate(c["cal"](im), demosaicing=True),
    "clean": lambda im, o, c: im.clean_hot_pixels(MI((gen.hash01(o["salt"], im.data.size).reshape(im.data.shape) < 0.2).astype(c["dt"]), **_params(im))),
    "mask": lambda im, o, c: (im.mask_occulter(y=im.data.shape[0] // 2, x=im.data.shape[1] // 2, r=abs(o["y"]) + 1), im)[1],
    "pixel": lambda im, o, c: (im.data.__setitem__((0, 0), 9), im)[1] if im.data.flags.writeable else im,
}
LOADED = ("-array", "*self")  # on numbers that may not hold the result only after loading, which gives doubles
PLAIN = LOADED + ("shift", "shift-missing", "rebin", "rebin1", "+3", "*2", "/4", "/image", "+image", "+array", "+self", "copy", "reload")
# what is made of an image at the end
ENDS = {
    "save": lambda im, o, c: _export(im, c, "save"), "raw": lambda im, o, c: _export(im, c, "raw"), "params": lambda im, o, c: _export(im, c, "params"), "single": lambda im, o, c: _export(im, c, "single"),
    "demosaiced": lambda im, o, c: _export(im, c, "demosaiced"), "hot": lambda im, o, c: dict(map=np.array(ml.get_hot_pixels(im, threshold=0.3137).data)),
    "nrgf": lambda im, o, c: dict(r=ml.nrgf(im.data, im.data.shape[0] // 2, im.data.shape[1] // 2, 0, 2)),
    "roi": lambda im, o, c: dict(r=ml.roi_from_polar(im.data, [im.data.shape[0] // 2, im.data.shape[1] // 2], [1, 3 + abs(o["y"])], theta=[20, 200], fill=7, include_superpixels=not (im.data.shape[0] % 2 or im.data.shape[1] % 2))),
    "line": lambda im, o, c: dict(enumerate(map(np.array, ml.linear_roi(im.data, [0, 0], [im.data.shape[0] - 1, im.data.shape[1] // 2])))),
    "radial": lambda im, o, c: dict(enumerate(map(np.array, ml.linear_roi_from_polar(im.data, [im.data.shape[0] // 2, im.data.shape[1] // 2], 40 * o["x"] % 360)))),
    "error": lambda im, o, c: (lambda E: dict(S=np.array(E.sigma_S), pB=np.array(E.sigma_pB), DoLP=np.array(E.sigma_DoLP), AoLP=np.array(E.sigma_AoLP)))(ml.MicropolImageError(im, MI(np.sqrt(np.abs(np.asarray(im.data, dtype=float))), **_params(im)).data, c["cal"](im))),
    "congrid": lambda im, o, c: dict(r=ml.congrid(im.data, (im.data.shape[0] + 1, im.data.shape[1] + 2))), "statistics": lambda im, o, c: dict(r=np.array([f(im.data, 2) for f in (ml.mean_plus_std, ml.mean_minus_std, ml.median_plus_std, ml.median_minus_std)])),

    "as-dark": lambda im, o, c: _show(MI(gen.hashint(o["salt"], im.data.shape, 0, 400), **_params(im)).subtract_dark(im)),
    "as-flat": lambda im, o, c: _show(MI(gen.hashint(o["salt"], im.data.shape, 0, 400), **_params(im)).correct_flat(im)),
    "as-second": lambda im, o, c: _show(MI(gen.hashint(o["salt"], im.data.shape, 0, 400), **_params(im)) / im), "split": lambda im, o, c: dict(r=ml.split_polarizations(im.data)),
    "demosaic-array": lambda im, o, c: dict(r=np.array(ml.demosaic(im.data, "adjacent"))),
    "histogram": lambda im, o, c: dict(threshold=np.array(ml.auto_threshold(np.asarray(im.data)[:10, :10])) if np.ptp(np.asarray(im.data)[:10, :10]) > 0 else np.zeros(1)),
}


def _again(im, c):
    p = os.path.join(c["tmp"], f"again{c['n'][0]}.fits")
    c["n"][0] += 1
    im.save_as_fits(p)
    return p


def _compare(x, y, what, tol, size):
    """what is seen of two images or exports, but angles and ratios only where they mean something"""
    check(x.keys() == y.keys(), f"{what}: {sorted(map(str, x))}, otherwise {sorted(map(str, y))}")
    for n in y:
        if y[n] is None or x[n] is None:
            check(x[n] is y[n], f"{what}: {n} only there once")
        elif n in ("AoLP", "DoLP") and "pixels" in y:
            I, P = np.abs(y["I"]), y["pB"]
            if tol < 1e-6:
                m = (P > 1e-6 * size) if n == "AoLP" else (I > 1e-6 * size)
                check(x[n].shape == y[n].shape, f"{what}: shape of {n}")
                d = x[n] - y[n]
                d = np.sin(d) if n == "AoLP" else d / (1 + np.abs(y[n]))
                same(np.where(m, d, 0), np.zeros(d.shape), f"{what}: difference in {n}", None, 1e-5)
        else:
            same(x[n], y[n], f"{what}: {n}", tol, tol * size)


def _equal(x, y):
    return all((x[n] is None) == (y[n] is None) and (x[n] is None or np.array_equal(x[n], y[n], equal_nan=True)) for n in ("pixels", "I", "Q", "U", "demosaiced") if n in y)


PLAIN_ENDS = ("save", "raw", "nrgf", "roi", "line", "radial", "congrid", "statistics", "split")


def _relative(folder):
    old = os.getcwd()
    os.chdir(os.path.dirname(folder))
    try:
        return ml.Demodulator(os.path.basename(folder))
    finally:
        os.chdir(old)


def _moved(folder):
    shutil.copytree(folder, folder + ".copy")
    D = ml.Demodulator(folder + ".copy")
    shutil.rmtree(folder + ".copy")
    return D


def _turned(D):
    for _ in range(4):
        D.rot90()
    D.flip(0), D.flip(1), D.flip(1), D.flip(0)
    return D


# ways to come by a calibration
OPENED = {
    "again": lambda D, f: ml.Demodulator(f), "slash": lambda D, f: ml.Demodulator(f + "/"), "relative": lambda D, f: _relative(f), "moved": lambda D, f: _moved(f),
    "pickled": lambda D, f: pickle.loads(pickle.dumps(D)), "deep copy": lambda D, f: copy.deepcopy(D), "turned and back": lambda D, f: _turned(ml.Demodulator(f)),
    "dotted": lambda D, f: ml.Demodulator(os.path.join(os.path.dirname(f), ".", os.path.basename(f))),
}
LAYOUTS = ("F", "strided", "negative", "big-endian", "read-only", "transposed", "type", "mapped", "subclass")


def _step(names):
    return st.fixed_dictionaries(dict(s=st.sampled_from(list(names)), y=st.integers(-3, 3), x=st.integers(-3, 3), salt=gen.salts))


@st.composite
def route_case(draw):
    plain = draw(st.integers(0, 3)) == 0
    route = draw(st.sampled_from(list(ROUTES) + 2 * list(LAYOUTS) + 2 * list(FILES)))
    steps = draw(st.lists(_step(PLAIN if plain else STEPS), min_size=1, max_size=4))
    if route in FILES and draw(st.booleans()):
        steps = [draw(_step(LOADED + ("-array",)))] + steps[:3]
    return dict(h=draw(st.integers(2, 6)), w=draw(st.integers(2, 6)), hi=draw(st.sampled_from([3, 60, 1500])), dt=draw(st.sampled_from(TYPES)), salt=draw(gen.salts), perm=draw(perms),
                plain=plain, route=route, cal=draw(st.sampled_from(list(OPENED))), pre=draw(st.sampled_from([None, None, None, "adjacent", "mean"])), steps=steps,
                ends=draw(st.lists(_step(PLAIN_ENDS if plain else ENDS), min_size=1, max_size=3)))


@sub("C45", "routes", route_case(), 3600, thorough=40000, shards=8,
     rule="the same pixels as a plain array of doubles and by one of 32 other routes (memory layouts, types, byte orders, mapped files, FITS files alone, halved or averaged, raw frames, "
          "saved and loaded, copies, pickles, neutral operations), with calibrations opened in 8 ways, then 1..4 operations and up to 3 exports, analyses or uses, the same on both; everything seen must be the same; "
          "non-trivial: at least two operations")
def c45(case, ctx):
    h, w, salt, dic = 2 * case["h"], 2 * case["w"], case["salt"], gen.perm(case["perm"])
    X = IM if case["plain"] else MI
    k = {} if X is IM else dict(angle_dic=dic)
    ml.set_default_angles(gen.perm((case["perm"] + 7) % 24))
    a = gen.hashint(salt, (h, w), 0, case["hi"])
    cals = {}

    def cal(im):
        s = (im.data.shape[0] // 2, im.data.shape[1] // 2)
        if s not in cals:
            cals[s] = util.demodulator(os.path.join(ctx.tmp, f"c{s[0]}x{s[1]}"), gen.hashint(salt, (3, 4) + s, -3, 3, 8), gen.hashint(salt, s, 0, 1, 9) if salt % 2 else None)
        return cals[s]

    other = {}

    def cal2(im):
        """the same calibration, opened in another way"""
        D = cal(im)
        s = (im.data.shape[0] // 2, im.data.shape[1] // 2)
        if s not in other:
            other[s] = OPENED[case["cal"]](D, os.path.join(ctx.tmp, f"c{s[0]}x{s[1]}"))
        return other[s]

    cref = dict(tmp=ctx.tmp, salt=salt, n=[0], cal=cal, dt=case["dt"])
    c = dict(cref, cal=cal2)
    name = case["route"]
    ref = X(a.astype("f8"), **k)
    im = ROUTES[name](X, a.astype(case["dt"]), k, c)
    check(type(im) is X, f"{name}: {type(im)}")
    ctx.label(name, case["dt"], "plain" if X is IM else None)
    ctx.nt(len(case["steps"]) > 1)
    what = f"image by {name} ({case['dt']})"
    tol = 3e-5 if case["dt"] == "f4" else 1e-9
    _compare(_show(im), _show(ref), what, tol, case["hi"])
    if case["pre"] and X is MI:
        im, ref = im.demosaic(case["pre"]), ref.demosaic(case["pre"])
        what += f" > {case['pre']}"
        _compare(_show(im), _show(ref), what, tol, case["hi"])
    with np.errstate(all="ignore"):
        for o in case["steps"]:
            s = o["s"]
            if s in LOADED and not (name in FILES and name != "mapped" or case["dt"] in ("f8", "i8")) or s == "*self" and np.abs(ref.data).max() > 1e4:
                continue
            if X is IM and s not in PLAIN or s == "pixel" and not im.data.flags.writeable:
                continue
            if s in ("rebin",) and min(ref.data.shape) < 8 or min(ref.data.shape) < 4:
                continue
            if np.abs(ref.data).max() > 7000 and case["dt"] in ("i2", "u2") and (name not in FILES or name == "mapped"):
                break
            im, ref = STEPS[s](im, o, c), STEPS[s](ref, o, cref)
            what += f" > {s}"
            ctx.label(s)
            _compare(_show(im), _show(ref), what, tol, max(np.abs(ref.data).max(), np.abs(ref.Stokes_vec).max() if X is MI else 0))
        x, y = _show(im), _show(ref)
        for o in case["ends"]:
            e = o["s"]
            if e == "split" and (im.data.shape[0] % 2 or im.data.shape[1] % 2):
                continue
            if X is IM and e not in PLAIN_ENDS:
                continue
            if not _equal(x, y) and e not in ("congrid", "split", "roi", "line", "statistics", "raw"):
                ctx.label("rounding")
                continue
            if e == "raw" and (not _equal(x, y) or y["pixels"].max() > 32767 or y["pixels"].min() < -32768):
                continue
            if e == "error" and (im.demosaiced_images is not None or np.shape(im.I.data) != (im.data.shape[0] // 2, im.data.shape[1] // 2)) or e == "radial" and not _equal(x, y):
                continue
            ctx.label(e)
            p, q = ENDS[e](im, o, c), ENDS[e](ref, o, cref)
            size = max([1e-300] + [np.abs(v[np.isfinite(v)]).max(initial=0) for v in map(np.asarray, q.values()) if v.dtype.kind in "fiu"])
            _compare(p, q, f"{what}: {e}", max(tol, 1e-9), size)
            x2, y2 = _show(im), _show(ref)
            _compare(x2, x, f"{what}, after {e}", 1e-12, case["hi"])
            _compare(y2, y, f"double array, after {e}", 1e-12, case["hi"])
