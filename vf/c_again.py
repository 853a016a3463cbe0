"""C46, and a part of most other properties: asked again, with the same objects holding other values, results follow the values."""
import os
import shutil

import matplotlib.pyplot as plt
import numpy as np
from astropy.io import fits
from hypothesis import strategies as st

import micropolarray as ml
from vf import gen, util
from vf.c_calib import signal_images
from vf.c_misc import planes, stairs
from vf.c_pixels import IM, MI
from vf.c_regions import disk
from vf.c_routes import _read, _show
from vf.core import same, check, sub
from vf.gen import perms


class World:
    """the objects operations are asked of; copy() makes new objects that hold the same values"""

    def __init__(w, tmp, dic, salt, h, w_, mij, cals):
        w.tmp, w.dic, w.mij, w.mode, w.n, w.written = tmp, dic, mij, None, [0], False
        w.dirs = (os.path.join(tmp, "cal"), os.path.join(tmp, "cal2"))[:cals]
        for d, m in zip(w.dirs, mij):
            util.write_tensor(d, m)
        w.turns, w.demodulated = [], False
        w.D = [ml.Demodulator(d) for d in w.dirs]
        s = (h, w_)
        w.arr, w.arr2 = gen.hashint(salt, s, 0, 900).astype(float), gen.hashint(salt, s, 1, 9, 1).astype(float)
        w.im, w.ot, w.fl = (w.mosaic(x) for x in (gen.hashint(salt, s, 50, 4000, 2), gen.hashint(salt, s, 1, 9, 3), gen.hashint(salt, s, 0, 1, 4)))
        w.pl, w.po = IM(gen.hashint(salt, s, 0, 900, 5)), IM(gen.hashint(salt, s, 0, 9, 6))
        w.file, w.raw = os.path.join(tmp, "in.fits"), os.path.join(tmp, "in.raw")
        w.camera, w.extras, w.seed = camera(s, salt), {}, salt
        w.S = gen.hashint(salt, (3,) + s, -9, 9, 13).astype(float)
        w.write_files(salt, s)

    def write_files(w, salt, s):
        w.disk = gen.hashint(salt, s, 0, 4000, 7)
        util.write_fits(w.file, w.disk)
        np.asarray(w.disk).astype("<u2").tofile(w.raw)

    def extra(w, n):
        """arrays only some operations need"""
        if n not in w.extras:
            w.extras[n] = _extra(n, w.seed)
        return w.extras[n]

    def mosaic(w, a):
        return MI(np.array(a, dtype=float), angle_dic=dict(w.dic))

    def copy(w):
        v = object.__new__(World)
        v.__dict__.update(w.__dict__)
        v.tmp = os.path.join(w.tmp, f"w{w.n[0]}")
        w.n[0] += 1
        os.makedirs(v.tmp)
        v.file, v.raw = os.path.join(v.tmp, "other.fits"), os.path.join(v.tmp, "other.raw")
        shutil.copy(w.file, v.file), shutil.copy(w.raw, v.raw)
        v.arr, v.arr2, v.disk, v.S = np.array(w.arr), np.array(w.arr2), np.array(w.disk), np.array(w.S)
        v.im, v.ot, v.fl = (w.mosaic(x.data) for x in (w.im, w.ot, w.fl))
        if w.mode:
            v.im.demosaic(w.mode)
        v.extras = {n: [np.array(y) for y in x] if isinstance(x, list) else np.array(x) for n, x in w.extras.items()}
        v.camera = camera(w.arr.shape, 0)
        v.camera.occulter_pos_last = list(w.camera.occulter_pos_last)
        v.pl, v.po = IM(np.array(w.pl.data)), IM(np.array(w.po.data))
        v.dirs = tuple(os.path.join(v.tmp, f"c{k}") for k in range(len(w.dirs)))
        v.D = []
        for d, e in zip(w.dirs, v.dirs):
            shutil.copytree(d, e)
            v.D.append(ml.Demodulator(e))
            for t in w.turns:
                turn(v.D[-1], t)
        return v

    def params(w):
        return [w.arr.shape[0] // 2, w.arr.shape[1] // 2]


def _extra(n, salt):
    if n == "dark disk":
        return disk(dict(h=90, w=96, r=salt % 7 / 7, dy=salt % 5 / 5, dx=salt % 11 / 11, soft=1.0, lo=10, amp=1000, whole=False, noise=0, dt="f8", salt=salt))[0]
    if n == "square":
        return gen.hashint(salt, (16, 16), 0, 999, 31)
    return [np.array(x, dtype=float) for x in signal_images(dict(salt=salt, side=60, level=[4000, 10000, 50000][salt % 3], spread=0.005))[0]]


def camera(s, salt):
    cam = ml.PolarCam()
    cam.h_image, cam.w_image = s
    cam.occulter_pos_last = [s[0] // 2 + salt % 3, s[1] // 2 - salt % 2, 1 + salt % 4]
    return cam


def turn(D, t):
    D.flip(t) if t < 2 else D.rot90(2)


def _img(x):
    return _show(x)


def _plain(x):
    return dict(pixels=np.array(x.data, dtype=float), size=np.array([x.height, x.width]))


def _place(w, again):
    """a new folder, or the one of this operation"""
    d = os.path.join(w.tmp, f"place {w.op}" if again else f"e{w.n[0]}")
    w.n[0] += 1
    os.makedirs(d, exist_ok=True)
    return d


def _files(w, fn, again=None):
    d = _place(w, w.k % 2 if again is None else again)
    fn(os.path.join(d, "e.fits"))
    return _read(d)


def _same_place(w, fn):
    return _files(w, fn, True)


def _figure(fn):
    """everything drawn"""
    try:
        fn()
        out = {}
        for f in plt.get_fignums():
            for k, ax in enumerate(plt.figure(f).axes):
                for j, i in enumerate(ax.get_images()):
                    out[f"image {f} {k} {j}"] = np.ma.filled(np.ma.asarray(i.get_array()).astype(float), np.nan)
                for j, s in enumerate(stairs(ax)):
                    out[f"bars {f} {k} {j}"] = np.asarray(s[0], dtype=float)
        return out
    finally:
        plt.close("all")


def _raw(w, o, fn):
    p = os.path.join(_place(w, w.k % 2), "r.raw")
    fn(p)
    return dict(r=np.fromfile(p, dtype="<i2"))


def _set_mode(w, m):
    w.im.demosaic(m)
    w.mode = m
    return w.im


def _errors(E):
    return dict(S=np.array(E.sigma_S), pB=np.array(E.sigma_pB), DoLP=np.array(E.sigma_DoLP), AoLP=np.array(E.sigma_AoLP))


MODES = ["adjacent", "mean", "spline"]
OPS = {
    # o: k a small number 0..5, y and x small signed numbers
    "parameters": lambda w, o: _img(w.im),
    "split": lambda w, o: dict(r=ml.split_polarizations(w.arr)), "merge": lambda w, o: dict(r=ml.merge_polarizations([w.arr, w.arr2, w.arr, w.arr2][o["k"] % 2:][:3] + [w.arr])),
    "rebin": lambda w, o: w.im.rebin(1 + o["k"] % 3), "rebin plain": lambda w, o: w.pl.rebin(1 + o["k"] % 4),
    "shift": lambda w, o: w.im.shift(o["y"], o["x"], o["k"]), "shift plain": lambda w, o: w.pl.shift(o["y"], o["x"], o["k"]),
    "demosaic array": lambda w, o: dict(r=np.array(ml.demosaic(w.arr, MODES[o["k"] % 3]))), "demosaic": lambda w, o: _set_mode(w, MODES[o["k"] % 3]),
    "congrid": lambda w, o: w.im.congrid(w.im.data.shape[0] + 2 * abs(o["y"]), w.im.data.shape[1] + 2 * abs(o["x"])), "congrid array": lambda w, o: dict(r=ml.congrid(w.arr, (w.arr.shape[0] + abs(o["y"]), w.arr.shape[1] + o["k"]))),
    "rotate": lambda w, o: w.im.rotate([0, 30, 90, 180, -90, 45][o["k"]]),
    "+": lambda w, o: w.im + w.ot, "-": lambda w, o: w.im - w.ot, "*": lambda w, o: w.ot * w.ot, "/": lambda w, o: w.im / w.ot, "+array": lambda w, o: w.im + w.arr, "/array": lambda w, o: w.im / w.arr, "*number": lambda w, o: w.ot * o["y"], "/number": lambda w, o: w.im / o["y"],
    "plain+": lambda w, o: w.pl + w.po, "plain-": lambda w, o: w.pl - w.po, "plain/": lambda w, o: w.pl / w.po, "plain*": lambda w, o: w.pl * o["k"],
    "dark": lambda w, o: w.im.subtract_dark(w.ot), "flat": lambda w, o: w.im.correct_flat(w.ot), "both": lambda w, o: MI(np.array(w.im.data), angle_dic=dict(w.dic), dark=w.fl, flat=w.ot), "ifov": lambda w, o: w.im.correct_ifov(),
    "save": lambda w, o: _files(w, w.im.save_as_fits), "save over": lambda w, o: _same_place(w, w.im.save_as_fits), "save plain": lambda w, o: _files(w, w.pl.save_as_fits),
    "load": lambda w, o: _img(MI(w.file, angle_dic=dict(w.dic))), "load plain": lambda w, o: _plain(IM(w.file)), "load twice": lambda w, o: _img(MI([w.file, w.file], averageimages=bool(o["k"] % 2), angle_dic=dict(w.dic))),
    "single": lambda w, o: _files(w, w.im.save_single_pol_images), "all": lambda w, o: _files(w, w.im.save_all_pol_params_as_fits), "one": lambda w, o: _files(w, lambda p: w.im.save_param_as_fits(["I", "Q", "U", "pB", "AoLP", "DoLP"][o["k"]], p)),
    "demosaiced": lambda w, o: _files(w, MI(np.array(w.im.data), angle_dic=dict(w.dic)).demosaic(MODES[o["k"] % 3]).save_demosaiced_images_as_fits), "demosaiced same": lambda w, o: _files(w, w.im.save_demosaiced_images_as_fits) if w.mode else {},
    "to raw": lambda w, o: _raw(w, o, w.im.save_as_raw), "raw": lambda w, o: (ml.convert_rawfile_to_fits(w.raw, *w.disk.shape), dict(r=util.read_primary(w.raw[:-3] + "fits")[0]))[1],
    "merge raw": lambda w, o: _files(w, lambda p: ml.merge_rawfiles_to_fits([w.raw, w.raw], p, *w.disk.shape, mode=["sum", "mean"][o["k"] % 2])), "average raw": lambda w, o: _files(w, lambda p: ml.average_rawfiles_to_fits([w.raw, w.raw], p, *w.disk.shape)),
    "demodulate": lambda w, o: w.im.demodulate(w.D[o["k"] % 2]) if w.mij[0].shape[2:] == (w.im.data.shape[0] // 2, w.im.data.shape[1] // 2) else w.im, "open": lambda w, o: (lambda D: dict(mij=np.array(D.mij)))(ml.Demodulator(w.dirs[o["k"] % 2])),
    "error": lambda w, o: _errors(ml.MicropolImageError(w.im, w.arr, w.D[o["k"] % 2])) if w.mij[0].shape[2:] == w.im.I.data.shape else {},
    "roi": lambda w, o: dict(r=ml.roi_from_polar(w.arr, w.params(), [o["k"], o["k"] + 4], theta=[10 * abs(o["y"]), 170], fill=-3, include_superpixels=bool(o["x"] % 2))),
    "mask": lambda w, o: (w.im.mask_occulter(y=w.params()[0] + o["y"], x=w.params()[1] + o["x"], r=o["k"] + 1), w.im)[1],
    "camera": lambda w, o: dict(r=np.array(w.camera.occulter_mask(overoccult=o["k"] % 2, rmax=[4, 6, 40][o["k"] % 3]), dtype=float), roi=np.array(w.camera.occulter_roi(w.arr, float(o["y"])))),
    "nrgf": lambda w, o: dict(r=ml.nrgf(w.arr, w.params()[0] + o["y"] % 2, w.params()[1], o["k"] // 3, 1 + o["k"] % 3)),
    "line": lambda w, o: dict(enumerate(map(np.array, ml.linear_roi(w.arr, [0, o["k"] % 3], [w.arr.shape[0] - 1, w.arr.shape[1] // 2])))), "radial": lambda w, o: dict(enumerate(map(np.array, ml.linear_roi_from_polar(w.arr, w.params(), 40 * o["x"] % 360)))),
    "clean": lambda w, o: w.im.clean_hot_pixels(w.fl), "hot": lambda w, o: dict(r=np.array(ml.get_hot_pixels(w.im, threshold=[100, 0.5, 900][o["k"] % 3]).data)), "threshold": lambda w, o: dict(r=np.array(ml.auto_threshold(np.floor(w.arr[:8, :8] / 9) if w.arr.max() > 99 else w.arr[:8, :8]))),
    "threshold same": lambda w, o: dict(r=np.array(ml.auto_threshold(w.arr2))),
    "reject": lambda w, o: dict(r=np.array(_mod("processing.image_cleaning").reject_outliers(w.arr, 1 + o["k"] / 2))),
    "angles": lambda w, o: dict(r=np.array(_mod("utils").normalize2piarray(w.arr / 100))), "statistics": lambda w, o: dict(r=np.array([f(w.arr, o["k"]) for f in (ml.mean_plus_std, ml.mean_minus_std, ml.median_plus_std, ml.median_minus_std)])),
    "noise": lambda w, o: dict(r=np.array(ml.sigma_DN(w.arr))),
    "show": lambda w, o: _figure(lambda: w.im.show()), "show plain": lambda w, o: _figure(lambda: w.pl.show()), "histogram": lambda w, o: _figure(lambda: w.im.show_histogram(split_pols=bool(o["k"] % 2), bins=4 + o["k"])), "histogram plain": lambda w, o: _figure(lambda: w.pl.show_histogram(bins=4)),
    "show with": lambda w, o: _figure(lambda: w.im.show_with_pol_params()), "show params": lambda w, o: _figure(lambda: w.im.show_pol_params()), "show param": lambda w, o: _figure(lambda: w.im.show_pol_param(["I", "Q", "U", "pB", "AoLP", "DoLP"][o["k"]])),
    "show single": lambda w, o: _figure(lambda: w.im.show_single_pol_images()), "show demo": lambda w, o: _figure(lambda: w.im.show_demo_images()) if w.mode else {}, "show calibration": lambda w, o: _figure(lambda: w.D[o["k"] % 2].show(dpi=20)),
    "disk": lambda w, o: dict(r=np.array(ml.find_occulter_position(w.extra("dark disk")), dtype=float)), "align": lambda w, o: _aligned(w, o),
    "level": lambda w, o: dict(r=np.array(float(ml.get_malus_normalization(w.extra("four"))))),
    "Stokes functions": lambda w, o: (lambda P: dict(a=P.AoLP(w.S), d=P.DoLP(w.S), p=P.pB(w.S)))(_mod("polarization_functions")),
}


def _aligned(w, o):
    h = fits.Header()
    for k, v in (("NAXIS1", 7), ("NAXIS2", 8), ("DATE-OBS", "2021-12-11"), ("TIME-OBS", "03:04:05.678")):
        h[k] = v
    h, d = ml.align_keywords_and_data(h, w.extra("square"), [900 + 30 * o["y"], 970 + 9 * o["x"]], 4.3, 1 + o["k"] % 2)
    return dict(r=d, h=np.array([h["CRPIX1"], h["CRPIX2"], h["CDELT1"], h["NAXIS1"]], dtype=float))


def _mod(name):
    import importlib

    return importlib.import_module("micropolarray." + name)


CALS = ("demodulate", "open", "error", "show calibration")
# what follows pixels at once, not parameters
PIXELS = frozenset(["rebin", "shift", "+", "-", "*", "/", "+array", "/array", "*number", "/number", "dark", "flat", "ifov", "both", "save", "save over", "to raw", "single", "demosaiced", "clean", "hot",
          "demosaic", "show", "histogram", "show single"])
# and what holds of a demodulated image too
DEMODULATED = PIXELS | {"demosaiced same", "show demo", "demodulate"}
EDITS = ["items im", "items other", "im - dark", "other - dark", "file", "turn", "demodulated", "demodulated", "born", "copied"]
BORN = {  # an image of these pixels, otherwise obtained
    "file": lambda w, a: MI(util.write_fits(os.path.join(w.tmp, "born.fits"), a), angle_dic=dict(w.dic)), "files": lambda w, a: MI([util.write_fits(os.path.join(w.tmp, f"born{k}.fits"), a) for k in range(2)], angle_dic=dict(w.dic)),
    "binned": lambda w, a: MI(_spread(a), angle_dic=dict(w.dic)).rebin(2),
    "sum": lambda w, a: w.mosaic(a - 2) + w.mosaic(np.full(a.shape, 2.0)), "shifted": lambda w, a: w.mosaic(a).shift(0, 0), "corrected": lambda w, a: MI(a + 5, dark=w.mosaic(np.full(a.shape, 5.0)), flat=w.mosaic(np.ones(a.shape)), angle_dic=dict(w.dic)),
    "cleaned": lambda w, a: w.mosaic(a).clean_hot_pixels(w.mosaic(np.zeros(a.shape))), "once": lambda w, a: w.mosaic(a),
}


def _spread(a):
    """the mosaic whose 2x2 binning is a"""
    return gen.unfams([np.kron(f, np.array([[1.0, 0], [0, 0]])) for f in gen.fams(a)])


def edit(w, e, salt):
    s = w.arr.shape
    if e == "items im":
        w.arr[...] = gen.hashint(salt, s, 0, 900)
        w.pl.data[...] = gen.hashint(salt, s, 0, 900, 5)
        w.im.data[...] = gen.hashint(salt, s, 50, 4000, 2)
        w.written = True
    elif e == "items other":
        w.arr[...] = gen.hashint(salt, s, 0, 900, 8)
        w.arr2[...] = gen.hashint(salt, s, 1, 9, 1)
        w.po.data[...] = gen.hashint(salt, s, 0, 9, 6)
        w.fl.data[...] = gen.hashint(salt, s, 0, 1, 4)
        w.ot.data[...] = gen.hashint(salt, s, 1, 9, 3)
        w.seed = salt
        for n, x in w.extras.items():
            if isinstance(x, list):
                for y, z in zip(x, _extra(n, salt)):
                    y[...] = z
            else:
                x[...] = _extra(n, salt)
        w.camera.occulter_pos_last = camera(s, salt).occulter_pos_last
        w.S[...] = gen.hashint(salt, w.S.shape, -9, 9, 13)
    elif e == "im - dark":
        w.im.subtract_dark(w.mosaic(gen.hashint(salt, s, 0, 30, 9)))
    elif e == "other - dark":
        w.ot.correct_flat(w.mosaic(gen.hashint(salt, s, 1, 4, 10)))
    elif e == "file":
        w.write_files(salt, s)
        for d, lane in zip(w.dirs, (11, 12)):
            util.write_tensor(d, gen.hashint(salt, w.mij[0].shape, -3, 3, lane), whole=salt % 2)
        w.D, w.turns = [ml.Demodulator(d) for d in w.dirs], []
    elif e == "demodulated":
        fresh = [ml.Demodulator(d) for d in w.dirs]
        whole = bool(salt % 2) and w.mode != "mean"
        if salt % 3 == 0 and not whole:
            w.ot = w.ot.demodulate(fresh[0])
        else:
            w.im = w.im.demodulate(fresh[salt % 2], demosaicing=whole)
            w.mode = "adjacent" if whole else w.mode
            w.demodulated = True
    elif e == "born":
        a = np.array(w.im.data)
        w.im, w.mode, w.written, w.demodulated = BORN[sorted(BORN)[salt % len(BORN)]](w, a), None, False, False
        same(w.im.data, a, "the pixels of the same image otherwise obtained", 1e-9, 1e-9)
    elif e == "copied":
        w.im, w.ot = MI(w.im), MI(w.ot)
    elif e == "turn":
        w.turns = w.turns + [salt % 3]
        for D in w.D:
            turn(D, salt % 3)


def see(r):
    return r if isinstance(r, dict) else _img(r) if isinstance(r, MI) else _plain(r)


def spoil(w, r):
    """what came out belongs to the caller"""
    if r is w.im:
        return
    for a in list(r.values()) if isinstance(r, dict) else [r.data]:
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = 1 if a.dtype == bool else 77


def again_case(names, extra):
    o = st.fixed_dictionaries(dict(k=st.integers(0, 5), y=st.integers(-2, 2), x=st.integers(-2, 2)))

    @st.composite
    def f(draw):
        ops = draw(st.lists(st.sampled_from(names), min_size=1, max_size=2))
        ops += draw(st.lists(st.sampled_from(extra), max_size=1)) if extra else []
        os_ = draw(st.lists(o, min_size=1, max_size=2))
        step = st.fixed_dictionaries(dict(op=st.sampled_from(ops), o=st.sampled_from(os_), edit=st.sampled_from([None] + EDITS), salt=gen.salts, spoil=st.booleans()))
        return dict(h=draw(st.integers(4, 8)), w=draw(st.integers(4, 8)), salt=draw(gen.salts), perm=draw(perms), steps=draw(st.lists(step, min_size=2, max_size=6)))

    return f()


def run(case, ctx):
    h, w_, salt = 2 * case["h"], 2 * case["w"], case["salt"]
    s = (3, 4, case["h"], case["w"])
    ml.set_default_angles(gen.perm((case["perm"] + 5) % 24))
    w = World(ctx.tmp, gen.perm(case["perm"]), salt, h, w_, [gen.hashint(salt, s, -3, 3, k) for k in (21, 22)], 2 if any(t["op"] in CALS or t["edit"] == "demodulated" for t in case["steps"]) else 0)
    asked, told, keep = {}, "", []
    for t in case["steps"]:
        n = t["op"]
        if w.written and n not in PIXELS or w.demodulated and n not in DEMODULATED:
            w.im.subtract_dark(w.mosaic(np.zeros((h, w_))))  # the parameters follow with the next correction
            w.written = w.demodulated = False
        v = w.copy()  # the same values in objects never used before
        keep.append(v)
        for u in (w, v):
            u.k, u.op = t["o"]["k"], f"{n} {t['o']['k']}"
        with np.errstate(all="ignore"):
            r, q = OPS[n](w, t["o"]), OPS[n](v, t["o"])
        told += f" > {n}"
        x, y = see(r), see(q)
        check(x.keys() == y.keys(), f"{told}: {sorted(map(str, x))}, from new objects {sorted(map(str, y))}")
        for k in y:
            if x[k] is None or y[k] is None:
                check(x[k] is y[k], f"{told}: {k} only there once")
            else:
                same(x[k], y[k], f"{told}: {k}, compared with new objects of the same values", 1e-12)
        ctx.label(n, t["edit"])
        key = (n, tuple(t["o"].values()))
        ctx.nt(key in asked and any(e is not None for e in asked[key]))
        if t["spoil"]:
            spoil(w, r)
        keep.append(r)
        asked.setdefault(key, [])
        if n in ("dark", "flat", "ifov", "demosaic"):
            w.written = w.demodulated = False
        if t["edit"]:
            edit(w, t["edit"], t["salt"])
            told += f" > ({t['edit']})"
        for e in asked.values():
            e.append(t["edit"])


RULE = ("2..6 operations of this property on the same objects, between which pixels, files, calibrations and earlier results are changed; every result equals that of new objects "
        "holding the same values; non-trivial: the same was asked again after a change")
FOLLOW = ["dark", "flat", "ifov", "parameters"]
PARTS = {  # operations, others in between, cases
    "C01": (["parameters", "Stokes functions"], ["dark", "flat", "ifov", "demosaic"], 100), "C02": (["split", "merge"], [], 100), "C03": (["rebin", "rebin plain"], FOLLOW, 120), "C04": (["shift", "shift plain"], FOLLOW, 120),
    "C05": (["demosaic array", "demosaic"], FOLLOW, 120), "C06": (["congrid", "congrid array"], FOLLOW, 120), "C07": (["rotate"], FOLLOW, 100),
    "C08": (["+", "-", "*", "/", "+array", "/array", "*number", "/number", "plain+", "plain-", "plain/", "plain*"], FOLLOW, 300), "C09": (["dark", "flat", "both"], ["ifov", "parameters"], 150), "C10": (["ifov"], ["dark", "flat", "parameters"], 100),
    "C13": (["save", "save over", "save plain", "load", "load plain"], FOLLOW, 150), "C14": (["single", "all", "one", "demosaiced", "demosaiced same"], FOLLOW + ["demosaic", "demosaic"], 150), "C15": (["load twice"], [], 60),
    "C16": (["to raw", "raw", "merge raw", "average raw"], FOLLOW, 120), "C18": (["demodulate"], FOLLOW, 100), "C19": (["open"], ["demodulate"], 60), "C23": (["error"], FOLLOW, 100),
    "C24": (["roi"], [], 120), "C25": (["mask", "camera"], ["dark", "flat", "parameters"], 80), "C26": (["nrgf"], [], 80), "C28": (["line", "radial"], [], 100), "C27": (["disk"], [], 40), "C33": (["align"], [], 100), "C35": (["level"], [], 40), "C29": (["clean", "hot"], FOLLOW, 120),
    "C30": (["threshold", "threshold same", "reject"], [], 80), "C31": (["angles"], [], 60), "C32": (["statistics", "noise"], [], 80),
    "C34": (["show", "show plain", "histogram", "histogram plain", "show with", "show params", "show param", "show single", "show demo", "show calibration"], ["dark", "flat", "demosaic", "demosaic"], 90),
}
for prop, (names, between, quick) in PARTS.items():
    sub(prop, "changed", again_case(names, between), quick, shards=3 if prop in ("C08", "C18", "C19", "C23", "C34") else 1, rule=RULE)(run)
EVERY = sorted(n for n in OPS if not n.startswith("show") and not n.startswith("histogram"))
sub("C46", "changed", again_case(EVERY, EVERY), 1500, shards=6, thorough=20000, rule=RULE.replace("of this property", "of any kind"))(run)
