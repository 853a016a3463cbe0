"""C41: calling a function changes neither its arguments nor what other calls give."""
import contextlib
import os

import numpy as np
from astropy.io import fits
from matplotlib import rcParams
from matplotlib.axes import Axes
from matplotlib.figure import Figure
from matplotlib.patches import StepPatch
import matplotlib.pyplot as plt
from hypothesis import strategies as st

import micropolarray as ml
from micropolarray.processing.chen_wan_liang_calibration import calculate_chen_wan_lian_calibration
from vf import gen, util
from vf.c_calib import Rig, angle_sets, rig, signal_images
from vf.c_pixels import IM, MI, frozen, same_frozen
from vf.core import check, same, sub
from vf.gen import build, perms


@contextlib.contextmanager
def closing(plt):
    try:
        yield
    finally:
        plt.close("all")


def freeze(x):
    """everything an argument or result shows, copied"""
    if isinstance(x, np.ndarray) and x.dtype == object:  # the panels of a figure
        return ("list", [freeze(v) for v in x.ravel()])
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.copy())
    if isinstance(x, Figure):
        return ("list", [freeze(a) for a in x.axes])
    if isinstance(x, Axes):
        shown = [np.array(np.ma.filled(i.get_array().astype(float), np.nan)) for i in x.images] + [np.concatenate([v.ravel() for v in s.get_data()[:2]]) for s in x.patches if isinstance(s, StepPatch)]
        return ("tuple", [("value", (x.get_title(), x.get_xlabel(), x.get_ylabel(), x.figure is None)), ("tuple", [freeze(v) for v in shown]), ("value", tuple((i.get_clim(), i.get_cmap().name) for i in x.images))])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    if isinstance(x, dict):
        return ("dict", list(x), [freeze(v) for v in x.values()])
    if isinstance(x, fits.Header):
        return ("header", [tuple(c) for c in x.cards])
    if isinstance(x, IM):
        return ("image", frozen(x))
    if isinstance(x, ml.Demodulator):
        return ("calibration", freeze(x.mij), freeze(x.fit_found_flags))
    return ("value", x)


def same_freeze(x, f, what, approx=None):
    g = freeze(x)
    check(f[0] == g[0], f"{what}: {g[0]} instead of {f[0]}")
    if f[0] == "array":
        check(f[1] == g[1], f"{what}: type {g[1]} instead of {f[1]}")
        same(g[2], f[2], what)
    elif isinstance(x, (Figure, Axes)) or (isinstance(x, np.ndarray) and x.dtype == object):
        same_tree(g, f, what)
    elif f[0] in ("list", "tuple", "dict"):
        check(len(f[-1]) == len(g[-1]) and f[1:-1] == g[1:-1], f"{what}: {x!r:.200}")
        for i, (v, w) in enumerate(zip(x.values() if f[0] == "dict" else x, f[-1])):
            same_freeze(v, w, f"{what}[{(list(x)[i] if f[0] == 'dict' else i)!r}]")
    elif f[0] == "header":
        check(f[1] == g[1], f"{what}: header {[c for c in g[1] if c not in f[1]]!r:.300}")
    elif f[0] == "image":
        same_frozen(x, f[1], what)
    elif f[0] == "calibration":
        same_freeze(x.mij, f[1], what + " matrices"), same_freeze(x.fit_found_flags, f[2], what + " flags")
    else:
        check(f[1] == g[1] or (f[1] != f[1] and g[1] != g[1]), f"{what}: {g[1]!r} instead of {f[1]!r}")


def same_tree(g, f, what):
    """two frozen figures show the same"""
    check(g[0] == f[0], f"{what}: {g[0]} instead of {f[0]}")
    if g[0] == "array":
        same(g[2], f[2], what)
    elif g[0] == "value":
        check(repr(g[1]) == repr(f[1]), f"{what}: {g[1]!r} instead of {f[1]!r}")
    else:
        check(len(g[1]) == len(f[1]), f"{what}: {len(g[1])} shown instead of {len(f[1])}")
        for i, (v, w) in enumerate(zip(g[1], f[1])):
            same_tree(v, w, f"{what}[{i}]")


def arrays_of(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return []
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in arrays_of(v)]
    if isinstance(x, dict):
        return [a for v in x.values() for a in arrays_of(v)]
    if isinstance(x, MI):
        return [x.data, *arrays_of(list(x.Stokes_vec)), *arrays_of([] if x.demosaiced_images is None else list(x.demosaiced_images))]
    if isinstance(x, IM):
        return [x.data]
    if isinstance(x, ml.Demodulator):
        return [x.mij] + ([] if x.fit_found_flags is None else [x.fit_found_flags])
    return []


class World:
    """files and arguments for the calls of one case, made anew for every call"""

    def __init__(self, case, folder):
        self.case, self.folder = case, folder
        self.arr = case["arr"]
        self.h, self.w = self.arr["h"], self.arr["w"]
        self.dic = gen.perm(case["perm"])
        salt = case["salt"]
        self.mij = gen.hashint(salt, (3, 4, self.h // 2, self.w // 2), -3, 3)
        util.write_tensor(os.path.join(folder, "cal"), self.mij, np.ones((self.h // 2, self.w // 2)) if salt % 2 else None)
        cal = os.path.join(folder, "cal")
        for k, n in enumerate(("transmittancies", "efficiences", "phases")):
            util.write_fits(os.path.join(cal, n + ".fits"), gen.hashfloat(salt, (self.h, self.w), 0.3, 0.9, 80 + k))
        os.makedirs(os.path.join(cal, "covariance_tensor"))
        for i in range(3):
            for j in range(3):
                util.write_fits(os.path.join(cal, "covariance_tensor", f"C{i}{j}.fits"), gen.hashfloat(salt, (self.h, self.w), -1, 1, 90 + 3 * i + j))
        for i in range(4):
            for j in range(4):
                util.write_fits(os.path.join(folder, f"C{i}{j}.fits"), gen.hashint(salt, (self.h, self.w), -1, 2, 10 * i + j))
        util.write_fits(os.path.join(folder, "d_ij.fits"), gen.hashint(salt, (self.h, self.w), 0, 3, 50))
        self.files = [util.write_fits(os.path.join(folder, f"f{k}.fits"), build(self.arr), {"EXPTIME": k, "DATE-OBS": f"2022-12-03T10:30:0{k}"}) for k in range(2)]
        self.raws = []
        for k in range(2):
            p = os.path.join(folder, f"r{k}.raw")
            gen.hashint(salt, (self.h, self.w), 0, 4000, 60 + k).astype("<u2").tofile(p)
            self.raws.append(p)

    def a(self):
        return build(self.arr).copy() if self.case["copy"] else build(self.arr)

    def f(self):
        return np.array(build(self.arr), dtype=float)

    def other(self, k=1, lo=0, hi=9):
        return gen.hashint(self.case["salt"], (self.h, self.w), lo, hi, 70 + k)

    def im(self):
        return MI(self.a(), angle_dic=self.dic)

    def cal(self):
        return ml.Demodulator(os.path.join(self.folder, "cal"))

    def disk(self):
        y, x = np.mgrid[:90, :100]
        return 50.0 + 900 / (1 + np.exp(-(np.hypot(y - 44, x - 52) - 25)))


gen_names = ["I", "Q", "U", "pB", "AoLP", "DoLP"]


def tiny_camera():
    c = ml.PolarCam()
    c.h_image, c.w_image, c.occulter_pos_last = 48, 40, [20, 22, 6]
    return c


SMALL_LIST = [-3.0, 91.5, 200, -90, 45, 720.25]


def header():
    h = fits.Header()
    h["DATE-OBS"], h["TIME-OBS"], h["EXPTIME"] = "2022-12-03", "10:30:00", 3
    return h


# name -> (arguments(world, n) -> list, call(*arguments)); n is a number that varies the arguments
U = lambda name: getattr(__import__("micropolarray.utils", fromlist=["x"]), name)
P = lambda mod, name: getattr(__import__("micropolarray.processing." + mod, fromlist=["x"]), name)
PF = lambda name: getattr(__import__("micropolarray.polarization_functions", fromlist=["x"]), name)
ER = lambda name: P("demodulation_errors", name)
CALLS = {
    "split": (lambda W, n: [W.a()], lambda a: ml.split_polarizations(a)),
    "merge": (lambda W, n: [gen.fams(W.f())], lambda a: ml.merge_polarizations(a)),
    "demosaic": (lambda W, n: [W.a(), ["adjacent", "mean", "spline"][n % (3 if min(W.h, W.w) >= 4 else 2)]], lambda a, m: ml.demosaic(a, m)),
    "congrid": (lambda W, n: [W.a(), [W.h + n % 3, W.w] if n % 4 else [W.h, W.w]], lambda a, d: ml.congrid(a, d)),
    "roi": (lambda W, n: [W.a(), [n % W.h, W.w // 2], [n % 3, 2 + n % 9], [[0, 360], [20, 200], [-45, 90], [300, 420], [200, 20]][n % 5]], lambda a, c, r, t: ml.roi_from_polar(a, c, r, t, fill=-1, include_superpixels=True)),
    "roi-fine": (lambda W, n: [W.a(), [W.h // 2, n % W.w], [n % 3, 2 + n % 9], [[0, 360], [-90, 90]][n % 2]], lambda a, c, r, t: ml.roi_from_polar(a, c, r, t, include_superpixels=False)),
    "roi-mask": (lambda W, n: [W.a(), (W.h // 2, W.w // 2), (0, 1 + n % 9)], lambda a, c, r: ml.roi_from_polar(a, c, r, return_boolean=True)),
    "nrgf": (lambda W, n: [W.f(), W.h // 2, n % W.w, n % 3, 1 + n % 2, [[0, 360], [-30, 60], [0, 360], [330, 390], [350, 20]][n % 5], [[0, 180], [0, 270], [0, 360], [-30, 60], [300, 420]][n % 5]], lambda a, y, x, r, s, m, o: ml.nrgf(a, y, x, r, s, phi_to_mean=m, output_phi=o)),
    "occulter": (lambda W, n: [W.disk()], lambda a: ml.find_occulter_position(a)),
    "hough": (lambda W, n: [W.disk()], lambda a: [float(v) for v in ml.find_occulter_hough(a, minr=15, maxr=35)]),
    "line": (lambda W, n: [W.a(), [0, n % W.w], [W.h - 1, (n // 3) % W.w]], lambda a, s, e: ml.linear_roi(a, s, e)),
    "ray": (lambda W, n: [W.a(), [W.h // 2, W.w // 2], n % 360, [0, 2 + n % 5]], lambda a, c, t, r: ml.linear_roi_from_polar(a, c, t, r)),
    "align": (lambda W, n: [header() if n % 2 else dict(header()), np.kron(np.ones((2, 2)), W.f()[:2, :2]) + n % 7, (900 + n % 50, 950), 4.3], lambda h, d, c, p: list(ml.align_keywords_and_data(h, d, c, p))),
    "malus": (lambda W, n: [list(signal_images(dict(salt=W.case["salt"] + n, side=60, level=4000, spread=0.006))[0])], lambda v: float(ml.get_malus_normalization(v))),
    "stats": (lambda W, n: [W.a()], lambda a: [float(f(a, 2)) for f in (ml.mean_minus_std, ml.mean_plus_std, ml.median_minus_std, ml.median_plus_std)]),
    "angles": (lambda W, n: [[v + n for v in SMALL_LIST]], lambda v: ml.normalize2pi(v)),
    "angle-array": (lambda W, n: [np.deg2rad(gen.hashfloat(W.case["salt"] + n, (4, 5), -400, 400, 3))], lambda v: ml.normalize2piarray(v)),
    "noise": (lambda W, n: [np.abs(W.f())], lambda v: ml.sigma_DN(v)),
    "threshold": (lambda W, n: [np.kron(W.other(n % 5, 0, 40), np.ones((3, 3)))], lambda v: float(ml.auto_threshold(v))),
    "outliers": (lambda W, n: [W.f().ravel()], lambda v: P("image_cleaning", "reject_outliers")(v, 2.0)),
    "hot": (lambda W, n: [W.im(), 0.2], lambda im, t: ml.get_hot_pixels(im, threshold=t)),
    "chen": (lambda W, n: [W.a(), W.folder], lambda a, d: ml.chen_wan_liang_calibration(a, d)),
    "chen-calibrate": (lambda W, n: [[45, 0, -45, 90], [W.files[k] for k in (0, 1, 1, 0)], [0, 45, -45, 90], os.path.join(W.folder, "chen_out"), [None, W.files[0]][n % 2], [None, W.files[1]][n // 2 % 2]],
                       lambda p, f, m, o, d, fl: (calculate_chen_wan_lian_calibration(p, f, m, o, dark_filename=d, flat_filename=fl), [util.read_primary(os.path.join(o, x + ".fits"))[0] for x in ("C00", "C12", "d_ij")])[1]),
    "angles-too": (lambda W, n: [[v + n for v in SMALL_LIST]], lambda v: PF("normalize2pi")(v)),
    "rebin": (lambda W, n: [W.f(), 1 + n % 2 if min(W.h, W.w) >= 4 else 1], lambda a, b: P("rebin", "micropolarray_rebin")(a, b)),
    "rebin-plain": (lambda W, n: [W.f(), 1 + n % 2], lambda a, b: P("rebin", "standard_rebin")(a, b)),
    "shift": (lambda W, n: [W.f(), n % 5 - 2, n % 3 - 1, 0.0], lambda a, y, x, m: P("shift", "shift")(a, y, x, m)),
    "shift-micropol": (lambda W, n: [W.f(), n % 5 - 2, n % 3 - 1, 0.0], lambda a, y, x, m: P("shift", "shift_micropol")(a, y, x, m)),
    "ifov": (lambda W, n: [W.f(), W.h, W.w], lambda a, h, w: ml._ifov_jitcorrect(a, h, w)),
    "clip": (lambda W, n: [W.a(), *[(5, 60), (0, 9), (None, 9)][n % 3]], lambda a, lo, hi: U("fix_data")(a, lo, hi)),
    "stokes": (lambda W, n: [gen.stokes(W.f(), W.dic)], lambda S: [PF(f)(S) for f in ("pB", "AoLP", "DoLP")]),
    "errors": (lambda W, n: [MI(W.other(1, 1, 90), angle_dic=W.dic), np.abs(W.f()) + 1, W.cal()], lambda im, e, D: (lambda E: [E.sigma_S, E.sigma_pB, E.sigma_AoLP, E.sigma_DoLP])(ml.MicropolImageError(im, e, D))),
    "roi-fine-mask": (lambda W, n: [W.a(), (n % W.h, W.w // 2), (n % 2, 1 + n % 9)], lambda a, c, r: ml.roi_from_polar(a, c, r, return_boolean=True, include_superpixels=False)),
    "parameters": (lambda W, n: [W.cal(), ["tk", "eff", "phi", "Cij"][n % 4]], lambda D, p: getattr(D, p)),
    "camera-mask": (lambda W, n: [n % 4], lambda o: tiny_camera().occulter_mask(o, rmax=20 + o)),
    "camera-roi": (lambda W, n: [gen.hashint(n, (48, 40), 0, 99), n % 4], lambda a, o: tiny_camera().occulter_roi(a, overoccult=o)),
    "show": (lambda W, n: [W.im(), n % 2], lambda im, k: (IM(im) if k else im).show()),
    "show-param": (lambda W, n: [W.im(), gen_names[n % 6]], lambda im, p: im.show_pol_param(p)),
    "show-params": (lambda W, n: [W.im()], lambda im: im.show_pol_params()),
    "show-both": (lambda W, n: [W.im()], lambda im: im.show_with_pol_params()),
    "show-single": (lambda W, n: [W.im(), n % 5], lambda im, k: im.show_single_pol_images(vmin=k, vmax=900)),
    "show-demosaiced": (lambda W, n: [W.im().demosaic(), [None, 3][n % 2]], lambda im, v: im.show_demo_images(vmin=v)),
    "histogram": (lambda W, n: [W.im(), dict(bins=4 + n % 5)], lambda im, kw: im.show_histogram(**kw)),
    "show-calibration": (lambda W, n: [W.cal()], lambda D: D.show(dpi=50)),
    "camera": (lambda W, n: [W.a(), n % 4], lambda a, o: ml.PolarCam().occulter_roi(a, overoccult=-537 - o)),
    "image": (lambda W, n: [W.a(), dict(W.dic)], lambda a, d: MI(a, angle_dic=d)),
    "image-corrected": (lambda W, n: [W.a(), dict(W.dic), W.im(), MI(W.other(2, 1, 9), angle_dic=W.dic)], lambda a, d, k, f: MI(a, angle_dic=d, dark=k, flat=f)),
    "image-files": (lambda W, n: [list(W.files), bool(n % 2), dict(W.dic)], lambda f, avg, d: MI(f, averageimages=avg, angle_dic=d)),
    "plain-files": (lambda W, n: [list(W.files) if n % 2 else W.files[0]], lambda f: IM(f)),
    "demodulate": (lambda W, n: [W.im(), W.cal(), bool(n % 2)], lambda im, D, d: im.demodulate(D, demosaicing=d)),
    "open": (lambda W, n: [os.path.join(W.folder, "cal")], lambda p: ml.Demodulator(p)),
    "turned": (lambda W, n: [os.path.join(W.folder, "cal"), n % 2], lambda p, k: (lambda D: (D.flip(k), D.rot90(2), D)[2])(ml.Demodulator(p))),
    "save": (lambda W, n: [W.im(), [2, 60]], lambda im, r: (im.save_as_fits(os.path.join(out(im), "s.fits"), fixto=r), util.read_primary(os.path.join(out(im), "s.fits"))[0])[1]),
    "export": (lambda W, n: [W.im(), [0, 60]], lambda im, r: (im.save_single_pol_images(os.path.join(out(im), "s.fits"), fixto=r), im.save_param_as_fits("Q", os.path.join(out(im), "s.fits"), fixto=r), util.read_primary(os.path.join(out(im), "s_Q.fits"))[0])[2]),
    "merge-raw": (lambda W, n: [list(W.raws), W.h, W.w, ["sum", "average"][n % 2]], lambda r, h, w, m: (ml.merge_rawfiles_to_fits(r, os.path.join(os.path.dirname(r[0]), "m.fits"), h, w, mode=m), util.read_primary(os.path.join(os.path.dirname(r[0]), "m.fits"))[0])[1]),
    "arith": (lambda W, n: [W.im(), [W.other(3), MI(W.other(4), angle_dic=W.dic), 2.5][n % 3], n], lambda im, x, n: [im + x, im - x, im * x, im / x][n % 4]),
    "geometry": (lambda W, n: [MI(W.f(), angle_dic=W.dic), n], lambda im, n: [lambda: im.rotate(n % 360), lambda: im.shift(1, -1), lambda: im.rebin(1), lambda: im.congrid(W_(im)[0], W_(im)[1])][n % (4 if min(W_(im)) >= 4 else 3)]()),
    "clean": (lambda W, n: [W.im(), MI((W.other(5) < 2).astype(float), angle_dic=W.dic)], lambda im, m: im.clean_hot_pixels(m)),
}
W_ = lambda im: im.data.shape
_OUT = [None]
out = lambda im: _OUT[0]
MAY_SHARE = ("clip", "angle-array")  # give back the argument itself when there is nothing to do


@st.composite
def few_calls(draw):
    """the same functions again and again"""
    names = draw(st.lists(st.sampled_from(list(CALLS)), min_size=2, max_size=3, unique=True))
    n = draw(st.integers(0, 40))
    return [(x, draw(st.sampled_from([n, n, n + 1]))) for x in names + draw(st.permutations(names))]


@sub("C41", "calls", st.fixed_dictionaries(dict(
        arr=gen.arrays(dts=("f8", "f8", "i4", "u2", "f4"), minside=4, maxside=12, lo=0, hi=4000), perm=perms, salt=gen.salts, copy=st.booleans(), default=perms,
        ops=st.one_of(st.lists(st.tuples(st.sampled_from(list(CALLS)), st.integers(0, 40)), min_size=3, max_size=9), few_calls()))), 400, thorough=5000, shards=8,
     rule="sequences of calls of every public function and method with fresh arguments: arguments (arrays, lists, dictionaries, headers, images, calibrations) must stay as they were, earlier results must stay as "
          "they were, and calling again in another order, after everything returned has been overwritten, must give the same; non-trivial: at least three different functions")
def c41_calls(case, ctx):
    W = World(case, ctx.tmp)
    _OUT[0] = ctx.tmp
    gen.label_array(ctx, case["arr"])
    ml.set_default_angles(gen.perm(case["default"]))
    ctx.nt(len({n for n, _ in case["ops"]}) >= 3)
    ctx.label(*{n for n, _ in case["ops"]})
    state = (os.getcwd(), np.geterr(), np.random.get_state()[1].tolist())

    def run(name, n, what):
        make, call = CALLS[name]
        args = make(W, n)
        fz = [freeze(x) for x in args]
        r = call(*args)
        for i, (x, f) in enumerate(zip(args, fz)):
            same_freeze(x, f, f"{what}{name}: argument {i} was changed,")
        if name not in MAY_SHARE:
            for p in arrays_of(r):
                for q in arrays_of(args):
                    check(p.size == 0 or not np.shares_memory(p, q), f"{what}{name}: the result shares its memory with an argument")
        return r, args

    rc = dict(rcParams)
    with np.errstate(all="ignore"), closing(plt):
        state = (os.getcwd(), np.geterr(), np.random.get_state()[1].tolist())
        done = []
        for name, n in case["ops"]:
            r, args = run(name, n, "")
            for k, (r0, f0, _, old) in enumerate(done):
                same_freeze(r0, f0, f"result of {old} after calling {name}:")
            done.append((r, freeze(r), args, name))
        for k, (r0, f0, args, old) in enumerate(done):  # overwrite everything that was given out or passed in
            for p in arrays_of(r0) + arrays_of(args):
                if p.flags.writeable:
                    p[...] = np.array(77).astype(p.dtype)
        for (r0, f0, _, _), (name, n) in reversed(list(zip(done, case["ops"]))):
            r, _ = run(name, n, "again, ")
            same_freeze(r, f0, f"{name} called again after {[m for m, _ in case['ops']]}, and after all earlier results were overwritten:")
        check(dict(rcParams) == rc, "plotting settings were changed")
        check((os.getcwd(), np.geterr(), np.random.get_state()[1].tolist()) == state, "working folder, numpy error handling or random state were changed")
    check(MI(W.f()).angle_dic == gen.perm(case["default"]), "the default orientations were changed")


@sub("C41", "calibrating", st.fixed_dictionaries(dict(
        rig, h=st.sampled_from([1, 2]), w=st.sampled_from([1, 2]), angles=angle_sets(), norm=st.sampled_from(["number", "image", "stack"]), dark=st.booleans(), bounds=st.booleans(), occulter=st.booleans(),
        binning=st.sampled_from([1, 1, 2]), again=st.booleans())), 40, thorough=400, shards=4,
     rule="lists, arrays and files given to a calibration are unchanged afterwards, and calibrating again gives the same files; every case non-trivial")
def c41_calibrating(case, ctx):
    b = case["binning"]
    R = Rig(dict(case, h=case["h"] * b, w=case["w"] * b), ctx)
    ctx.nt()
    ctx.label(case["norm"], f"binning{b}")
    files = R.write()
    S = {"number": R.S, "image": np.full((R.h, R.w), R.S), "stack": np.stack([np.full((R.h, R.w), R.S)] * len(files))}[case["norm"]]
    args = dict(polarizer_orientations=list(R.angles), filenames_list=files, micropol_phases_previsions=list(R.nominal), gain=2.5, binning=b, procs_grid=[1, 1], normalizing_S=S)
    if case["dark"]:
        args.update(dark_filename=util.write_fits(os.path.join(ctx.tmp, "d.fits"), np.ones((R.h, R.w))), flat_filename=util.write_fits(os.path.join(ctx.tmp, "f.fits"), gen.hashfloat(case["salt"], (R.h, R.w), 1, 2, 8)))
    if case["bounds"]:
        args.update(tk_boundary=[0.5, 0.05, 1.5], eff_boundary=[0.5, 0.05, 1.2])
    if case["occulter"]:
        args.update(occulter=[0, 0, 2])
    fz = freeze(args)
    shown = []
    for k in range(2):
        o = os.path.join(ctx.tmp, f"o{k}")
        with np.errstate(all="ignore"):
            ml.calculate_demodulation_tensor(output_dir=o, **args)
        same_freeze(args, fz, "argument of the calibration after it")
        shown.append({os.path.relpath(os.path.join(d, n), o): util.read_primary(os.path.join(d, n))[0] for d, _, ns in os.walk(o) for n in ns})
    check(set(shown[0]) == set(shown[1]), "files of the second calibration")
    for n in shown[0]:
        same(shown[1][n], shown[0][n], f"calibrating again: {n}")
