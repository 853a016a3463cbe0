"""C24 - C28: polar regions, occulter masking, radial filter, occulter finder, line profiles."""
import os

import numpy as np
from hypothesis import strategies as st

import micropolarray as ml
from micropolarray.processing.linear_roi import bresenham
from vf import gen, util
from vf.c_pixels import ALLDT, MI, TOL, check_derived
from vf.core import Skip, check, close, fail, raises, same, sub
from vf.gen import arrays, build, perms

# ------------------------------------------------------------------------------------- C24


def polar(h, w, cy, cx):
    y, x = np.mgrid[:h, :w].astype(float)
    dy, dx = y - cy, x - cx
    return np.hypot(dy, dx), np.rad2deg(np.arctan2(dy, dx)) % 360, dy, dx


def region(h, w, cy, cx, rho, theta):
    """(selected, judged): judged is False where rounding may decide"""
    R, P, dy, dx = polar(h, w, cy, cx)
    whole = float(cy).is_integer() and float(cx).is_integer()
    sel = (R > rho[0]) & (R <= rho[1])
    unsure = np.zeros((h, w), bool)
    for b in rho:
        near = np.abs(R - b) < 1e-7 * (1 + R)
        if whole:  # squared distances are exact
            near &= (dy * dy + dx * dx) != b * b
        unsure |= near
    sel &= (P >= theta[0]) & (P < theta[1])
    exact = (dx == 0) | (dy == 0) | (np.abs(dx) == np.abs(dy))
    for b in (*theta, 0.0, 360.0):
        near = (np.abs(P - b) < 1e-6) | (np.abs(P - b) > 360 - 1e-6)
        unsure |= near & ~exact
    return sel, ~unsure


def m_roi(shape, cy, cx, rho, theta, superpixels):
    h, w = shape
    if superpixels:
        s, j = region(h // 2, w // 2, int(cy / 2), int(cx / 2), [int(rho[0] / 2), int(rho[1] / 2)], theta)
        return np.kron(s, np.ones((2, 2), bool)), np.kron(j, np.ones((2, 2), bool))
    return region(h, w, cy, cx, rho, theta)


angle = st.one_of(st.integers(0, 8).map(lambda k: 45.0 * k), st.integers(0, 360).map(float), st.integers(0, 3600).map(lambda k: k / 10))
fills = st.sampled_from([0.0, 0.0, 0, 1, -1, 7.5, 1e6, "nan"])


def fillv(f):
    return float("nan") if f == "nan" else f


@st.composite
def roi_call(draw, h, w, sup):
    c = dict(sup=sup)
    if draw(st.integers(0, 3)):
        lo, over = (0, 3) if sup else (-3, 3)
        c["center"] = [draw(st.integers(lo, h + over)), draw(st.integers(lo, w + over))]
        if not sup and draw(st.integers(0, 3)) == 0:
            c["center"] = [v + 0.5 for v in c["center"]]
    if draw(st.integers(0, 3)) and not (c.get("center") is None and draw(st.booleans())):
        m = int(np.hypot(h, w)) + 2
        a = draw(st.integers(0, m))
        b = draw(st.integers(0, m))
        a, b = min(a, b), max(a, b)
        if draw(st.integers(0, 3)) == 0:
            a = 0
        if not sup and draw(st.integers(0, 4)) == 0:
            a, b = a - 0.5, b + 0.25
        c["rho"] = [a, b]
    elif c.get("center") and not (0 <= c["center"][0] < h and 0 <= c["center"][1] < w):
        c["rho"] = [0, h + w]
    if draw(st.integers(0, 2)):
        a, b = draw(angle), draw(angle)
        c["theta"] = sorted([a, b])
    c["fill"] = draw(fills)
    c["mode"] = draw(st.sampled_from(["data", "data", "bool"]))
    c["seq"] = draw(st.sampled_from(["list", "tuple"]))
    return c


@st.composite
def roi_case(draw):
    sup = draw(st.booleans())
    a = draw(arrays(dts=ALLDT, step=2 if sup else 1, **draw(st.sampled_from([dict(minside=2 if sup else 1, maxside=20, big=60)] * 4 + [dict(minside=34, maxside=44)]))))
    calls = draw(st.lists(roi_call(a["h"], a["w"], sup), min_size=1, max_size=3))
    if not sup and a["h"] % 2 == 0 and a["w"] % 2 == 0 and a["h"] > 1 and a["w"] > 1:
        calls += draw(st.lists(roi_call(a["h"], a["w"], True), max_size=1))
    if draw(st.booleans()):  # the first call once more: same answer
        calls.append(calls[0])
    return dict(arr=a, calls=calls)


def roi_args(c, h, w):
    k = {}
    conv = list if c["seq"] == "list" else tuple
    for n in ("center", "rho", "theta"):
        if n in c:
            k[n] = conv(c[n])
    cy, cx = c.get("center") or [h // 2, w // 2]
    rho = c.get("rho") or [0, min(h - cy, w - cx)]
    return k, cy, cx, rho, c.get("theta") or [0, 360]


@sub("C24", "region", roi_case(), 900, thorough=25000, shards=3,
     rule="arrays of every pixel type, up to 5 successive calls with their own centre (in or out of the image, half pixels), radii, sectors, fill; "
          "every pixel whose membership does not hang on rounding is compared; non-trivial: some pixels kept and some dropped")
def c24(case, ctx):
    a = build(case["arr"])
    gen.label_array(ctx, case["arr"])
    h, w = a.shape
    keep = a.copy()
    mixed = False
    for n, c in enumerate(case["calls"]):
        kw, cy, cx, rho, theta = roi_args(c, h, w)
        before = {k: list(v) for k, v in kw.items()}
        sel, sure = m_roi((h, w), cy, cx, rho, theta, c["sup"])
        args = dict(kw)
        if not c["sup"]:
            args["include_superpixels"] = False
        elif n % 2:
            args["include_superpixels"] = True
        what = f"call {n} {c}"
        r = ml.roi_from_polar(a, fill=fillv(c["fill"]), **args)
        same(np.where(sure, r, 0), np.where(sure, np.where(sel, keep.astype(r.dtype), fillv(c["fill"])), 0), what)
        if c["mode"] == "bool":
            b = ml.roi_from_polar(a, return_boolean=True, **args)
            check(b.dtype == bool, what + f" boolean form has dtype {b.dtype}")
            same(b & sure, sel & sure, what + " boolean form")
            b[...] = True
        if isinstance(r, np.ndarray) and r.flags.writeable:
            check(not np.shares_memory(r, a), what + " result shares memory with the input")
            r[...] = 0  # what the caller does to a result must not show anywhere else
        same(a, keep, what + " changed the input")
        check({k: list(v) for k, v in kw.items()} == before, what + " changed its arguments")
        mixed |= bool(sel.any() and not sel.all())
        ctx.label("superpixels" if c["sup"] else "pixels", *("default " + k for k in ("center", "rho", "theta") if k not in c))
    ctx.nt(mixed)


# ------------------------------------------------------------------------------------- C25


@st.composite
def mask_case(draw):
    a = draw(arrays(dts=("f8", "f8", "f4", "i4", "u2", "i8"), minside=4, maxside=24, big=48, lo=0, hi=4000))
    h, w = a["h"], a["w"]
    r = draw(st.integers(1, max(2, min(h, w) // 2 + 2)))
    return dict(arr=a, perm=draw(perms), y=draw(st.integers(0, h - 1)), x=draw(st.integers(0, w - 1)), r=r, over=draw(st.sampled_from([None, 0, 1, 2, 5, -1 if r > 2 else 0])),
                fill=draw(fills), demo=draw(st.sampled_from([None, None, None, "adjacent", "mean", "spline"])), twice=draw(st.booleans()),
                how=draw(st.sampled_from([None, None, None, "resampled", "calibrated", "calibrated whole", "rotated", "copied"])))


@sub("C25", "mask", mask_case(), 500, thorough=12000, shards=3,
     rule="images of every assignment, demosaiced or not, masked once or twice; non-trivial: some superpixels masked and some kept",
     examples=[dict(arr=dict(h=1952, w=1952, dt="f4", kind="hash", lo=1, hi=4000, salt=5), perm=3, y=None, x=None, r=None, over=None, fill=0.0, demo=None, twice=False),
               dict(arr=dict(h=1952, w=1952, dt="i4", kind="hash", lo=1, hi=4000, salt=6), perm=0, y=None, x=None, r=None, over=15, fill=-1, demo=None, twice=False)])
def c25(case, ctx):
    a = build(case["arr"])
    gen.label_array(ctx, case["arr"])
    h, w = a.shape
    if case["demo"] == "spline" and (h < 4 or w < 4):
        raise Skip
    dic = gen.perm(case["perm"])
    im = MI(a, angle_dic=dic)
    if case["demo"]:
        im.demosaic(case["demo"])
    how = case.get("how")
    if how == "resampled":
        if min(h, w) < 4:
            raise Skip
        im = im.congrid(h, w)
    elif how in ("calibrated", "calibrated whole"):
        mij = gen.hashint(case["r"] + 7 * case["y"] if case["y"] is not None else 3, (3, 4, h // 2, w // 2), -3, 3)
        im = im.demodulate(util.demodulator(os.path.join(ctx.tmp, "cal"), mij), demosaicing=how != "calibrated")
    elif how == "rotated":
        im = im.rotate(30)
    elif how == "copied":
        im = MI(im)
    data = np.array(im.data)
    S = [np.array(p.data, dtype=float) for p in (im.I, im.Q, im.U)]
    # the parameters of a demosaiced, resampled or wholly calibrated image have one value per pixel
    per_pixel = how == "resampled" or how == "calibrated whole" or (bool(case["demo"]) and how != "calibrated")
    check(all(s.shape == ((h, w) if per_pixel else (h // 2, w // 2)) for s in S), "size of the parameters")
    demo = None if im.demosaiced_images is None else [np.array(x) for x in im.demosaiced_images]
    kw = {}
    if case["y"] is not None:
        kw = dict(y=case["y"], x=case["x"], r=case["r"])
    y, x, r = [kw.get(k, d) for k, d in zip("yxr", ml.PolarCam().occulter_pos_last)]
    if case["over"] is not None:
        kw["overoccult"] = case["over"]
        r = r + case["over"]
    fill = fillv(case["fill"])
    if case["fill"] != 0.0:
        kw["fill"] = fill
    R = polar(h // 2, w // 2, y // 2, x // 2)[0]
    half = R <= r // 2
    full = np.kron(half, np.ones((2, 2), bool))
    par = (polar(h, w, y, x)[0] <= r) if per_pixel else half
    for k in range(2 if case["twice"] else 1):
        im.mask_occulter(**kw)
        what = f"masking {k + 1}: "
        same(im.data, np.where(full, fill, data), what + "pixels")
        for n, p, s in zip("IQU", (im.I, im.Q, im.U), S):
            same(p.data, np.where(par, fill, s), what + n)
        if np.isfinite(fill):
            check_derived(im, what)
        if demo:
            for n in range(4):
                same(im.demosaiced_images[n], np.where(full, fill, demo[n]), what + f"demosaiced image {n}")
        check(im.angle_dic == dic, what + "orientation assignment changed")
        check((im.height, im.width) == (h, w), what + "size changed")
    ctx.label("demosaiced" if demo else "not demosaiced", "parameters per pixel" if per_pixel else "parameters per superpixel", f"after: {how}", f"fill {case['fill']}", "default position" if case["y"] is None else "")
    ctx.nt(full.any() and not full.all())


@st.composite
def camera_case(draw):
    h, w = [2 * draw(st.integers(4, 30)) for _ in range(2)]
    y, x = draw(st.integers(1, h // 2)), draw(st.integers(1, w // 2))
    return dict(h=h, w=w, salt=draw(gen.salts), y=y, x=x, r=draw(st.integers(1, 12)), over=draw(st.sampled_from([None, 0, 1, 3, 6])), fill=draw(fills),
                rmax=draw(st.one_of(st.none(), st.integers(0, 80))))


@sub("C25", "camera", camera_case(), 300, thorough=6000,
     rule="cameras of any size with any last occulter position (the attribute the camera documents), plus the real 1952 x 1952 one; "
          "non-trivial: some pixels selected and some not",
     examples=[dict(h=1952, w=1952, salt=1, y=None, x=None, r=None, over=None, fill=0.0, rmax=None),
               dict(h=1952, w=1952, salt=1, y=None, x=None, r=None, over=15, fill=-3, rmax=800)])
def c25_camera(case, ctx):
    cam = ml.PolarCam()
    h, w = case["h"], case["w"]
    if case["y"] is not None:
        cam.occulter_pos_last = [case["y"], case["x"], case["r"]]
        cam.h_image, cam.w_image = h, w
    y, x, r = cam.occulter_pos_last
    kw = {} if case["over"] is None else dict(overoccult=case["over"])
    r = r + (case["over"] or 0)
    data = gen.hashint(case["salt"], (h, w), 1, 4000)
    keep = data.copy()
    R = polar(h // 2, w // 2, y // 2, x // 2)[0]
    out = np.kron(R > r // 2, np.ones((2, 2), bool))
    fill = fillv(case["fill"])
    got = cam.occulter_roi(data, fill, **kw) if case["salt"] % 2 else cam.occulter_roi(data, fill=fill, **kw)
    same(got, np.where(out, keep, fill), "occulter_roi")
    same(data, keep, "occulter_roi changed its input")
    rmax = case["rmax"]
    if rmax is not None:
        kw["rmax"] = rmax
    else:
        rmax = min(y, x)
    m = cam.occulter_mask(**kw)
    check(m.dtype == bool, f"occulter_mask dtype {m.dtype}")
    want = np.kron((R > r // 2) & (R <= rmax // 2), np.ones((2, 2), bool))
    same(m, want, "occulter_mask")
    ctx.label("default rmax" if case["rmax"] is None else "rmax given")
    ctx.nt(out.any() and not out.all() and want.any())


# ------------------------------------------------------------------------------------- C26


@st.composite
def nrgf_case(draw):
    a = draw(arrays(dts=("f8", "f8", "f4", "i4", "u2", "u1"), step=1, minside=draw(st.sampled_from([4, 4, 4, 1])), maxside=32, lo=0, hi=4000, lays=("C", "C", "F", "S", "B"), frac=False))
    h, w = a["h"], a["w"]
    c = dict(arr=a, pow=draw(st.sampled_from([0, 0, 0, -2, -34, -60, 20, 40])) if a["dt"][0] == "f" else 0, y=draw(st.integers(0, h - 1)), x=draw(st.integers(0, w - 1)), rmin=draw(st.one_of(st.just(0), st.integers(0, max(h, w) // 2))),
             step=draw(st.one_of(st.just(None), st.integers(1, 6))), scale=draw(st.sampled_from([2, 3, 0.5, 10, 0.25])), off=draw(st.sampled_from([0, 16, 1024, 333])))
    for n in ("mean", "out"):
        if draw(st.booleans()):
            p, q = sorted([draw(angle), draw(angle)])
            c[n] = [p, q]
    if draw(st.integers(0, 4)) == 0:
        c["fc"] = True
    return c


def m_nrgf(a, cy, cx, rmin, step, mean, out):
    a = a.astype(float)
    h, w = a.shape
    R, P, _, _ = polar(h, w, cy, cx)
    full = [0, 360]
    ms, mj = region(h, w, cy, cx, [-1, 1e9], mean or full)
    os_, oj = region(h, w, cy, cx, [-1, 1e9], out or full)
    res = np.zeros((h, w))
    judged = np.array(oj)
    last = int(R.max())
    done = R <= rmin
    tol = np.zeros((h, w))
    for r in range(rmin, last, step):
        d2 = np.round(R * R)
        ring = (d2 > r * r) & (d2 <= (r + step) ** 2)
        done |= ring
        sel = ring & ms
        if (ring & ~mj).any():
            judged &= ~ring
            continue
        if not sel.any():  # no pixel to average over: 0
            continue
        v = a[sel]
        m, s = v.mean(), v.std()
        if (v == v[0]).all():
            continue
        res[ring & os_] = ((a - m) / s)[ring & os_]
    judged &= done  # beyond the last whole ring nothing is said
    return res, judged


@sub("C26", "rings", nrgf_case(), 500, thorough=12000, shards=3,
     rule="images with any centre, minimum radius, ring width, averaging and output sectors; each also scaled and offset; "
          "non-trivial: the expected result has at least 5 nonzero pixels")
def c26(case, ctx):
    a = build(case["arr"])
    if case.get("pow"):
        a = gen.layout((a * 2.0 ** case["pow"]).astype(a.dtype.newbyteorder("=")), case["arr"].get("lay", "C"))  # constant rings stay exactly constant
    gen.label_array(ctx, case["arr"])
    ctx.label(f"brightness 2^{case.get('pow', 0)}")
    keep = a.copy()
    kw = dict(y_center=case["y"], x_center=case["x"], rho_min=case["rmin"])
    if case.get("fc"):
        kw["y_center"], kw["x_center"] = case["y"] + 0.25, case["x"] + 0.75
    if case["step"]:
        kw["step"] = case["step"]
    if case.get("mean"):
        kw["phi_to_mean"] = list(case["mean"])
    if case.get("out"):
        kw["output_phi"] = list(case["out"])
    want, judged = m_nrgf(a, case["y"], case["x"], case["rmin"], case["step"] or 1, case.get("mean"), case.get("out"))
    got = np.asarray(ml.nrgf(a, **kw))
    check(got.shape == a.shape, f"shape {got.shape}")
    close(np.where(judged, got, 0), np.where(judged, want, 0), "filtered image", *([1e-4] * 2 if a.dtype.itemsize == 4 and a.dtype.kind == "f" else [1e-7] * 2))
    same(a, keep, "the input was changed")
    b = a.astype(float) * case["scale"] + case["off"] * 2.0 ** case.get("pow", 0)
    close(np.where(judged, np.asarray(ml.nrgf(b, **kw)), 0), np.where(judged, want, 0), f"after scaling by {case['scale']} and adding {case['off']}", 1e-6, 1e-6)
    same(np.asarray(ml.nrgf(a, **kw)), got, "second call")
    ctx.label(*(k for k in ("mean", "out") if case.get(k)), f"step {case['step']}")
    ctx.nt(np.count_nonzero(want * judged) >= 5)


# ------------------------------------------------------------------------------------- C27

unit = st.integers(0, 100).map(lambda k: k / 100)


@st.composite
def disk_case(draw, hi=200, contrast=False):
    h = draw(st.integers(80, hi))
    w = h if draw(st.integers(0, 2)) == 0 else max(80, min(hi, int(h * (0.65 + 0.85 * draw(unit)))))
    lo = draw(st.sampled_from([0, 10, 100] if contrast else [0, 10, 100, 1000]))
    return dict(h=h, w=w, r=draw(unit), dy=draw(unit), dx=draw(unit), soft=draw(st.integers(6, 16)) / 10, lo=lo,
                amp=draw(st.sampled_from([1000, 3000, 30000] if contrast else [50, 1000, 30000])), whole=draw(st.booleans()), noise=draw(st.sampled_from([0, 0, 1, 2])),
                dt=draw(st.sampled_from(["f8", "f8", "f4"])), salt=draw(gen.salts))


def disk(c, soft=True):
    h, w = c["h"], c["w"]
    m = min(h, w)
    r = (0.22 + 0.12 * c["r"]) * m
    cy, cx = h / 2 + (2 * c["dy"] - 1) * 0.3 * r, w / 2 + (2 * c["dx"] - 1) * 0.3 * r
    d = polar(h, w, cy, cx)[0] - r
    s = 1 / (1 + np.exp(-np.clip(d / c["soft"], -500, 500))) if soft else (d > 0) * 1.0
    a = c["lo"] + c["amp"] * s
    if c["noise"] and soft:
        a = np.abs(a + (gen.hash01(c["salt"], h * w) - 0.5).reshape(h, w) * 0.02 * c["noise"] * c["amp"])
    if c["whole"]:
        a = np.round(a)
    vy, vx = np.sqrt(r * r - (w // 2 - cx) ** 2), np.sqrt(r * r - (h // 2 - cy) ** 2)
    return a.astype(c["dt"]), cy, cx, r, vy, vx


@sub("C27", "fit", disk_case(), 250, thorough=6000, shards=3,
     rule="soft-edged dark disks of any position, size, contrast and brightness, square and oblong, with up to 2 % noise; the edges known from the "
          "construction; non-trivial: centre away from the image centre in both directions")
def c27(case, ctx):
    a, cy, cx, r, vy, vx = disk(case)
    keep = a.copy()
    got = ml.find_occulter_position(a)
    want = [cy, cx, (vy + vx) / 2]
    check(len(got) == 3, f"result {got}")
    for n, g, e in zip(("y", "x", "radius"), got, want):
        check(-2.0 <= g - e <= 1.1, f"{n} = {g}, the disk has {e:.2f}")
    t = ml.find_occulter_position(np.ascontiguousarray(a.T) if case["salt"] % 2 else a.T)
    check(all(abs(p - q) <= 1 for p, q in zip(t, (got[1], got[0], got[2]))), f"transposed image gives {t}, the image {got}")
    same(a, keep, "input changed")
    if case["salt"] % 4 == 0:
        n1 = np.asarray(ml.nrgf(a))
        same(np.asarray(ml.nrgf(a, got[0], got[1], got[2])), n1, "radial filter with the centre left out, compared with the position found")
        ctx.label("nrgf defaults")
    ctx.label("square" if case["h"] == case["w"] else "oblong", "noise" if case["noise"] else "clean")
    ctx.nt(abs(cy - case["h"] / 2) > 2 and abs(cx - case["w"] / 2) > 2)


@st.composite
def algo_case(draw):
    c = draw(disk_case(140))
    c["noise"] = 0
    c["whole"] = False
    c["lo"] = draw(st.sampled_from([0, 1, 10, 500]))
    c["thr"] = draw(st.sampled_from([None, 2.0, 3.0, 6.0]))
    c["ratio"] = draw(st.sampled_from([0.5, 0.9, 1.1, 1.5, 4.0]))  # background / (threshold * disk level)
    return c


@sub("C27", "algo", algo_case(), 250, thorough=5000, shards=1,
     rule="sharp-edged disks whose contrast is above or below the given threshold (then ValueError is due); non-trivial: contrast within 10 % of the threshold, or an off-centre disk")
def c27_algo(case, ctx):
    c = dict(case)
    thr = c["thr"] or 4.0
    c["amp"] = (thr * c["ratio"] - 1) * c["lo"] if c["lo"] else 100
    if c["amp"] < 0:
        c["amp"] = 0
    a, cy, cx, r, vy, vx = disk(c, soft=False)
    kw = {} if c["thr"] is None else dict(threshold=c["thr"])
    call = lambda z: ml.find_occulter_position(z, method="algo", **kw)
    if (c["lo"] and c["ratio"] < 1) or not c["amp"]:
        raises(ValueError, lambda: call(a), "no edge above the threshold")
        ctx.label("no edge")
        ctx.nt()
        return
    got = call(a)
    for n, g, e in zip(("y", "x", "radius"), got, [cy, cx, (vy + vx) / 2]):
        check(-1.6 <= g - e <= 1.6, f"{n} = {g}, the disk has {e:.2f}")
    t = call(a.T)
    check(list(t) == [got[1], got[0], got[2]], f"transposed image gives {t}, the image {got}")
    ctx.label("edge", f"ratio {c['ratio']}")
    ctx.nt(c["ratio"] == 1.1 or abs(cy - c["h"] / 2) > 2)


@sub("C27", "hough", disk_case(200, True), 150, thorough=3000, shards=2,
     rule="well contrasted disks, radius bounds around the true one; non-trivial: oblong image or off-centre disk")
def c27_hough(case, ctx):
    a, cy, cx, r, vy, vx = disk(case)
    keep = a.copy()
    top = int(0.45 * min(case["h"], case["w"]))
    got = [lambda: ml.find_occulter_hough(a, 5, top), lambda: ml.find_occulter_hough(a, minr=5, maxr=top), lambda: ml.find_occulter_hough(a)][case["salt"] % 3]()
    for n, g, e in zip(("y", "x", "radius"), got, [cy, cx, r]):
        check(abs(g - e) <= 4, f"{n} = {g}, the disk has {e:.2f}")
    same(a, keep, "input changed")
    ctx.nt(case["h"] != case["w"] or abs(cy - cx) > 5)


# ------------------------------------------------------------------------------------- C28


@st.composite
def line_case(draw):
    a = draw(arrays(dts=("f8", "i4", "u2", "f4", "i8", "u1", "u4"), step=1, minside=2, maxside=40, kinds=["index", "hash"], npts=0))
    h, w = a["h"], a["w"]
    edge = lambda n: st.one_of(st.integers(0, n - 1), st.sampled_from([0, n - 1]))
    s, e = [draw(edge(h)), draw(edge(w))], [draw(edge(h)), draw(edge(w))]
    if s == e:
        e = [h - 1 - s[0], w - 1 - s[1]]
    if s == e:
        e = [s[0], (s[1] + 1) % w]
    return dict(arr=a, s=s, e=e, how=draw(st.sampled_from(["list", "tuple", "array", "float"])))


@sub("C28", "line", line_case(), 900, thorough=25000, shards=2,
     rule="two distinct pixels anywhere in the image, borders preferred; non-trivial: neither horizontal, vertical nor diagonal")
def c28(case, ctx):
    a = build(case["arr"])
    s, e = case["s"], case["e"]
    if a.dtype.kind == "f" and case["arr"].get("salt", 1) % 5 == 0:
        a = np.array(a)
        a[e[0], e[1]] = np.nan
    conv = dict(list=list, tuple=tuple, array=np.array, float=lambda v: [float(i) for i in v])[case["how"]]
    keep = a.copy()
    r = ml.linear_roi(a, conv(s), conv(e))
    check(len(r) == 3, "linear_roi returns rows, columns, values")
    ys, xs, vals = [np.asarray(v) for v in r]
    n = max(abs(e[0] - s[0]), abs(e[1] - s[1]))
    check(len(ys) == len(xs) == len(vals) == n + 1, f"{len(ys)} rows, {len(xs)} columns, {len(vals)} values for {n + 1} steps")
    check([int(ys[0]), int(xs[0])] == s, f"starts at {ys[0], xs[0]}, asked for {s}")
    k = np.arange(n + 1)
    for name, got, p, q in (("rows", ys, s[0], e[0]), ("columns", xs, s[1], e[1])):
        check(got.dtype.kind in "iu", name + " are integers")
        exact = p + (q - p) * k / n
        if abs(q - p) == n:
            same(got, exact, name + " (longer direction)", None, 1 if abs(e[0] - s[0]) == abs(e[1] - s[1]) else 0)
        else:
            check(bool(np.all(np.abs(got - exact) <= 1 + 1e-9)), f"{name} {got.tolist()} leave the line {exact.tolist()}")
        check(abs(int(got[-1]) - q) <= 1, f"{name} end at {got[-1]}, asked for {q}")
    check(ys.min() >= 0 and xs.min() >= 0, "position outside of the image")
    same(vals, a[ys, xs], "values")
    same(a, keep, "input changed")
    d = sorted([abs(e[0] - s[0]), abs(e[1] - s[1])])
    ctx.label("vertical" if s[1] == e[1] else "horizontal" if s[0] == e[0] else "steep" if abs(e[0] - s[0]) > abs(e[1] - s[1]) else "flat")
    ctx.nt(0 < d[0] < d[1])


@sub("C28", "bresenham", st.fixed_dictionaries(dict(s=st.tuples(st.integers(0, 60), st.integers(0, 60)), dx=st.integers(1, 90), dy=st.integers(0, 90), how=st.sampled_from(["list", "tuple", "array", "float"]))), 400, thorough=20000,
     rule="lines in the first octant, for which that rasterizer is documented; non-trivial: neither horizontal nor diagonal")
def c28_bresenham(case, ctx):
    y0, x0 = case["s"]
    dx, dy = max(case["dx"], case["dy"]), min(case["dx"], case["dy"])
    conv = dict(list=list, tuple=tuple, array=np.array, float=lambda v: [float(i) for i in v])[case["how"]]
    ys, xs = bresenham(conv([y0, x0]), conv([y0 + dy, x0 + dx]))
    same(xs, x0 + np.arange(dx + 1), "columns")
    check(len(ys) == dx + 1 and np.asarray(ys).dtype.kind in "iu", f"{len(ys)} rows for {dx + 1} columns")
    exact = y0 + dy * np.arange(dx + 1) / dx
    check(bool(np.all(np.abs(ys - exact) <= 0.5 + 1e-9)), f"rows {np.asarray(ys).tolist()} are not the nearest ones to {exact.tolist()}")
    ctx.nt(0 < dy < dx)


@st.composite
def radial_case(draw):
    a = draw(arrays(dts=("f8", "i4", "u2", "f4", "i8", "u1"), step=1, minside=4, maxside=48, kinds=["index", "hash"], npts=0))
    h, w = a["h"], a["w"]
    c = [draw(st.integers(0, n - 1)) if draw(st.integers(0, 4)) else draw(st.sampled_from([0, n - 1])) for n in (h, w)]
    if draw(st.integers(0, 3)) == 0:
        c = [min(v + 0.5, n - 1.0) for v, n in zip(c, (h, w))]
    th = draw(st.one_of(st.integers(-8, 8).map(lambda k: 45 * k), st.integers(-360, 360), st.integers(-3600, 3600).map(lambda k: k / 10)))
    out = dict(arr=a, c=c, th=th)
    t = np.deg2rad(th)
    # longest possible run inside the image
    lim = [1e9]
    for v, d, n in ((c[0], -np.sin(t), h), (c[1], np.cos(t), w)):
        if d > 1e-9:
            lim.append((n - 1 - v) / d)
        elif d < -1e-9:
            lim.append(v / -d)
    room = min(lim)
    if draw(st.booleans()):
        r0 = draw(st.integers(0, max(0, int(room) - 2)))
        r1 = draw(st.one_of(st.integers(r0 + 2, r0 + 3 + max(3, int(room))), st.just(10**6)))
        out["r"] = [r0, r1]
    out["room"] = round(float(room), 6)
    return out


@sub("C28", "radial", radial_case(), 900, thorough=25000, shards=2,
     rule="centres anywhere in the image (borders preferred), every direction, radii within and beyond the image; non-trivial: at least 4 elements off the axes and diagonals")
def c28_radial(case, ctx):
    a = build(case["arr"])
    keep = a.copy()
    c, th, h, w = case["c"], case["th"], *a.shape
    r0, r1 = case.get("r", [0, 10**9])
    res = ml.linear_roi_from_polar(a, list(c), th, *([list(case["r"])] if "r" in case else []))
    check(len(res) == 4, "returns values, rows, columns, density")
    vals, ys, xs, dens = res
    ys, xs = np.asarray(ys), np.asarray(xs)
    check(len(vals) == len(ys) == len(xs) >= 1, f"{len(vals)} values, {len(ys)} rows, {len(xs)} columns")
    check(ys.min() >= 0 and ys.max() < h and xs.min() >= 0 and xs.max() < w, f"rows {ys.min()}..{ys.max()}, columns {xs.min()}..{xs.max()} leave the {h} x {w} image")
    same(vals, a[ys, xs], "values")
    same(a, keep, "input changed")
    t = np.deg2rad(th)
    u = np.array([-np.sin(t), np.cos(t)])
    P = np.stack([ys - c[0], xs - c[1]]).astype(float)
    along, across = u @ P, np.array([-u[1], u[0]]) @ P
    # positions are truncated to whole pixels at both ends and at every step
    slack = 2.5
    check(bool(np.all(np.abs(across) <= slack)), f"positions leave the direction by {np.abs(across).max():.2f} pixels")
    check(abs(along[0] - r0) <= slack, f"starts {along[0]:.2f} pixels from the centre, asked for {r0}")
    if r0 == 0:
        check(int(ys[0]) == int(c[0]) and int(xs[0]) == int(c[1]), f"starts at {ys[0], xs[0]}, centre is {c}")
    stop = min(r1, case["room"])
    check(along[-1] >= stop - 3.5, f"ends {along[-1]:.2f} pixels from the centre, expected about {stop:.2f}")
    check(along[-1] <= r1 + slack, f"ends {along[-1]:.2f} pixels from the centre, beyond {r1}")
    step = np.maximum(np.abs(np.diff(ys)), np.abs(np.diff(xs)))
    check(bool(np.all(step <= 1)), "positions jump by more than a pixel")
    n = len(vals)
    ideal = 1 / max(abs(u))
    check(np.isfinite(dens) and abs(dens - ideal) <= 4.5 / (n + 1), f"pixels per element {dens}, direction {th} has {ideal:.3f} ({n} elements)")
    ctx.label("radii given" if "r" in case else "to the edge", "at the border" if case["room"] < 2 else "")
    ctx.nt(n >= 4 and min(abs(u)) > 0.05 and abs(abs(u[0]) - abs(u[1])) > 0.05)
