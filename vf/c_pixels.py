"""C01-C10: pixel-level semantics of the mosaic."""
import os

import numpy as np
from hypothesis import strategies as st

import micropolarray as ml
from vf import gen
from vf.core import Skip, check, close, raises, same, sub
from vf.gen import arrays, build, fams, perms, unfams

MI, IM = ml.MicropolImage, ml.Image
TOL = 1e-11


def mod(name):
    import importlib

    return importlib.import_module("micropolarray." + name)


def dic_of(case, key="perm"):
    return gen.perm_shuffled(case[key], case.get("order", 0))


def check_params(im, dic, S, what="", tol=TOL):
    """I, Q, U equal S; pB, AoLP, DoLP follow from them."""
    S = np.asarray(S, dtype=float)
    I, Q, U = S
    same(im.I.data, I, what + "I", tol)
    same(im.Q.data, Q, what + "Q", tol, 1e-9 * np.max(np.abs(I), initial=0.0) if tol else 0)
    same(im.U.data, U, what + "U", tol, 1e-9 * np.max(np.abs(I), initial=0.0) if tol else 0)
    check_derived(im, what)


def check_derived(im, what=""):
    """pB, AoLP, DoLP agree with the image's own I, Q, U."""
    I, Q, U = (np.array(p.data, dtype=float) for p in (im.I, im.Q, im.U))
    P = np.hypot(Q, U)
    pB, A, D = np.asarray(im.pB.data), np.asarray(im.AoLP.data), np.asarray(im.DoLP.data)
    close(pB, P, what + "pB", 1e-9)
    check(A.shape == P.shape, what + f"AoLP shape {A.shape}")
    check(bool(np.all(np.isfinite(A))), what + "AoLP not finite")
    check(bool(np.all(np.abs(A) <= np.pi / 2 + 1e-12)), what + "AoLP outside [-pi/2, pi/2]")
    sc = np.where(P > 0, P, 1)
    same(np.where(P > 0, np.cos(2 * A), 1), np.where(P > 0, Q / sc, 1), what + "cos(2 AoLP)", None, 1e-9)
    same(np.where(P > 0, np.sin(2 * A), 0), np.where(P > 0, U / sc, 0), what + "sin(2 AoLP)", None, 1e-9)
    with np.errstate(all="ignore"):
        close(D, np.where(I != 0, P / np.where(I != 0, I, 1), 0.0), what + "DoLP", 1e-9)


def frozen(im):
    """deep snapshot of everything a user can see of an image"""
    d = dict(data=np.array(im.data), h=im.height, w=im.width, header=[(c.keyword, c.value, c.comment) for c in im.header.cards])
    if isinstance(im, MI):
        d["dic"] = dict(im.angle_dic)
        d["S"] = [np.array(p.data) for p in im.polparam_list]
        d["demo"] = None if im.demosaiced_images is None else [np.array(x) for x in im.demosaiced_images]
    return d


def same_frozen(im, f, what):
    g = frozen(im)
    same(g["data"], f["data"], what + " pixels")
    check((g["h"], g["w"]) == (f["h"], f["w"]), what + f" size {(g['h'], g['w'])}, was {(f['h'], f['w'])}")
    check(g["header"] == f["header"], what + f" header changed: {sorted(set(map(str, g['header'])) ^ set(map(str, f['header'])))[:6]}")
    if "dic" in f:
        check(g["dic"] == f["dic"], what + " orientation assignment")
        for n, a, b in zip(["I", "Q", "U", "pB", "AoLP", "DoLP"], g["S"], f["S"]):
            same(a, b, what + " " + n)
        check((g["demo"] is None) == (f["demo"] is None), what + " demosaiced images appeared or vanished")
        if f["demo"] is not None:
            for k, (a, b) in enumerate(zip(g["demo"], f["demo"])):
                same(a, b, what + f" demosaiced image {k}")


orders = st.integers(0, 23)
ALLDT = tuple(gen.DT_ALL)

# ------------------------------------------------------------------------------------- C01


@sub("C01", "params", st.fixed_dictionaries(dict(arr=arrays(dts=ALLDT, big=150), perm=perms, order=orders)), 500, shards=2,
     rule="array of any pixel type/layout/shape x 24 orientation assignments; non-trivial: Q and U not all zero")
def c01_params(case, ctx):
    a, dic = build(case["arr"]), dic_of(case)
    gen.label_array(ctx, case["arr"])
    before = a.copy()
    im = MI(a, angle_dic=dic)
    S = gen.stokes(a, dic)
    ctx.nt(np.any(S[1]) and np.any(S[2]))
    check_params(im, dic, S)
    f = fams(a)
    for name, ang in (("pol0", 0), ("pol45", 45), ("pol_45", -45), ("pol90", 90)):
        p = getattr(im, name)
        same(p.data, f[dic[ang]], name)
        check(str(p.ID) == str(ang), f"{name} is labelled {p.ID}")
    check([p.ID for p in im.polparam_list] == ["I", "Q", "U", "pB", "AoLP", "DoLP"], "polparam_list order")
    for p in im.polparam_list:
        same(p.data, getattr(im, p.ID).data, "polparam_list " + p.ID)
    same(a, before, "input array")


@sub("C01", "zero_intensity", st.fixed_dictionaries(dict(
        h=st.integers(1, 5), w=st.integers(1, 5), perm=perms, salt=gen.salts, neg=st.booleans())), 200,
     rule="superpixels whose pixels cancel to I = 0 (with and without polarization); non-trivial: some I = 0 and some I != 0")
def c01_zero(case, ctx):
    h, w = case["h"], case["w"]
    f = gen.hashint(case["salt"], (4, h, w), -9 if case["neg"] else 0, 9)
    z = gen.hash01(case["salt"], h * w, 7).reshape(h, w) < 0.5
    if case["neg"]:
        f[3] = np.where(z, -(f[0] + f[1] + f[2]), f[3])
    else:
        f = np.where(z, 0.0, f)
    dic = gen.perm(case["perm"])
    im = MI(unfams(f), angle_dic=dic)
    ctx.nt(z.any() and not z.all())
    check_params(im, dic, gen.stokes4(f, dic))
    same(np.where(im.I.data == 0, im.DoLP.data, 0), np.zeros((h, w)), "DoLP where I = 0")


@sub("C01", "light", st.fixed_dictionaries(dict(
        h=st.integers(1, 6), w=st.integers(1, 6), perm=perms, salt=gen.salts, imax=st.sampled_from([1.0, 100.0, 4000.0, 1e6]),
        P=st.sampled_from(["rand", "rand", "rand", 0.0, 1.0]), theta=st.sampled_from(["rand", "rand", 0, 45, 90, 135, 22.5]))), 300,
     rule="light of per-superpixel intensity, degree and angle through ideal polarizers; non-trivial: partially polarized")
def c01_light(case, ctx):
    h, w = case["h"], case["w"]
    I0 = gen.hashfloat(case["salt"], (h, w), 0.1, case["imax"])
    P = gen.hashfloat(case["salt"], (h, w), 0, 1, 1) if case["P"] == "rand" else np.full((h, w), case["P"])
    th = gen.hashfloat(case["salt"], (h, w), -np.pi / 2, np.pi / 2, 2) if case["theta"] == "rand" else np.full((h, w), np.deg2rad(case["theta"]))
    dic = gen.perm(case["perm"])
    f = np.zeros((4, h, w))
    for ang, k in dic.items():
        f[k] = 0.5 * I0 * (1 + P * np.cos(2 * (th - np.deg2rad(ang))))
    im = MI(unfams(f), angle_dic=dic)
    ctx.nt(bool(np.any((P > 0.01) & (P < 0.99))))
    close(im.I.data, I0, "recovered intensity", 1e-9)
    same(im.DoLP.data, P, "recovered degree of polarization", None, 1e-9)
    same(im.Q.data / I0, P * np.cos(2 * th), "Q/I", None, 1e-9)
    same(im.U.data / I0, P * np.sin(2 * th), "U/I", None, 1e-9)
    d = (np.asarray(im.AoLP.data) - th) / np.pi
    d = np.abs(d - np.round(d)) * np.pi
    same(np.where(P > 1e-3, d, 0), np.zeros((h, w)), "recovered angle of polarization", None, 1e-6)


default_ops = st.lists(
    st.one_of(
        st.fixed_dictionaries(dict(op=st.just("default"), perm=perms)),
        st.fixed_dictionaries(dict(op=st.just("new"), salt=gen.salts)),
        st.fixed_dictionaries(dict(op=st.just("new_with"), salt=gen.salts, perm=perms)),
        st.fixed_dictionaries(dict(op=st.just("copy"), of=st.integers(0, 9))),
        st.fixed_dictionaries(dict(op=st.just("correct"), of=st.integers(0, 9), salt=gen.salts, how=st.sampled_from(["dark", "flat", "demosaic"]))),
        st.fixed_dictionaries(dict(op=st.just("derive"), of=st.integers(0, 9), how=st.sampled_from(["add", "mul", "rebin", "shift"]))),
    ),
    min_size=2, max_size=12,
)


@sub("C01", "defaults", st.fixed_dictionaries(dict(start=perms, ops=default_ops)), 250,
     rule="histories of set_default_angles, image creation with and without an assignment, copies and derived images; "
          "non-trivial: the default changes after an image was created")
def c01_defaults(case, ctx):
    ml.set_default_angles(gen.perm(case["start"]))
    current = gen.perm(case["start"])
    images = []
    changed_after = False
    for op in case["ops"]:
        if op["op"] == "default":
            current = gen.perm(op["perm"])
            ml.set_default_angles(dict(current))
            changed_after |= bool(images)
        elif op["op"] == "new":
            images.append((MI(gen.hashint(op["salt"], (8, 4), 0, 50)), dict(current)))
        elif op["op"] == "new_with":
            d = gen.perm(op["perm"])
            images.append((MI(gen.hashint(op["salt"], (8, 4), 0, 50), angle_dic=dict(d)), d))
        elif images:
            im, d = images[op["of"] % len(images)]
            if op["op"] == "copy":
                images.append((MI(im), d))
            elif op["op"] == "correct":  # in place
                other = MI(gen.hashint(op["salt"], im.data.shape, 1, 20))
                im.demosaic() if op["how"] == "demosaic" else im.subtract_dark(other) if op["how"] == "dark" else im.correct_flat(other)
            elif op["how"] == "add":
                images.append((im + im, d))
            elif op["how"] == "mul":
                images.append((im * 2, d))
            elif op["how"] == "shift":
                images.append((im.shift(1, 0), d))
            elif im.data.shape[0] >= 4 and im.data.shape[1] >= 4:
                images.append((im.rebin(2), d))
        ctx.label(op["op"])
        for k, (im, d) in enumerate(images):
            S = gen.stokes(im.data, d) if im.demosaiced_images is None else gen.stokes4(gen.DEMOSAIC["adjacent"](im.data), d)
            check_params(im, d, S, f"image {k} after {op['op']}: ")
            for n, ang in (("pol0", 0), ("pol45", 45), ("pol_45", -45), ("pol90", 90)):
                same(getattr(im, n).data, fams(im.data)[d[ang]], f"image {k} after {op['op']}: {n}")
            for q in im.polparam_list:
                same(q.data, getattr(im, q.ID).data, f"image {k} after {op['op']}: polparam_list {q.ID}")
            check({a: im.angle_dic[a] for a in gen.ANGLES} == d, f"image {k} after {op['op']}: angle_dic {im.angle_dic}, expected {d}")
    ctx.nt(changed_after)


@sub("C01", "initial_default", st.fixed_dictionaries(dict(salt=gen.salts)), 5,
     rule="image created before any default was set in the process (PolarCam assignment); every case non-trivial")
def c01_initial(case, ctx):
    a = gen.hashint(case["salt"], (4, 6), 0, 99)
    im = MI(a)
    ctx.nt()
    check_params(im, None, gen.stokes(a, {0: 0, 45: 1, -45: 2, 90: 3}))


# ------------------------------------------------------------------------------------- C02


@sub("C02", "split_merge", st.fixed_dictionaries(dict(arr=arrays(dts=ALLDT, big=200), lay=st.sampled_from(["C", "F", "N"]))), 600, shards=2,
     rule="any even-sided array of any pixel type and memory layout; non-trivial: the four families differ")
def c02(case, ctx):
    a = build(case["arr"])
    gen.label_array(ctx, case["arr"])
    before = a.copy()
    f = fams(a)
    ctx.nt(any(np.any(f[0] != f[k]) for k in (1, 2, 3)))
    s = ml.split_polarizations(a)
    same(s, f, "split")
    same(ml.merge_polarizations(np.asarray(s)), np.asarray(a, dtype=float), "merge of split")
    same(a, before, "input array")
    fam = gen.layout(np.asfortranarray(f) if case["lay"] == "F" else f, "C") if case["lay"] != "N" else f[:, ::-1, ::-1]
    keep = fam.copy()
    m = ml.merge_polarizations(fam)
    same(m, unfams(keep), "merge")
    same(ml.split_polarizations(np.asarray(m)), keep, "split of merge")
    same(fam, keep, "families given to merge")
    same(MI(a, angle_dic=gen.perm(0)).single_pol_subimages, f, "single_pol_subimages")


@sub("C02", "merge_types", st.fixed_dictionaries(dict(
        h=st.integers(1, 9), w=st.integers(1, 9), dt=st.sampled_from(["f8", "f4", "i4", "u2", "i8"]), salt=gen.salts)), 120,
     rule="four independent families of any pixel type; non-trivial: more than one superpixel")
def c02_types(case, ctx):
    f = gen.hashint(case["salt"], (4, case["h"], case["w"]), 0, 60000).astype(case["dt"])
    ctx.label(case["dt"])
    ctx.nt(case["h"] * case["w"] > 1)
    m = ml.merge_polarizations(f)
    same(m, unfams(f.astype(float)), "merge")
    same(ml.merge_polarizations([np.array(x) for x in f]), unfams(f.astype(float)), "merge of a list")
    same(ml.split_polarizations(np.asarray(m)), f.astype(float), "split of merge")


@sub("C02", "odd", st.fixed_dictionaries(dict(h=st.integers(1, 21), w=st.integers(1, 21), lo=st.integers(0, 9))), 150,
     rule="arrays with an odd side (even-even sizes made odd in the width); every case non-trivial")
def c02_odd(case, ctx):
    h, w = case["h"], case["w"]
    if h % 2 == 0 and w % 2 == 0:
        w += 1
    ctx.label("odd-h" if h % 2 else "even-h", "odd-w" if w % 2 else "even-w")
    ctx.nt()
    a = np.full((h, w), float(case["lo"]))
    raises(ValueError, lambda: ml.split_polarizations(a), f"split of {h}x{w}")
    raises(ValueError, lambda: MI(a, angle_dic=gen.perm(0)), f"micropolarizer image of {h}x{w}")


# ------------------------------------------------------------------------------------- C03


@st.composite
def rebin_case(draw, mosaic=True):
    n = draw(st.sampled_from([1, 2, 2, 3, 4, 5, 7]))
    unit = 2 if mosaic else 1
    by, bx = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    ry, rx = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
    h, w = unit * (by * n + ry), unit * (bx * n + rx)
    arr = draw(arrays(shape=(h, w), dts=ALLDT, frac=False))
    return dict(arr=arr, n=n, perm=draw(perms), np_int=draw(st.booleans()), demo=draw(st.sampled_from([None, None, None, "adjacent", "mean"])))


@sub("C03", "micropol", rebin_case(), 500, shards=2,
     rule="mosaics of any size (with and without incomplete trailing blocks) x binning 1..7; non-trivial: binning > 1")
def c03_micropol(case, ctx):
    a, n, dic = build(case["arr"]), case["n"], gen.perm(case["perm"])
    gen.label_array(ctx, case["arr"])
    trimmed = a.shape[0] % (2 * n) or a.shape[1] % (2 * n)
    ctx.label("trimmed" if trimmed else "exact", f"n{n}")
    ctx.nt(n > 1)
    im = MI(a, angle_dic=dic)
    demo = case.get("demo") if min(a.shape) >= 4 * n else None
    if demo:
        im = im.demosaic(demo)
        ctx.label("demosaiced")
    keep = frozen(im)
    r = im.rebin(np.int64(n) if case["np_int"] else n)
    e = gen.m_rebin(a, n)
    check(type(r) is MI, f"rebin returned {type(r)}")
    same(r.data, e, "rebinned pixels")
    check((r.height, r.width) == e.shape, "size of the rebinned image")
    S = gen.stokes(a, dic)
    H, W = e.shape[0] // 2, e.shape[1] // 2
    bs = np.stack([s[: H * n, : W * n].reshape(H, n, W, n).sum(axis=(1, 3)) for s in S])
    if demo:
        same(r.demosaiced_images, gen.DEMOSAIC[demo](e), "demosaiced images of the rebinned image", 1e-12)
        check_params(r, dic, gen.stokes4(gen.DEMOSAIC[demo](e), dic), "rebinned demosaiced ")
    else:
        check_params(r, dic, bs, "rebinned ")
    same_frozen(im, keep, "original")
    fn = getattr(mod("processing.rebin"), "micropolarray_rebin")
    same(fn(np.array(a, dtype=a.dtype.newbyteorder("=")), n), e, "micropolarray_rebin")
    if not trimmed:
        check(np.sum(r.data) == np.sum(np.asarray(a, dtype=float)), "flux is not conserved")


@sub("C03", "odd", st.fixed_dictionaries(dict(arr=arrays(dts=ALLDT, step=1, minside=1, maxside=30), n=st.integers(1, 7))), 250,
     rule="arrays of any size, odd included, through micropolarray_rebin and trim_to_match_2xbinning: last rows and columns are left out until whole blocks of superpixels remain; "
          "non-trivial: an odd side")
def c03_odd(case, ctx):
    a, n = build(case["arr"]), case["n"]
    h, w = a.shape
    gen.label_array(ctx, case["arr"])
    ctx.nt(h % 2 or w % 2)
    H, W = h - h % (2 * n), w - w % (2 * n)
    got = tuple(int(v) for v in mod("processing.rebin").trim_to_match_2xbinning(h, w, n))
    check(got == (H, W), f"trim_to_match_2xbinning{(h, w, n)} = {got}, expected {(H, W)}")
    b = np.array(a, dtype=a.dtype.newbyteorder("="))
    r = mod("processing.rebin").micropolarray_rebin(b, n)
    check(np.shape(r) == (H // n, W // n), f"micropolarray_rebin of {(h, w)} by {n} has shape {np.shape(r)}")
    if H and W:
        same(r, gen.m_rebin(a[:H, :W], n), "micropolarray_rebin", 1e-12)
    same(b, a, "array given to micropolarray_rebin")


@sub("C03", "plain", rebin_case(mosaic=False), 500, shards=2,
     rule="plain arrays of any size, odd included, x binning 1..7; non-trivial: binning > 1")
def c03_plain(case, ctx):
    a, n = build(case["arr"]), case["n"]
    gen.label_array(ctx, case["arr"])
    ctx.nt(n > 1)
    H, W = a.shape[0] // n, a.shape[1] // n
    e = np.asarray(a, dtype=float)[: H * n, : W * n].reshape(H, n, W, n).sum(axis=(1, 3))
    im = IM(a)
    keep = frozen(im)
    r = im.rebin(n)
    same(r.data, e, "rebinned pixels")
    check((r.height, r.width) == (H, W), "size of the rebinned image")
    same_frozen(im, keep, "original")
    same(mod("processing.rebin").standard_rebin(np.array(a, dtype=a.dtype.newbyteorder("=")), n), e, "standard_rebin")
    got = tuple(int(v) for v in ml.trim_to_match_binning(*a.shape, n, verbose=case["np_int"]))
    check(got == (H * n, W * n), f"trim_to_match_binning{a.shape + (n,)} = {got}, expected {(H * n, W * n)}")


@sub("C03", "compose", st.fixed_dictionaries(dict(
        a=st.integers(1, 4), b=st.integers(1, 4), by=st.integers(1, 3), bx=st.integers(1, 3), salt=gen.salts, perm=perms)), 200,
     rule="binning by a then b against binning by a*b on sizes that divide; non-trivial: a > 1 and b > 1")
def c03_compose(case, ctx):
    n = case["a"] * case["b"]
    d = gen.hashint(case["salt"], (2 * n * case["by"], 2 * n * case["bx"]), 0, 4095)
    ctx.nt(case["a"] > 1 and case["b"] > 1)
    im = MI(d, angle_dic=gen.perm(case["perm"]))
    two, one = im.rebin(case["a"]).rebin(case["b"]), im.rebin(n)
    same(two.data, one.data, "rebin a then b against rebin a*b")
    for p, q in zip(two.polparam_list[:3], one.polparam_list[:3]):
        same(p.data, q.data, "rebin a then b: " + p.ID, TOL)
    p = IM(d)
    same(p.rebin(case["a"]).rebin(case["b"]).data, p.rebin(n).data, "plain rebin a then b against rebin a*b")


@sub("C03", "trim", st.fixed_dictionaries(dict(h=st.integers(1, 4000), w=st.integers(1, 4000), n=st.integers(1, 40), v=st.booleans())), 200,
     rule="sizes up to 4000 x binning 1..40 for trim_to_match_binning; non-trivial: something is trimmed")
def c03_trim(case, ctx):
    h, w, n = case["h"], case["w"], case["n"]
    got = tuple(int(v) for v in ml.trim_to_match_binning(h, w, n, case["v"]))
    ctx.nt(h % n or w % n)
    check(got == (h - h % n, w - w % n), f"trim_to_match_binning({h}, {w}, {n}) = {got}")


@sub("C03", "invalid", st.fixed_dictionaries(dict(n=st.integers(-9, 0), salt=gen.salts)), 40,
     rule="binning of zero or less; every case non-trivial")
def c03_invalid(case, ctx):
    d = gen.hashint(case["salt"], (8, 6), 0, 99)
    ctx.nt()
    raises(ValueError, lambda: MI(d, angle_dic=gen.perm(0)).rebin(case["n"]), f"rebin({case['n']})")
    raises(ValueError, lambda: IM(d).rebin(case["n"]), f"plain rebin({case['n']})")


# ------------------------------------------------------------------------------------- C04


@st.composite
def shift_case(draw, mosaic):
    arr = draw(arrays(dts=ALLDT, step=2 if mosaic else 1, minside=2 if mosaic else 1, maxside=14, big=60))
    h, w = arr["h"] // (2 if mosaic else 1), arr["w"] // (2 if mosaic else 1)

    def amount(n):
        kind = draw(st.integers(0, 9))
        if kind < 7:
            return draw(st.integers(1, max(1, n - 1))) * draw(st.sampled_from([1, -1]))
        if kind == 7:
            return 0
        return draw(st.sampled_from([n, -n, n + 1, -n - 1, n + 7, 1000, -1000]))

    return dict(arr=arr, y=amount(h), x=amount(w), missing=draw(st.sampled_from([None, None, 0, -1, 7, 0.5, -3.25, 4095])), perm=draw(perms))


@sub("C04", "plain", shift_case(False), 600, shards=2,
     rule="plain arrays x shifts inside, at and beyond the size x missing value; non-trivial: both shifts nonzero and something stays")
def c04_plain(case, ctx):
    a, y, x, m = build(case["arr"]), case["y"], case["x"], case["missing"]
    gen.label_array(ctx, case["arr"])
    stays = abs(y) < a.shape[0] and abs(x) < a.shape[1]
    ctx.label("stays" if stays else "all-out", "default-missing" if m is None else "missing")
    ctx.nt(y and x and stays)
    im = IM(a)
    keep = frozen(im)
    r = im.shift(y, x) if m is None else im.shift(y, x, missing=m)
    check(type(r) is IM, f"shift returned {type(r)}")
    same(r.data, gen.m_shift(a, y, x, 0 if m is None else m), "shifted pixels")
    check((r.height, r.width) == a.shape, "size")
    same_frozen(im, keep, "original")


@sub("C04", "micropol", shift_case(True), 600, shards=2,
     rule="mosaics x per-family shifts inside, at and beyond the size; non-trivial: both shifts nonzero and something stays")
def c04_micropol(case, ctx):
    a, y, x, m = build(case["arr"]), case["y"], case["x"], case["missing"]
    dic = gen.perm(case["perm"])
    gen.label_array(ctx, case["arr"])
    stays = abs(y) < a.shape[0] // 2 and abs(x) < a.shape[1] // 2
    ctx.label("stays" if stays else "all-out")
    ctx.nt(y and x and stays)
    im = MI(a, angle_dic=dic)
    keep = frozen(im)
    r = im.shift(y, x) if m is None else im.shift(y, x, missing=m)
    check(type(r) is MI, f"shift returned {type(r)}")
    e = gen.m_shift_fam(a, y, x, 0 if m is None else m)
    same(r.data, e, "shifted pixels")
    check_params(r, dic, gen.stokes(e, dic), "shifted ")
    same_frozen(im, keep, "original")


# ------------------------------------------------------------------------------------- C05


@st.composite
def demosaic_case(draw):
    mode = draw(st.sampled_from(["adjacent", "adjacent", "mean", "spline"]))
    lo = 4 if mode == "spline" else 2
    return dict(arr=draw(arrays(dts=ALLDT, minside=lo, big=120)), mode=mode, perm=draw(perms), default=draw(st.booleans()))


@sub("C05", "modes", demosaic_case(), 500, shards=2,
     rule="mosaics of any type/shape x demosaicing mode, against an independent numpy model; non-trivial: pixels within a family differ")
def c05(case, ctx):
    a, mode, dic = build(case["arr"]), case["mode"], gen.perm(case["perm"])
    gen.label_array(ctx, case["arr"])
    ctx.label(mode)
    ctx.nt(any(np.ptp(g) for g in fams(a)))
    e = gen.DEMOSAIC[mode](a)
    tol = 1e-6 if case["arr"]["dt"] == "f4" else 1e-10
    im = MI(a, angle_dic=dic)
    r = im.demosaic() if (mode == "adjacent" and case["default"]) else im.demosaic(mode)
    check(np.shape(r.demosaiced_images) == (4,) + a.shape, f"demosaiced shape {np.shape(r.demosaiced_images)}")
    same(r.demosaiced_images, e, f"{mode} demosaicing", tol)
    same(r.data, a, "pixels")
    S = gen.stokes4(np.asarray(r.demosaiced_images, dtype=float), dic)
    check_params(r, dic, S, "demosaiced ")
    check(np.shape(r.I.data) == a.shape, "I is not full-size")
    b = np.array(a, dtype=a.dtype.newbyteorder("="))
    keep = b.copy()
    g = ml.demosaic(b) if (mode == "adjacent" and case["default"]) else ml.demosaic(b, mode)
    same(g, e, f"demosaic() {mode}", tol)
    same(b, keep, "array given to demosaic()")


@st.composite
def again_case(draw):
    modes = st.sampled_from(["adjacent", "adjacent", "mean", "spline"])
    step = st.one_of(
        st.tuples(st.just("demosaic"), modes), st.tuples(st.just("demosaic"), modes), st.tuples(st.just("rotate"), st.sampled_from([90, 180, 270, 30])),
        st.tuples(st.just("congrid"), st.integers(4, 14), st.integers(4, 14)), st.tuples(st.just("shift"), st.integers(-3, 3), st.integers(-3, 3)),
        st.tuples(st.just("rebin"), st.just(2)), st.tuples(st.just("poke"), st.integers(0, 50), st.integers(0, 50)), st.tuples(st.just("assign"), gen.salts),
        st.tuples(st.just("dark"), gen.salts), st.tuples(st.just("ifov"),), st.tuples(st.just("mask"), st.integers(0, 8), st.integers(0, 8)), st.tuples(st.just("copy"),))
    return dict(arr=draw(arrays(dts=("f8", "f8", "i4", "f4"), minside=4, maxside=14, lo=0, hi=4000, exps=())), perm=draw(perms), mode=draw(modes),
                ops=[list(o) for o in draw(st.lists(step, min_size=1, max_size=5))], last=draw(modes))


@sub("C05", "again", again_case(), 350, shards=2,
     rule="demosaicing an image that was demosaiced before and then changed (rotated, resized, shifted, rebinned, corrected, masked, copied, pixels assigned); "
          "the four images are those of the pixels it has now; non-trivial: the pixels changed between two demosaicings")
def c05_again(case, ctx):
    dic = gen.perm(case["perm"])
    gen.label_array(ctx, case["arr"])
    im = MI(build(case["arr"]), angle_dic=dic)
    prev = None

    def demosaic(mode):
        nonlocal prev
        if mode == "spline" and min(np.shape(im.data)) < 4:
            mode = "mean"
        now = np.array(im.data, dtype=float)
        im.demosaic(mode)
        ctx.nt(prev is not None and not np.array_equal(prev, now))
        prev = now
        same(im.data, now, "pixels after demosaicing")
        same(im.demosaiced_images, gen.DEMOSAIC[mode](now), f"demosaicing ({mode}) after {'>'.join(done)}", 1e-6)
        check_params(im, dic, gen.stokes4(np.asarray(im.demosaiced_images, dtype=float), dic), f"demosaiced again ({mode}) ")

    done = []
    demosaic(case["mode"])
    for o in case["ops"] + [["demosaic", case["last"]]]:
        name = o[0]
        if name == "demosaic":
            demosaic(o[1])
        elif name == "rotate":
            im = im.rotate(o[1])
        elif name == "congrid":
            im = im.congrid(o[1], o[2])
        elif name == "shift":
            im = im.shift(o[1], o[2])
        elif name == "rebin":
            if min(np.shape(im.data)) < 8:
                continue
            im = im.rebin(o[1])
        elif name == "poke":
            im.data[o[1] % im.data.shape[0], o[2] % im.data.shape[1]] += 5
        elif name == "assign":
            im.data = gen.hashint(o[1], np.shape(im.data), 0, 4000)
        elif name == "dark":
            im.subtract_dark(MI(gen.hashint(o[1], np.shape(im.data), 0, 2000), angle_dic=dic))
        elif name == "ifov":
            im.correct_ifov()
        elif name == "mask":
            im.mask_occulter(y=o[1], x=o[2], r=4, fill=-3)
        elif name == "copy":
            im = MI(im)
        done.append(name)
        ctx.label(name)


@sub("C05", "constant", st.fixed_dictionaries(dict(
        h=st.integers(1, 8), w=st.integers(1, 8), vals=st.lists(st.integers(0, 4095), min_size=4, max_size=4), perm=perms)), 150,
     rule="images whose families are constant: 'adjacent' reproduces the constants exactly, edges included; non-trivial: families differ")
def c05_const(case, ctx):
    f = np.array(case["vals"], dtype=float)[:, None, None] * np.ones((4, case["h"], case["w"]))
    ctx.nt(len(set(case["vals"])) > 1)
    full = np.array(case["vals"], dtype=float)[:, None, None] * np.ones((4, 2 * case["h"], 2 * case["w"]))
    same(ml.demosaic(unfams(f), "adjacent"), full, "adjacent of constant families")
    same(ml.demosaic(unfams(f), "mean"), full / 4, "mean of constant families")
    if case["h"] > 1 and case["w"] > 1:
        same(ml.demosaic(unfams(f), "spline"), full, "spline of constant families", 1e-10)


@sub("C05", "unknown_mode", st.fixed_dictionaries(dict(
        mode=st.one_of(st.text("abcdefghijklmnopqrstuvwxyz -_", max_size=10), st.sampled_from(["Mean", "ADJACENT", "splines", "", "linear", "adjacent "])), salt=gen.salts)), 80,
     rule="mode names other than the three; every case non-trivial")
def c05_unknown(case, ctx):
    if case["mode"] in gen.DEMOSAIC:
        return
    ctx.nt()
    a = gen.hashint(case["salt"], (6, 4), 0, 99)
    raises(ValueError, lambda: ml.demosaic(a, case["mode"]), f"demosaic mode {case['mode']!r}")
    im = MI(a, angle_dic=gen.perm(0))
    raises(ValueError, lambda: im.demosaic(case["mode"]), f"image demosaic mode {case['mode']!r}")


# ------------------------------------------------------------------------------------- C06


@st.composite
def congrid_case(draw, mosaic):
    step, lo = (2, 4) if mosaic else (1, 2)
    arr = draw(arrays(dts=ALLDT, step=step, minside=lo, maxside=16, big=60))
    dims = [draw(st.one_of(st.integers(lo, 30), st.integers(lo, 8), st.just(arr[k]))) for k in ("h", "w")]
    return dict(arr=arr, dims=dims, perm=draw(perms), demo=draw(st.sampled_from([None, None, None, "adjacent", "mean"])))


@sub("C06", "array", congrid_case(False), 500, shards=2,
     rule="arrays (sides >= 2) x new sizes (>= 2) against separable linear interpolation; non-trivial: size changes in both directions")
def c06_array(case, ctx):
    a, (ny, nx) = build(case["arr"]), case["dims"]
    gen.label_array(ctx, case["arr"])
    ctx.label("up" if ny > a.shape[0] else "down-or-same")
    ctx.nt(ny != a.shape[0] and nx != a.shape[1])
    keep = a.copy()
    r = ml.congrid(a, (ny, nx) if case["perm"] % 2 else [ny, nx])
    same(r, gen.m_linear(a, ny, nx), "congrid", 1e-9)
    same(a, keep, "input array")
    same(ml.congrid(a, a.shape), np.asarray(a, dtype=float), "congrid to the same size", 1e-9)


@sub("C06", "ramp", st.fixed_dictionaries(dict(
        h=st.integers(2, 30), w=st.integers(2, 30), ny=st.integers(2, 60), nx=st.integers(2, 60),
        c=st.tuples(st.integers(-50, 50), st.integers(-50, 50), st.integers(-50, 50)))), 200,
     rule="linear ramps stay the same ramp over the new grid; non-trivial: slope in both directions")
def c06_ramp(case, ctx):
    cy, cx, c0 = case["c"]
    ctx.nt(cy and cx)
    y, x = np.linspace(0, 1, case["h"])[:, None], np.linspace(0, 1, case["w"])[None]
    Y, X = np.linspace(0, 1, case["ny"])[:, None], np.linspace(0, 1, case["nx"])[None]
    same(ml.congrid(cy * y + cx * x + c0, (case["ny"], case["nx"])), cy * Y + cx * X + c0, "ramp", 1e-9, 1e-9)


@sub("C06", "micropol", congrid_case(True), 400, shards=2,
     rule="mosaics x new sizes (odd included): families and I, Q, U resampled, also for demosaiced images; non-trivial: size changes")
def c06_micropol(case, ctx):
    a, (ny, nx), dic = build(case["arr"]), case["dims"], gen.perm(case["perm"])
    gen.label_array(ctx, case["arr"])
    ctx.label("odd-size" if ny % 2 or nx % 2 else "even-size", "demosaiced" if case["demo"] else "mosaic")
    im = MI(a, angle_dic=dic)
    if case["demo"]:
        im = im.demosaic(case["demo"])
    keep = frozen(im)
    S0 = [np.array(p.data) for p in (im.I, im.Q, im.U)]
    r = im.congrid(ny, nx)
    ny, nx = ny - ny % 2, nx - nx % 2
    ctx.nt((ny, nx) != a.shape)
    same(r.data, unfams([gen.m_linear(g, ny // 2, nx // 2) for g in fams(a)]), "resized pixels", 1e-9)
    check((r.height, r.width) == (ny, nx), "size of the resized image")
    for name, s0 in zip("IQU", S0):
        s = np.asarray(getattr(r, name).data)
        check(s.shape in ((ny, nx), (ny // 2, nx // 2)), f"resized {name} has shape {s.shape}")
        same(s, gen.m_linear(s0, *s.shape), f"resized {name}", 1e-9, 1e-9 * np.max(np.abs(S0[0])))
    check_derived(r, "resized ")
    check((r.demosaiced_images is None) == (case["demo"] is None), "demosaiced images of the resized image")
    if case["demo"]:
        for k, (g, g0) in enumerate(zip(r.demosaiced_images, keep["demo"])):
            same(g, gen.m_linear(g0, ny, nx), f"resized demosaiced image {k}", 1e-9, 1e-9 * np.max(np.abs(S0[0])))
    check(dict(r.angle_dic) == dic, "orientation assignment")
    same_frozen(im, keep, "original")


# ------------------------------------------------------------------------------------- C07


def m_rotate_ok(out, src, angle, what):
    """nearest-neighbour rotation about the centre, counter-clockwise as displayed; positions
    within 0.02 px of a pixel border may take either side."""
    out, src = np.asarray(out, dtype=float), np.asarray(src, dtype=float)
    check(out.shape == src.shape, f"{what}: shape {out.shape}, expected {src.shape}")
    h, w = src.shape
    t = np.deg2rad(angle % 360)
    c, s = np.cos(t), np.sin(t)
    Y, X = np.mgrid[:h, :w]
    dy, dx = Y + 0.5 - h / 2, X + 0.5 - w / 2
    sx, sy = c * dx - s * dy + w / 2, s * dx + c * dy + h / 2
    scale = max(np.max(np.abs(src)), 1e-30)
    ok = np.zeros((h, w), dtype=bool)
    for ey in (-0.02, 0, 0.02):
        for ex in (-0.02, 0, 0.02):
            iy, ix = np.floor(sy + ey).astype(int), np.floor(sx + ex).astype(int)
            inside = (iy >= 0) & (iy < h) & (ix >= 0) & (ix < w)
            v = np.where(inside, src[np.clip(iy, 0, h - 1), np.clip(ix, 0, w - 1)], 0.0)
            ok |= np.abs(out - v) <= 1e-6 * np.abs(v) + 1e-9 * scale
    if not ok.all():
        i = np.unravel_index(int(np.argmin(ok)), ok.shape)
        check(False, f"{what}: pixel {tuple(map(int, i))} is {out[i]!r}, source position ({sy[i]:.3f}, {sx[i]:.3f})")


@st.composite
def rotate_case(draw):
    arr = draw(arrays(dts=("f8", "f8", "i4", "u2", "i2", "f4", "u1", "i8", "u4"), maxside=20, kinds=["hash", "hash", "index", "hashf", "ramp", "fam"], big=60,
                      square=draw(st.booleans())))
    if arr["kind"] == "hashf":
        arr["kind"] = "hash" if arr["dt"] not in ("f8",) else "hashf"
    ang = draw(st.one_of(st.sampled_from([0, 90, 180, 270, 360, -90, 450, 720, -180, 45, -45, 9, -9]),
                         st.integers(-400, 400), st.floats(-360, 360, allow_nan=False, width=32)))
    return dict(arr=arr, angle=ang, perm=draw(perms), demo=draw(st.sampled_from([None, None, None, "adjacent", "mean"])))


@sub("C07", "rotate", rotate_case(), 400, shards=2,
     rule="mosaics (square and oblong, also demosaiced) x angles (quarter turns, integers, fractions); non-trivial: not a multiple of 360")
def c07(case, ctx):
    a, ang, dic = build(case["arr"]), case["angle"], gen.perm(case["perm"])
    gen.label_array(ctx, case["arr"])
    quarter = ang % 90 == 0
    ctx.label("quarter" if quarter else "general", "demosaiced" if case["demo"] else "mosaic")
    ctx.nt(ang % 360 != 0)
    im = MI(a, angle_dic=dic)
    if case["demo"]:
        im = im.demosaic(case["demo"])
    keep = frozen(im)
    S0 = [np.array(p.data) for p in (im.I, im.Q, im.U)]
    r = im.rotate(ang)
    same_frozen(im, keep, "original")
    check(type(r) is MI, f"rotate returned {type(r)}")
    same(np.shape(r.data), a.shape, "size of the rotated image")
    for k, (g, g0) in enumerate(zip(fams(r.data), fams(a))):
        m_rotate_ok(g, g0, ang, f"rotated family {k}")
    for name, s0 in zip("IQU", S0):
        m_rotate_ok(getattr(r, name).data, s0, ang, f"rotated {name}")
    check_derived(r, "rotated ")
    check((r.demosaiced_images is None) == (case["demo"] is None), "demosaiced images of the rotated image")
    if case["demo"]:
        for k, (g, g0) in enumerate(zip(r.demosaiced_images, keep["demo"])):
            m_rotate_ok(g, g0, ang, f"rotated demosaiced image {k}")
    if quarter and (ang % 180 == 0 or a.shape[0] == a.shape[1]):
        k = int(ang // 90) % 4
        same(fams(r.data), np.stack([np.rot90(g, k) for g in fams(a)]), "quarter turn of the families", 2e-7)
        for name, s0 in zip("IQU", S0):
            same(getattr(r, name).data, np.rot90(s0, k), f"quarter turn of {name}", 2e-7)
    if ang % 360 == 0:
        same(r.data, np.asarray(a, dtype=float), "full turn", 2e-7)
    check(dict(r.angle_dic) == dic, "orientation assignment")
    # the original is still the original after the copy has been used
    r2 = im.rotate(90)
    same_frozen(im, keep, "original after a second rotation")
    del r2


@st.composite
def finerot_case(draw):
    arr = draw(arrays(dts=("f8", "f4", "i4", "u2", "u1", "i8"), maxside=240, minside=120, kinds=["hash", "hash", "index"], big=240))
    return dict(arr=arr, angle=draw(st.one_of(st.integers(-3600, 3600).map(lambda k: k / 10), st.integers(-400, 400).map(lambda k: k + 0.5), st.floats(-360, 360, allow_nan=False, width=32))),
                perm=draw(perms), demo=draw(st.sampled_from([None, None, "adjacent"])))


@sub("C07", "fine", finerot_case(), 60,
     rule="mosaics of 120-240 px turned by fractional angles, where a tenth of a degree moves the outer pixels; non-trivial: not a whole number of degrees")
def c07_fine(case, ctx):
    a, ang = build(case["arr"]), case["angle"]
    gen.label_array(ctx, case["arr"])
    ctx.nt(ang != round(ang))
    im = MI(a, angle_dic=gen.perm(case["perm"]))
    if case["demo"]:
        im = im.demosaic(case["demo"])
    S0 = [np.array(p.data) for p in (im.I, im.Q, im.U)]
    r = im.rotate(ang)
    for k, (g, g0) in enumerate(zip(fams(r.data), fams(a))):
        m_rotate_ok(g, g0, ang, f"rotated family {k}")
    for name, s0 in zip("IQU", S0):
        m_rotate_ok(getattr(r, name).data, s0, ang, f"rotated {name}")


# ------------------------------------------------------------------------------------- C08

ADT = ("f8", "f8", "f4", "i4", "i8", "u1", "u2", "i2", "u4")


@st.composite
def arith_case(draw, mosaic):
    step = 2 if mosaic else 1
    arr = draw(arrays(dts=ADT, step=step, lo=-2000, hi=2000, **draw(st.sampled_from([dict(minside=step, maxside=12)] * 4 + [dict(minside=34, maxside=46)]))))
    kind = draw(st.sampled_from(["image", "image", "array", "int", "float", "npfloat", "npint"]))
    c = dict(arr=arr, kind=kind, op=draw(st.sampled_from(["+", "-", "*", "/", "/"])), perm=draw(perms), perm2=draw(perms),
             hdr=draw(st.booleans()), demo=draw(st.sampled_from([None, None, None, "adjacent", "mean"])))
    if kind in ("image", "array"):
        c["second"] = draw(arrays(shape=(arr["h"], arr["w"]), dts=ADT, lo=-50, hi=2000, kinds=["hash", "sparse", "sparse", "const", "fam", "hashf", "hashf"], frac=True))
        if c["second"]["kind"] == "hashf" and c["second"]["dt"] not in ("f8", "f4"):
            c["second"]["kind"] = "hash"
    else:
        c["second"] = draw(st.sampled_from([0, 1, 2, -3, 7, 100]))
        if kind in ("float", "npfloat"):
            c["second"] = draw(st.sampled_from([0.0, 0.5, -1.25, 3.0, 1e3]))
    return c


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}


def arith_expect(a, b, op):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if op == "/":
        return np.where(b != 0, a / np.where(b != 0, b, 1), 0.0)
    return OPS[op](a, b)


def run_arith(case, ctx, cls):
    mosaic = cls is MI
    a = build(case["arr"])
    dic, dic2 = gen.perm(case["perm"]), gen.perm(case["perm2"])
    gen.label_array(ctx, case["arr"])
    ctx.label(case["op"], case["kind"])
    first = MI(a, angle_dic=dic) if mosaic else IM(a)
    if case["hdr"]:
        first.header["EXPTIME"] = (1.5, "exposure")
        first.header["OBSERVER"] = "one"
    if mosaic and case["demo"]:
        first = first.demosaic(case["demo"])
        ctx.label("demosaiced")
    if case["kind"] in ("image", "array"):
        b = build(case["second"])
        if case["kind"] == "image":
            second = MI(b, angle_dic=dic2) if mosaic else IM(b)
            second.header["OBSERVER"] = "two"
            keep2 = frozen(second)
        else:
            second = b
            keep2 = b.copy()
    else:
        b = case["second"]
        second = {"int": int, "float": float, "npfloat": np.float64, "npint": np.int32}[case["kind"]](b)
    single = any(x.dtype.kind == "f" and x.dtype.itemsize == 4 for x in (a, np.asarray(b)))
    keep = frozen(first)
    zero_div = case["op"] == "/" and np.any(np.asarray(b) == 0)
    ctx.label("zero-divisor" if zero_div else None)
    ctx.nt(np.any(a) and (case["op"] != "/" or zero_div))
    e = arith_expect(a, b, case["op"])
    out = np.result_type(a, np.asarray(second.data if isinstance(second, IM) else second) if case["kind"] in ("image", "array") else second)
    if case["op"] != "/" and out.kind in "ui" and (e.min() < np.iinfo(out).min or e.max() > np.iinfo(out).max):
        raise Skip  # integer pixels wrap around like numpy's
    if case["op"] != "/" and out.kind in "ui" and not isinstance(second, (IM, np.ndarray)) and not np.iinfo(out).min <= second <= np.iinfo(out).max:
        raise Skip
    ctx.label("mixed types" if case["kind"] in ("image", "array") and case["arr"]["dt"] != case["second"]["dt"] else None)
    r = OPS[case["op"]](first, second)
    check(type(r) is cls, f"result is a {type(r).__name__}")
    same(r.data, e, f"{case['op']} pixels", 1e-6 if single else 1e-14)
    check((r.height, r.width) == e.shape, "size of the result")
    same_frozen(first, keep, "first operand")
    if case["kind"] == "image":
        same_frozen(second, keep2, "second operand")
    elif case["kind"] == "array":
        same(second, keep2, "second operand")
    if mosaic:
        check(dict(r.angle_dic) == dic, f"orientation assignment {r.angle_dic}")
        S = gen.stokes(r.data, dic)
        if np.shape(r.I.data) == e.shape:  # carried on as demosaiced
            check(bool(case["demo"]), "full-size parameters without demosaicing")
            S = gen.stokes4(gen.DEMOSAIC[case["demo"]](r.data), dic)
        check_params(r, dic, S, "result ", 1e-6 if single else TOL)
        want = {k: v for k, v, _ in keep["header"] if k not in ("NAXIS1", "NAXIS2", "BITPIX", "COMMENT", "HISTORY", "")}
        got = {c.keyword: c.value for c in r.header.cards}
        for k, v in want.items():
            check(k in got and got[k] == v, f"header entry {k} is {got.get(k)!r}, first operand has {v!r}")
        check((r.header["NAXIS1"], r.header["NAXIS2"]) == (e.shape[1], e.shape[0]), "header size")


@sub("C08", "micropol", arith_case(True), 700, shards=3,
     rule="micropolarizer image op image/array/number, zero divisors frequent, differing headers and assignments; "
          "non-trivial: data not all zero and, for /, a divisor is zero")
def c08_micropol(case, ctx):
    run_arith(case, ctx, MI)


@sub("C08", "plain", arith_case(False), 600, shards=2,
     rule="plain image op image/array/number; non-trivial: data not all zero and, for /, a divisor is zero")
def c08_plain(case, ctx):
    run_arith(case, ctx, IM)


# ------------------------------------------------------------------------------------- C09


@st.composite
def corr_case(draw):
    rng = draw(st.sampled_from([(0, 4095), (0, 4095), (-2000, 4095), (-900, -1)]))  # differences of images may be negative
    arr = draw(arrays(dts=ALLDT if rng[1] > 0 else ("f8", "f4", "i4", "i2"), lo=rng[0], hi=rng[1], **draw(st.sampled_from([dict(maxside=14)] * 3 + [dict(minside=34, maxside=44)]))))
    shape = (arr["h"], arr["w"])
    flat = draw(arrays(shape=shape, dts=("f8", "f8", "i4", "u2", "f4"), lo=0, hi=3000, kinds=["hash", "hashf", "sparse", "fam", "const", "index"]))
    if flat["kind"] == "const" and flat["lo"] == 0:
        flat["lo"] = 5
    flat["pts"] = flat.get("pts", []) + [[draw(st.integers(0, 99)), draw(st.integers(0, 99)), 40]]
    if flat["kind"] == "hashf" and flat["dt"] not in ("f8", "f4"):
        flat["kind"] = "hash"
    return dict(arr=arr, dark=draw(arrays(shape=shape, dts=ALLDT, lo=draw(st.sampled_from([0, 0, -500])), hi=4095)), flat=flat, perm=draw(perms),
                how=draw(st.sampled_from(["ctor", "dark", "flat", "methods", "flat-then-dark"])),
                demo=draw(st.sampled_from([None, None, None, "adjacent", "mean"])), k=draw(st.sampled_from([0.5, 2, 3, 10, 0.125])))


@sub("C09", "corrections", corr_case(), 600, shards=3,
     rule="image, dark and flat of any pixel types (unsigned included, zeros in the flat), through the constructor or the methods in "
          "either order, also on demosaiced images; non-trivial: some pixel is below its dark or some flat pixel is zero")
def c09(case, ctx):
    a, d, f, dic, how = build(case["arr"]), build(case["dark"]), build(case["flat"]), gen.perm(case["perm"]), case["how"]
    gen.label_array(ctx, case["arr"])
    ctx.label(how, "flat-zeros" if np.any(f == 0) else "flat-full")
    under = np.any(np.asarray(a, float) < np.asarray(d, float))
    ctx.label("underflow" if under else None)
    ctx.nt(under or np.any(f == 0))
    D, F = MI(d, angle_dic=dic), MI(f, angle_dic=dic)
    kd, kf = frozen(D), frozen(F)
    demo = None
    if how == "ctor":
        im = MI(a, angle_dic=dic, dark=D, flat=F)
        e = gen.m_flat(gen.m_dark(a, d), f)
    else:
        im = MI(a, angle_dic=dic)
        if case["demo"]:
            demo = case["demo"]
            im = im.demosaic(demo)
        e = np.asarray(a, dtype=float)
        for step in {"dark": "d", "flat": "f", "methods": "df", "flat-then-dark": "fd"}[how]:
            if step == "d":
                im, e = im.subtract_dark(D), gen.m_dark(e, d)
            else:
                im, e = im.correct_flat(F), gen.m_flat(e, f)
    tol = 1e-5 if "f4" in (case["arr"]["dt"], case["flat"]["dt"], case["dark"]["dt"]) else 1e-11
    same(im.data, e, f"{how} corrected pixels", tol)
    if how == "dark":
        same(im.data, e, "dark-subtracted pixels", 1e-6 if case["arr"]["dt"] == "f4" or case["dark"]["dt"] == "f4" else None)
        check(bool(np.all(np.asarray(im.data) >= 0)), "negative pixels after dark subtraction")
    S = gen.stokes(im.data, dic) if demo is None else gen.stokes4(gen.DEMOSAIC[demo](im.data), dic)
    check_params(im, dic, S, "corrected ", 1e-6)
    same_frozen(D, kd, "dark")
    same_frozen(F, kf, "flat")
    same(a, build(case["arr"]), "input array")


@sub("C09", "flat_laws", corr_case(), 250,
     rule="scaling the flat changes nothing; an image proportional to the flat becomes uniform; non-trivial: flat not constant")
def c09_laws(case, ctx):
    a, f, k = build(case["arr"]), np.asarray(build(case["flat"]), dtype=float), case["k"]
    ctx.nt(np.ptp(f) > 0)
    r1 = MI(a, angle_dic=gen.perm(0)).correct_flat(MI(f, angle_dic=gen.perm(0)))
    r2 = MI(a, angle_dic=gen.perm(0)).correct_flat(MI(k * f, angle_dic=gen.perm(0)))
    same(r2.data, r1.data, "flat scaled by a factor", 1e-6 if case["arr"]["dt"] == "f4" else 1e-10)
    u = MI(k * f, angle_dic=gen.perm(0), flat=MI(f, angle_dic=gen.perm(0)))
    e = np.where(f != 0, k * f.mean(), 0.0)
    same(u.data, e, "image proportional to the flat", 1e-10)


# ------------------------------------------------------------------------------------- C10


@sub("C10", "ifov", st.fixed_dictionaries(dict(arr=arrays(dts=ALLDT, big=80), perm=perms, demo=st.sampled_from([None, None, "adjacent"]))), 400, shards=2,
     rule="mosaics of any type/shape; non-trivial: at least 2x2 superpixels with different values")
def c10_ifov(case, ctx):
    a, dic = build(case["arr"]), gen.perm(case["perm"])
    gen.label_array(ctx, case["arr"])
    ctx.nt(min(a.shape) >= 4 and np.ptp(np.asarray(a, float)) > 0)
    im = MI(a, angle_dic=dic)
    if case["demo"]:
        im = im.demosaic(case["demo"])
    r = im.correct_ifov()
    e = gen.m_ifov(a)
    same(r.data, e, "corrected pixels", 1e-6 if case["arr"]["dt"] == "f4" else 1e-12)
    S = gen.stokes(r.data, dic) if not case["demo"] else gen.stokes4(gen.DEMOSAIC[case["demo"]](r.data), dic)
    check_params(r, dic, S, "corrected ", 1e-6)


@sub("C10", "chen_wan_liang", st.fixed_dictionaries(dict(
        arr=arrays(dts=("f8", "i4", "u2", "i2", "f4"), maxside=10, lo=-60, hi=4095, lays=("C", "C", "F", "S")), salt=gen.salts,
        offset=st.sampled_from([0, 5, 100]), frac=st.booleans(), again=st.booleans())), 120, shards=2,
     rule="integer and float images x per-superpixel 4x4 matrices and offset images stored as FITS; non-trivial: at least 2x2 superpixels")
def c10_cwl(case, ctx):
    from astropy.io import fits

    a = build(case["arr"])
    gen.label_array(ctx, case["arr"])
    h, w = a.shape
    ctx.nt(min(h, w) >= 4)
    folder = os.path.join(ctx.tmp, "cwl")
    os.makedirs(folder)
    keep = a.copy()
    for turn in range(2 if case["again"] else 1):  # the same folder, rewritten, holds another calibration
        C = gen.hashint(case["salt"] + turn, (4, 4, h // 2, w // 2), -4, 4)
        if case["frac"]:
            C = C + gen.hashfloat(case["salt"], C.shape, 0, 1, 3)
        d = gen.hashint(case["salt"] + turn, (h, w), 0, case["offset"], 5) + (0.25 if case["frac"] else 0)
        for i in range(4):
            for j in range(4):
                fits.PrimaryHDU(np.kron(C[i, j], np.ones((2, 2)))).writeto(f"{folder}/C{i}{j}.fits", overwrite=True)
        fits.PrimaryHDU(d).writeto(f"{folder}/d_ij.fits", overwrite=True)
        r = ml.chen_wan_liang_calibration(a, folder)
        p = fams(np.asarray(a, dtype=float) - d)
        e = gen.m_ifov(unfams(np.einsum("ijyx,jyx->iyx", C, p)))
        same(r, e, "calibrated pixels", 1e-6 if case["arr"]["dt"] == "f4" else 1e-10)
        same(a, keep, "input array")


# --------------------------------------------------------------- pixels that are not finite


@st.composite
def special_case(draw, ops):
    by, bx = draw(st.integers(2, 6)), draw(st.integers(2, 6))
    return dict(h=2 * by, w=2 * bx, salt=draw(gen.salts), perm=draw(perms), op=draw(st.sampled_from(ops)), n=draw(st.integers(1, 3)), y=draw(st.integers(-3, 3)), x=draw(st.integers(-3, 3)),
                dt=draw(st.sampled_from(["f8", "f8", "f4"])), missing=draw(st.sampled_from([0, "nan", "inf", -2])),
                at=draw(st.lists(st.tuples(st.one_of(st.just(0), st.integers(0, 11)), st.one_of(st.just(0), st.integers(0, 11)), st.sampled_from(["nan", "nan", "inf", "-inf"])), min_size=1, max_size=4)))


def specials(case, ctx):
    """an image with NaN or infinite pixels: only what is computed from them is NaN or infinite"""
    a = gen.hashint(case["salt"], (case["h"], case["w"]), 1, 4000)
    for y, x, v in case["at"]:
        a[y % a.shape[0], x % a.shape[1]] = float(v)
    a = a.astype(case["dt"])
    dic, name, n, y, x, m = gen.perm(case["perm"]), case["op"], case["n"], case["y"], case["x"], float(case["missing"])
    ctx.label(name, *(v for _, _, v in case["at"]))
    im = MI(a, angle_dic=dic)
    b = gen.hashint(case["salt"], a.shape, 0, 3, 4)
    plain, demo = None, None
    with np.errstate(all="ignore"):
        if name == "merge":
            got = mod("processing.demosaic").merge_polarizations(mod("processing.demosaic").split_polarizations(a))
            same(got, a, "merged pixels")
            same(mod("processing.demosaic").split_polarizations(a), fams(a), "families")
            r, e = im, np.asarray(a, dtype=float)
        elif name == "rebin":
            H, W = a.shape[0] // n, a.shape[1] // n
            plain = IM(a).rebin(n).data, np.asarray(a, dtype=float)[: H * n, : W * n].reshape(H, n, W, n).sum(axis=(1, 3))
            r, e = im.rebin(n), gen.m_rebin(a, n)
        elif name == "shift":
            plain = IM(a).shift(y, x, m).data, gen.m_shift(a, y, x, m)
            r, e = im.shift(y, x, m), gen.m_shift_fam(a, y, x, m)
        elif name in ("adjacent", "mean"):
            r, e = im.demosaic(name), np.asarray(a, dtype=float)
            demo = gen.DEMOSAIC[name](a)
        elif name in ("+", "-", "*", "/"):
            second = {0: MI(b, angle_dic=dic), 1: b, 2: float(b[0, 0]), 3: MI(b, angle_dic=dic)}[n]
            v = np.asarray(second.data if isinstance(second, MI) else second, dtype=float)
            f = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "/": lambda p, q: np.where(q == 0, 0.0, p / np.where(q == 0, 1, q))}[name]
            r, e = f(im, second) if name != "/" else im / second, f(np.asarray(a, dtype=float), v)
            second = IM(b) if isinstance(second, MI) else second
            plain = (f(IM(a), second) if name != "/" else IM(a) / second).data, e
        elif name == "ifov":
            r, e = im.correct_ifov(), gen.m_ifov(a)
        elif name == "flat":
            b = b + (n == 1)
            r, e = im.correct_flat(MI(b, angle_dic=dic)), gen.m_flat(a, b)
        elif name == "dark":  # what a NaN less its dark becomes is left open
            r = im.subtract_dark(MI(b, angle_dic=dic))
            e = gen.m_dark(a, b)
            e = np.where(np.isnan(e), np.asarray(r.data, dtype=float), e)
        elif name == "parameters":
            r, e = im, np.asarray(a, dtype=float)
            for ang, pol in ((0, im.pol0), (45, im.pol45), (-45, im.pol_45), (90, im.pol90)):
                same(pol.data, fams(a)[dic[ang]], f"pixels of {ang}")
            I, Q, U = gen.stokes(a, dic)
            fine = np.isfinite(I) & np.isfinite(Q) & np.isfinite(U)
            P = np.where(fine, np.hypot(Q, U), 0)
            for n_, got, want in (("pB", im.pB.data, P), ("AoLP", im.AoLP.data, 0.5 * np.arctan2(U, Q)), ("DoLP", im.DoLP.data, P / I)):
                same(np.where(fine, got, 0), np.where(fine, want, 0), f"{n_} of superpixels without such pixels", 1e-6 if case["dt"] == "f4" else 1e-11)
        if e.size:
            same(np.asarray(r.data, dtype=float), e, f"pixels after {name}", 1e-6 if case["dt"] == "f4" else 1e-12)
        if plain is not None:
            same(np.asarray(plain[0], dtype=float), plain[1], f"pixels of a plain image after {name}", 1e-6 if case["dt"] == "f4" else 1e-12)
        if demo is not None:
            same(r.demosaiced_images, demo, f"demosaiced images ({name})", 1e-6 if case["dt"] == "f4" else 1e-12)
        if e.size:
            S = gen.stokes(e, dic) if demo is None else gen.stokes4(demo, dic)
            same([r.I.data, r.Q.data, r.U.data], S, f"I, Q, U after {name}", 1e-6 if case["dt"] == "f4" else 1e-11)
    ctx.nt(e.size and (name == "dark" or not np.all(np.isfinite(e))) and np.any(np.isfinite(e)))


for pid_, ops_ in (("C01", ["parameters"]), ("C02", ["merge"]), ("C03", ["rebin"]), ("C04", ["shift"]), ("C05", ["adjacent", "mean"]), ("C08", ["+", "-", "*", "/"]), ("C09", ["flat", "dark"]), ("C10", ["ifov"])):
    sub(pid_, "not_finite", special_case(ops_), 150, thorough=3000,
        rule=f"{', '.join(ops_)} with NaN or infinite pixels anywhere (the first pixel often) and missing values: only what is computed from them may be NaN or infinite; non-trivial: both kinds in the result")(specials)
