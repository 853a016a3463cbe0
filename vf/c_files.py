"""C13-C17: files - FITS, exports, multi-file loading, raw frames."""
import contextlib
import datetime
import os

import numpy as np
from astropy.io import fits
from hypothesis import strategies as st

import micropolarray as ml
from vf import gen, util
from vf.c_pixels import ALLDT, IM, MI, frozen, mod, same_frozen
from vf.core import check, raises, same, sub
from vf.gen import arrays, build, fams, perms


@contextlib.contextmanager
def inside(folder):
    old = os.getcwd()
    os.chdir(folder)
    try:
        yield
    finally:
        os.chdir(old)


def tree(folder):
    """all files under a folder with their content"""
    out = {}
    for d, dirs, names in os.walk(folder):
        for n in names:
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, folder)] = f.read()
    return out


def subdirs(folder):
    return sorted(os.path.relpath(os.path.join(d, n), folder) for d, ns, _ in os.walk(folder) for n in ns)


STEMS = ["image", "a.b", "2022.12.03_10.30", "with space", "x_POL0", "n-1", "fits", "img.fits", "Ünï", "a.raw", "v1.2.3", "img[1]", "100%", "a#b;c", "it's", "-x", ".hidden", "a*?"]
DIRS = ["", "sub", "sub/dir.with.dots", "a b/c", "out.fits", "run[1]", "a*/b?", "~user", "$HOME"]
cards = st.lists(
    st.tuples(st.sampled_from(["EXPTIME", "OBSERVER", "GAIN", "NIMG", "FLAG", "TELESCOP", "CREATOR"]),
              st.one_of(st.integers(-10**6, 10**6), st.sampled_from([0.5, -1.25e-7, 3.0, 1e10]), st.booleans(),
                        st.sampled_from(["", "corona", "it's", "2023-01-02T03:04:05.678", "x" * 40])),
              st.sampled_from(["", "a comment"])),
    max_size=4, unique_by=lambda c: c[0])


def put_cards(im, cs):
    for k, v, c in cs:
        im.header[k] = (v, c)


def has_cards(header, cs, what):
    for k, v, c in cs:
        check(k in header, f"{what}: header entry {k} is missing")
        got = header[k]
        check(got == v and (isinstance(got, bool) == isinstance(v, bool)), f"{what}: header entry {k} is {got!r}, expected {v!r}")
        check(header.comments[k] == c, f"{what}: comment of {k} is {header.comments[k]!r}, expected {c!r}")


def has_remarks(header, rs, what):
    for k in ("HISTORY", "COMMENT"):
        text = "".join(map(str, header[k])) if k in header else ""
        for kk, v in rs:
            check(kk != k or v in text, f"{what}: {k} {v!r} is missing, has {text!r}")


fix_ranges = st.sampled_from([None, None, None, [0, 100], [-50, 0], [0, 0], [5, 4000], [0.5, 10.25], [-1e3, 1e3], (0, 4096), [10, 20]])

# ------------------------------------------------------------------------------------- C13


@sub("C13", "roundtrip", st.fixed_dictionaries(dict(
        arr=arrays(dts=ALLDT, maxside=16), arr2=arrays(dts=ALLDT, maxside=16), perm=perms, cards=cards, fixto=fix_ranges, plain=st.booleans(),
        stem=st.sampled_from(STEMS), dir=st.sampled_from(DIRS), rel=st.booleans(), src=st.sampled_from(["array", "file", "derived"]),
        remarks=st.lists(st.tuples(st.sampled_from(["HISTORY", "COMMENT"]), st.sampled_from(["dark subtracted", "seen from Dome C", "x" * 100])), max_size=3),
        nan=st.booleans())), 500, shards=3,
     rule="images of every pixel type (read from arrays, from files - unsigned ones included - or derived) x header cards x names and missing "
          "parent folders x clip ranges x overwriting; non-trivial: pixels not all equal")
def c13(case, ctx):
    a = build(case["arr"])
    gen.label_array(ctx, case["arr"])
    cls = IM if case["plain"] else (lambda x: MI(x, angle_dic=gen.perm(case["perm"])))
    if case["nan"] and a.dtype.kind == "f" and not case["fixto"]:
        a = np.array(a)
        a[0, 0], a[-1, -1], a[0, -1] = np.nan, np.inf, -0.0
        ctx.label("nan")
    with np.errstate(all="ignore"):
        if case["src"] == "file":
            im = cls(util.write_fits(os.path.join(ctx.tmp, "orig.fits"), a, remarks=case.get("remarks", [])))
            os.remove(os.path.join(ctx.tmp, "orig.fits"))
        elif case["src"] == "derived":
            im = cls(a).shift(0, 0) if a.dtype.kind == "f" else cls(a).rebin(1)
        else:
            im = cls(a)
    same(im.data, np.asarray(a, dtype=float), "image before saving")
    put_cards(im, case["cards"])
    if case["src"] != "file":
        for k, v in case.get("remarks", []):
            im.header[k] = v
    ctx.nt(np.ptp(np.nan_to_num(np.asarray(a, float))) > 0)
    ctx.label(case["src"], "clipped" if case["fixto"] else None, "plain" if case["plain"] else "micropol")
    with np.errstate(all="ignore"):
        keep = frozen(im)
    base = os.path.join(ctx.tmp, "w")
    os.makedirs(base)
    rel = os.path.join(case["dir"], case["stem"] + ".fits")
    with inside(base):
        path = rel if case["rel"] else os.path.join(base, rel)
        with np.errstate(all="ignore"):
            cls(build(case["arr2"])).save_as_fits(path)
            if case["fixto"]:
                im.save_as_fits(path, fixto=case["fixto"])
            else:
                im.save_as_fits(path)
            same_frozen(im, keep, "image after saving")
        check(sorted(tree(base)) == [os.path.normpath(rel)], f"files after saving {rel}: {sorted(tree(base))}")
        e = np.asarray(a, dtype=float)
        if case["fixto"]:
            e = np.clip(e, *case["fixto"])
        with fits.open(path) as h:
            check(len(h) == 1, f"{len(h)} units in the file")
            same(np.array(h[0].data), e, "pixels in the file")
        with np.errstate(all="ignore"):
            back = cls(path)
            same(back.data, e, "loaded pixels")
            check((back.height, back.width) == e.shape, "size of the loaded image")
            has_cards(back.header, case["cards"], "loaded image")
            has_remarks(back.header, case.get("remarks", []), "loaded image")
            # a second generation is still the same image
            back.save_as_fits(path)
            again = cls(path)
            same(again.data, e, "pixels after saving and loading twice")
            has_cards(again.header, case["cards"], "image loaded twice")
            has_remarks(again.header, case.get("remarks", []), "image loaded twice")


@sub("C13", "bad_name", st.fixed_dictionaries(dict(
        name=st.sampled_from(["image", "image.fit", "image.txt", "image.raw", "image.fits.gz", "imagefits", "sub/image", "sub/dir/", "image.fits2", "a.fits/b", "image.fts"]),
        what=st.sampled_from(["fits", "fits", "raw"]), plain=st.booleans(), fixto=st.booleans())), 120,
     rule="names that do not end in .fits (.raw for raw files); every case non-trivial")
def c13_bad(case, ctx):
    im = IM(np.ones((4, 4))) if case["plain"] else MI(np.ones((4, 4)), angle_dic=gen.perm(0))
    name = case["name"]
    if case["what"] == "raw":
        if name.endswith(".raw"):
            name = "image.fits"
        fn = lambda: im.save_as_raw(os.path.join(ctx.tmp, name))
    else:
        fn = lambda: im.save_as_fits(os.path.join(ctx.tmp, name), fixto=[0, 1] if case["fixto"] else None)
    ctx.nt()
    raises(ValueError, fn, f"saving as {case['what']} to {name!r}")
    check(tree(ctx.tmp) == {}, f"files written for the name {name!r}: {sorted(tree(ctx.tmp))}")


# ------------------------------------------------------------------------------------- C14

TITLES = {"I": ("Stokes I", "DN"), "Q": ("Stokes Q", "DN"), "U": ("Stokes U", "DN"), "pB": ("Polarized brightness", "DN"),
          "AoLP": ("Angle of Linear Polarization", "rad"), "DoLP": ("Degree of Linear Polarization", "")}


@sub("C14", "exports", st.fixed_dictionaries(dict(
        arr=arrays(dts=ALLDT, minside=2, maxside=12) | arrays(dts=ALLDT, minside=2, maxside=12) | arrays(dts=ALLDT, minside=34, maxside=42), hole=st.sampled_from([None] * 7 + ["nan", "nan", "inf"]), perm=perms, order=st.integers(0, 23), cards=cards,
        fixto=fix_ranges, stem=st.sampled_from(STEMS), dir=st.sampled_from(DIRS), rel=st.booleans(),
        what=st.sampled_from(["single", "demo", "param", "all"]), param=st.sampled_from(list(TITLES)),
        mode=st.sampled_from([None, "adjacent", "mean"]), twice=st.sampled_from([None, "other", "changed"]))), 500, shards=3,
     rule="the four kinds of export x assignments x names/folders x clip ranges, mosaic and demosaiced, also when another image, or this one before a correction, was exported there; the folder must hold exactly the expected "
          "files; non-trivial: the exported planes differ from each other")
def c14(case, ctx):
    a, dic = build(case["arr"]), gen.perm_shuffled(case["perm"], case["order"])
    gen.label_array(ctx, case["arr"])
    if case.get("hole"):
        case = dict(case, fixto=None, twice=None if case["twice"] == "changed" else case["twice"])
        a = np.array(a, dtype=a.dtype if a.dtype.kind == "f" else float)
        a[-1, 0] = float(case["hole"])
        ctx.label(case["hole"])
    im = MI(a, angle_dic=dic)
    put_cards(im, case["cards"])
    what, mode = case["what"], case["mode"]
    if what == "demo":
        mode = mode or "adjacent"
    if mode:
        im.demosaic(mode)
    ctx.label(what, mode, "clipped" if case["fixto"] else None)
    base = os.path.join(ctx.tmp, "w")
    os.makedirs(base)
    stem = os.path.join(case["dir"], case["stem"])
    lo_hi = case["fixto"] if what != "all" else None
    name = stem + ".fits" if case["rel"] else os.path.join(base, stem + ".fits")
    kw = dict(fixto=lo_hi) if lo_hi else {}
    fn = {"single": lambda i: i.save_single_pol_images(name, **kw), "demo": lambda i: i.save_demosaiced_images_as_fits(name, **kw),
          "param": lambda i: i.save_param_as_fits(case["param"], name, **kw), "all": lambda i: i.save_all_pol_params_as_fits(name)}[what]
    ctx.label(f"{case['twice']} before" if case["twice"] else None)
    if case["twice"] == "changed":  # exported, then corrected in place
        with inside(base):
            fn(im)
        im.subtract_dark(MI(gen.hashfloat(case["arr"].get("salt", 1), a.shape, 0, 1000)))
        a = np.array(im.data)
    f = fams(a)
    S = gen.stokes(a, dic) if not mode else gen.stokes4(gen.DEMOSAIC[mode](a), dic)
    clip = (lambda x: np.clip(x, *lo_hi)) if lo_hi else (lambda x: x)
    planes = {}
    if what == "single":
        for ang in gen.ANGLES:
            planes[f"_POL{ang}"] = (clip(f[dic[ang]]), ang)
    elif what == "demo":
        d = gen.DEMOSAIC[mode](a)
        for ang in gen.ANGLES:
            planes[f"_POL{ang}"] = (clip(d[dic[ang]]), ang)
    else:
        for n in TITLES if what == "all" else [case["param"]]:
            planes["_" + n] = (clip(np.array(getattr(im, n).data)), n)
        same([im.I.data, im.Q.data, im.U.data], S, "I, Q, U before the export", 1e-11)
    ctx.nt(len({v.tobytes() for v, _ in planes.values()}) == len(planes) and len(np.unique(next(iter(planes.values()))[0])) > 1)
    keep = frozen(im)
    with inside(base):
        if case["twice"] == "other":
            other = MI(np.full((4, 4), 3.0), angle_dic=dic)
            fn(other.demosaic() if what == "demo" else other)
        fn(im)
    same_frozen(im, keep, "image after the export")
    want = sorted(os.path.normpath(stem + k + ".fits") for k in planes)
    check(sorted(tree(base)) == want, f"exported files {sorted(tree(base))}, expected {want}")
    for k, (v, tag) in planes.items():
        data, hdr = util.read_primary(os.path.join(base, stem + k + ".fits"))
        same(data, v, f"pixels of {k}", 1e-12)
        if what in ("single", "demo"):
            check(int(str(hdr["POL"])) == tag, f"POL of {k} is {hdr['POL']!r}")
        else:
            check((hdr["PARAM"], hdr["UNITS"]) == TITLES[tag], f"PARAM, UNITS of {k} are {hdr['PARAM']!r}, {hdr['UNITS']!r}")
        has_cards(hdr, case["cards"], k)


@sub("C14", "refused", st.fixed_dictionaries(dict(
        name=st.sampled_from(["image", "image.fit", "image.txt", "image.raw", "img.fits.gz", "s/image"]), what=st.sampled_from(["single", "demo", "param", "all", "undemosaiced"]))), 60,
     rule="exports to names without .fits, and of demosaiced images before demosaicing; every case non-trivial")
def c14_refused(case, ctx):
    im = MI(gen.hashint(1, (4, 4), 0, 9), angle_dic=gen.perm(0))
    name = os.path.join(ctx.tmp, case["name"])
    if case["what"] == "undemosaiced":
        name = os.path.join(ctx.tmp, "x.fits")
    else:
        im.demosaic()
    fn = {"single": lambda: im.save_single_pol_images(name), "demo": lambda: im.save_demosaiced_images_as_fits(name), "undemosaiced": lambda: im.save_demosaiced_images_as_fits(name),
          "param": lambda: im.save_param_as_fits("I", name), "all": lambda: im.save_all_pol_params_as_fits(name)}[case["what"]]
    ctx.nt()
    raises(ValueError, fn, f"export {case['what']} to {name!r}")
    check(tree(ctx.tmp) == {}, f"files written: {sorted(tree(ctx.tmp))}")


# ------------------------------------------------------------------------------------- C15

dates = st.builds(lambda d, s: [d, s], st.integers(0, 4000), st.integers(0, 86399))


@st.composite
def load_case(draw):
    n = draw(st.integers(1, 6))
    shape = draw(gen.shapes(2, 2, 10))
    k = draw(st.sampled_from(["iso", "iso", "split", "none", "mixed"]))
    few = draw(st.sampled_from([ALLDT, ALLDT, ("f4", "i4", "u4", "i8", "f8")]))
    files = [dict(arr=draw(arrays(shape=shape, dts=few, lays=("C",), **draw(st.sampled_from([dict(lo=-20000, hi=60000), {}])))), date=draw(dates),
                  kind=k if k != "mixed" else draw(st.sampled_from(["iso", "split", "none", "date-only"])), frac=draw(st.sampled_from(["", "", ".5", ".123456"])))
             for _ in range(n)]
    return dict(files=files, avg=draw(st.sampled_from([True, True, False, None])), plain=draw(st.booleans()), perm=draw(perms), aslist=draw(st.booleans()),
                order=draw(st.permutations(list(range(n)))), stem=draw(st.sampled_from(STEMS)), folders=draw(st.booleans()), again=draw(st.integers(0, 3)) == 0, rewrite=draw(st.integers(0, 4)) == 0)


@sub("C15", "files", load_case(), 400, shards=3,
     rule="1..6 FITS files of mixed pixel types in any order, averaged or summed, with ISO/split/missing/mixed dates; non-trivial: several different files")
def c15(case, ctx):
    n = len(case["files"])
    arrs = [build(f["arr"]) for f in case["files"]]
    ctx.label(f"n{n}", *{f["kind"] for f in case["files"]}, *{f["arr"]["dt"] for f in case["files"]}, "sum" if case["avg"] is False else "mean")
    ctx.nt(n > 1 and any(np.any(np.asarray(a, float) != np.asarray(arrs[0], float)) for a in arrs))
    times, paths = [], []
    for k, (f, a) in enumerate(zip(case["files"], arrs)):
        t = datetime.datetime(2015, 1, 1) + datetime.timedelta(days=f["date"][0], seconds=f["date"][1])
        hdr = dict(EXPTIME=k, OBJECT=f"file {k}")
        if f["kind"] == "iso":
            hdr["DATE-OBS"] = t.strftime("%Y-%m-%dT%H:%M:%S") + f["frac"]
        elif f["kind"] in ("split", "date-only"):
            hdr["DATE-OBS"] = t.strftime("%Y-%m-%d")
            if f["kind"] == "split":
                hdr["TIME-OBS"] = t.strftime("%H:%M:%S") + f["frac"]
        if f["kind"] in ("iso", "split"):
            times.append(t)
        if case["folders"]:  # the same file name in several folders
            os.makedirs(os.path.join(ctx.tmp, f"night{k}"))
        paths.append(util.write_fits(os.path.join(ctx.tmp, f"night{k}/{case['stem']}.fits" if case["folders"] else f"{case['stem']}{k}.fits"), a, hdr))
    ps = [paths[k] for k in case["order"]]
    if case["again"]:  # one of the files is listed twice
        ps.append(ps[0])
        arrs.append(arrs[case["order"][0]])
        n += 1
    ctx.label("one name in several folders" if case["folders"] and n > 1 else None, "a file listed twice" if case["again"] else None)
    before = tree(ctx.tmp)
    arg = ps[0] if n == 1 and not case["aslist"] else list(ps)
    kw = {} if case["avg"] is None else dict(averageimages=case["avg"])
    im = IM(arg, **kw) if case["plain"] else MI(arg, angle_dic=gen.perm(case["perm"]), **kw)
    check(arg == (ps if isinstance(arg, list) else ps[0]), "the list of names was changed")
    check(tree(ctx.tmp) == before, "the loaded files were changed")
    stack = np.stack([np.asarray(a, dtype=float) for a in arrs])
    e = stack.sum(axis=0) if case["avg"] is False else stack.mean(axis=0)
    if n == 1:
        same(im.data, stack[0], "pixels")
        check(im.filename == ps[0], f"file name {im.filename!r}")
        with fits.open(ps[0]) as h:
            for c in h[0].header.cards:
                if c.keyword not in ("BITPIX", "BZERO", "BSCALE", ""):
                    check(im.header.get(c.keyword) == c.value, f"header entry {c.keyword} is {im.header.get(c.keyword)!r}, file has {c.value!r}")
            check(not set(im.header) - set(h[0].header) - {"BITPIX"}, f"new header entries {set(im.header) - set(h[0].header)}")
    else:
        # single-precision files may be divided and added in single precision, and with them those of 8 or 16 bits, which it holds
        single = any(a.dtype.kind == "f" and a.dtype.itemsize == 4 for a in arrs)
        exact = [not (single and (a.dtype.itemsize <= 2 or a.dtype.kind == "f" and a.dtype.itemsize == 4)) for a in arrs]
        lim = sum(np.abs(x) * (1e-14 if q else 4e-7) for x, q in zip(stack, exact)) / (n if case["avg"] is not False else 1)
        check(bool(np.all(np.abs(np.asarray(im.data, dtype=float) - e) <= lim)), f"pixels {np.asarray(im.data).ravel()[:4]}, expected {e.ravel()[:4]}")
        check(im.header["SUMOF"] == n, f"SUMOF {im.header['SUMOF']}")
        if times:
            got = [datetime.datetime.fromisoformat(str(im.header[k])) for k in ("STRT-OBS", "END-OBS")]
            for g, t, k in zip(got, (min(times), max(times)), ("STRT-OBS", "END-OBS")):
                check(0 <= (g - t).total_seconds() < 1, f"{k} is {g}, expected {t}")
        else:
            check("STRT-OBS" not in im.header and "END-OBS" not in im.header, "start and end without observation dates")
    check((im.height, im.width) == e.shape, "size")
    if not case["plain"]:
        same([im.I.data, im.Q.data, im.U.data], gen.stokes(im.data, gen.perm(case["perm"])), "I, Q, U", 1e-6)
    if case["rewrite"]:  # another observation is now stored under the first name
        other = gen.hashint(7, e.shape, 0, 4000)
        util.write_fits(ps[0], other, dict(EXPTIME=77))
        im2 = IM(ps[0])
        same(im2.data, other, "pixels of a rewritten file")
        check(im2.header["EXPTIME"] == 77, "header of a rewritten file")
        check(not np.shares_memory(im2.data, im.data), "two loaded images share their pixels")
        return
    # the order of the files must not matter
    if n > 1:
        im2 = IM(list(reversed(ps)), **kw)
        check(bool(np.all(np.abs(np.asarray(im2.data, dtype=float) - e) <= lim)), f"pixels with the files in reverse order: {np.asarray(im2.data).ravel()[:4]}, expected {e.ravel()[:4]}")
        for k in ("SUMOF", "STRT-OBS", "END-OBS"):
            check(im2.header.get(k) == im.header.get(k), f"{k} depends on the order of the files")


@sub("C15", "refused", st.fixed_dictionaries(dict(plain=st.booleans(), n=st.integers(0, 3), at=st.integers(0, 3), how=st.sampled_from(["empty", "raw", "raw-in-list"]))), 40,
     rule="empty list, a .raw name alone, a .raw name among FITS files; every case non-trivial")
def c15_refused(case, ctx):
    cls = IM if case["plain"] else (lambda x: MI(x, angle_dic=gen.perm(0)))
    raw = os.path.join(ctx.tmp, "frame.raw")
    np.zeros((4, 4), dtype="<u2").tofile(raw)
    names = [util.write_fits(os.path.join(ctx.tmp, f"f{k}.fits"), np.ones((4, 4))) for k in range(case["n"])]
    if case["how"] == "empty":
        arg = []
    elif case["how"] == "raw":
        arg = raw
    else:
        arg = list(names)
        arg.insert(case["at"] % (len(arg) + 1), raw)
    ctx.nt()
    before = tree(ctx.tmp)
    raises(NameError, lambda: cls(arg), f"loading {case['how']}")
    check(tree(ctx.tmp) == before, "files changed")


# ------------------------------------------------------------------------------------- C16


@st.composite
def raw_case(draw):
    h, w = draw(st.integers(1, 12)), draw(st.integers(1, 12))
    if draw(st.booleans()):
        h, w = h * 2, w * 2
    n = draw(st.integers(1, 5))
    hi = draw(st.sampled_from([1, 4095, 65535, 65535]))
    return dict(h=h, w=w, n=n, hi=hi, salt=draw(gen.salts), stem=draw(st.sampled_from(STEMS)), dir=draw(st.sampled_from(DIRS[:-1] + ["../up", "raw.dir"])),
                rel=draw(st.booleans()), remove=draw(st.sampled_from([None, False, True])), what=draw(st.sampled_from(["convert", "convert", "sum", "average", "mean-fn", "default"])),
                existing=draw(st.booleans()), zeros=draw(st.booleans()), folders=draw(st.booleans()), again=draw(st.booleans()), rewrite=draw(st.integers(0, 3)) == 0)


@sub("C16", "convert", raw_case(), 400, shards=2,
     rule="raw frames of any size and 16-bit content, names and folders with dots/spaces/.., removal asked or not, 1..5 frames summed or averaged; "
          "the complete folder tree is compared before and after; non-trivial: values above 255 or several frames")
def c16(case, ctx):
    h, w, n = case["h"], case["w"], case["n"]
    base = os.path.join(ctx.tmp, "w", "here")
    os.makedirs(os.path.join(ctx.tmp, "w", "up"))
    os.makedirs(os.path.join(base, case["dir"]), exist_ok=True)
    arrs = [gen.hashint(case["salt"], (h, w), 0, case["hi"], k).astype("<u2") for k in range(n)]
    if case["zeros"]:
        for a in arrs:
            a[-1:] = 0
    what = case["what"]
    ctx.label(what, case["dir"], "remove" if case["remove"] else None)
    ctx.nt(max(a.max() for a in arrs) > 255 or n > 1)
    stems = [os.path.join(case["dir"], f"{case['stem']}{k if k else ''}") for k in range(n)]
    if case["folders"]:  # the same file name in several folders
        stems = stems[:1] + [os.path.join(case["dir"], f"part{k}", case["stem"]) for k in range(1, n)]
    with inside(base):
        for s in stems[1:]:
            os.makedirs(os.path.dirname(s) or ".", exist_ok=True)
        for s, a in zip(stems, arrs):
            with open(s + ".raw", "wb") as f:
                f.write(a.tobytes())
        with open(os.path.join(case["dir"], "other.txt"), "w") as f:
            f.write("keep me")
        full = lambda p: p if case["rel"] else os.path.abspath(p)
        out = stems[0] + (".fits" if what == "convert" else "_merged.fits")
        if case["existing"]:
            util.write_fits(out, np.full((3, 3), 7.0))
        before = tree(os.path.join(ctx.tmp, "w"))
        before = {os.path.normpath(os.path.join(ctx.tmp, "w", k)): v for k, v in before.items()}
        if what == "convert":
            ml.convert_rawfile_to_fits(full(stems[0] + ".raw"), h, w, **({} if case["remove"] is None else dict(remove_old=case["remove"])))
        else:
            names = [full(s + ".raw") for s in stems]
            if n == 1 and case["existing"]:
                names = names[0]
            elif case["again"]:
                names.append(names[0])
                arrs.append(arrs[0])
                n += 1
            fn = {"sum": lambda: ml.merge_rawfiles_to_fits(names, full(out), h, w, mode="sum"), "average": lambda: ml.merge_rawfiles_to_fits(names, full(out), h, w, mode="average"),
                  "mean-fn": lambda: ml.average_rawfiles_to_fits(names, full(out), h, w), "default": lambda: ml.merge_rawfiles_to_fits(names, full(out), h, w)}[what]
            fn()
        out = os.path.abspath(out)
        raw0 = os.path.abspath(stems[0] + ".raw")
    after = {os.path.normpath(os.path.join(ctx.tmp, "w", k)): v for k, v in tree(os.path.join(ctx.tmp, "w")).items()}
    check(out in after, f"{os.path.basename(out)} was not written; files: {sorted(after)}")
    gone = set(before) - set(after)
    check(gone == ({raw0} if what == "convert" and case["remove"] else set()), f"deleted files: {sorted(gone)}")
    check(set(after) - set(before) <= {out}, f"new files: {sorted(set(after) - set(before))}")
    for k in set(after) & set(before) - {out}:
        check(after[k] == before[k], f"{os.path.basename(k)} was changed")
    data, _ = util.read_primary(out)
    stack = np.stack(arrs).astype(float)
    if what == "convert":
        same(data, stack[0], "converted pixels")
        same(IM(out).data, stack[0], "converted pixels, loaded")
    elif what in ("sum", "default"):
        same(data, stack.sum(axis=0), "summed frames")
    else:
        same(data, stack.sum(axis=0) / n, "averaged frames", 1e-14)
    if case["rewrite"]:  # a new frame arrives under the same name and is converted to the same output
        a = gen.hashint(case["salt"] + 1, (w, h), 0, 65535, 99).astype("<u2")
        os.makedirs(os.path.dirname(raw0), exist_ok=True)
        with open(raw0, "wb") as f:
            f.write(a.tobytes())
        if what == "convert":
            ml.convert_rawfile_to_fits(raw0, w, h)
        else:
            ml.merge_rawfiles_to_fits([raw0], out, w, h)
        same(util.read_primary(out)[0], a.astype(float), "frame converted again to the same name")


@sub("C16", "long", st.fixed_dictionaries(dict(h=st.integers(1, 3), w=st.integers(1, 3), n=st.sampled_from([20, 60, 257, 300]), lo=st.sampled_from([0, 60000, 65535]), salt=gen.salts,
     mode=st.sampled_from(["sum", "average"]))), 12,
     examples=[dict(h=2, w=2, n=300, lo=60000, salt=1, mode=m) for m in ("sum", "average")],
     rule="long sequences of small bright frames, so that the sums pass 2^16, 2^20 and 2^24; every case non-trivial")
def c16_long(case, ctx):
    h, w, n = case["h"], case["w"], case["n"]
    arrs = [gen.hashint(case["salt"], (h, w), case["lo"], 65535, k).astype("<u2") for k in range(n)]
    names = []
    for k, a in enumerate(arrs):
        names.append(os.path.join(ctx.tmp, f"{k}.raw"))
        with open(names[-1], "wb") as f:
            f.write(a.tobytes())
    ctx.nt()
    out = os.path.join(ctx.tmp, "o.fits")
    ml.merge_rawfiles_to_fits(names, out, h, w, mode=case["mode"])
    e = np.stack(arrs).astype(float).sum(axis=0)
    same(util.read_primary(out)[0], e if case["mode"] == "sum" else e / n, f"{case['mode']} of {n} frames", 1e-14)


@sub("C16", "save_as_raw", st.fixed_dictionaries(dict(
        arr=arrays(dts=("f8", "i4", "u2", "i2", "f4", "i8", "u1", "u4"), lo=0, hi=4095, maxside=16, frac=False), plain=st.booleans(), stem=st.sampled_from(STEMS), perm=perms)), 200,
     rule="images of 12-bit counts of any pixel type and memory layout, saved as raw and converted back; non-trivial: pixels not all equal")
def c16_raw(case, ctx):
    a = build(case["arr"])
    gen.label_array(ctx, case["arr"])
    ctx.nt(np.ptp(np.asarray(a, float)) > 0)
    im = IM(a) if case["plain"] else MI(a, angle_dic=gen.perm(case["perm"]))
    keep = frozen(im)
    raw = os.path.join(ctx.tmp, case["stem"] + ".raw")
    im.save_as_raw(raw)
    same_frozen(im, keep, "image after saving as raw")
    check(os.path.getsize(raw) == 2 * a.size, f"raw file of {os.path.getsize(raw)} bytes for {a.size} pixels")
    same(np.fromfile(raw, dtype="<u2").reshape(a.shape), np.asarray(a, dtype=float), "raw pixels")
    ml.convert_rawfile_to_fits(raw, *a.shape)
    check(sorted(tree(ctx.tmp)) == sorted([case["stem"] + ".raw", case["stem"] + ".fits"]), f"files {sorted(tree(ctx.tmp))}")
    same(IM(os.path.join(ctx.tmp, case["stem"] + ".fits")).data, np.asarray(a, dtype=float), "restored image")


@sub("C16", "refused", st.fixed_dictionaries(dict(
        name=st.sampled_from(["a.bin", "a", "a.raw.txt", "a.fits", "araw", "a.RAWX", "d.raw/a"]), what=st.sampled_from(["convert", "convert-remove", "merge", "average"]),
        out=st.sampled_from(["o", "o.raw", "o.bin", "o.fits.txt", "ofits", "o.fit", "o.fits/x"]))), 60,
     rule="wrong input or output extensions; every case non-trivial")
def c16_refused(case, ctx):
    ctx.nt()
    os.makedirs(os.path.join(ctx.tmp, "d.raw"))
    src = os.path.join(ctx.tmp, case["name"])
    np.arange(16, dtype="<u2").tofile(src)
    if case["what"].startswith("convert"):
        fn = lambda: ml.convert_rawfile_to_fits(src, 4, 4, remove_old=case["what"] == "convert-remove")
    else:
        raw = os.path.join(ctx.tmp, "in.raw")
        np.arange(16, dtype="<u2").tofile(raw)
        f = ml.merge_rawfiles_to_fits if case["what"] == "merge" else ml.average_rawfiles_to_fits
        fn = lambda: f([raw, raw], os.path.join(ctx.tmp, case["out"]), 4, 4)
    before = tree(ctx.tmp)
    raises(ValueError, fn, f"{case['what']} of {case['name']} to {case['out']}")
    check(tree(ctx.tmp) == before, "files were written, changed or deleted")


# ------------------------------------------------------------------------------------- C17

SIDE = 1952
NBYTES = SIDE * SIDE * 3 // 2


def packed(case, k=0):
    """bytes of a packed frame and its pixels"""
    salt = case["salt"]
    b = np.floor(gen.hash01(salt, NBYTES, 10 + k) * 256).astype(np.uint8)
    if case["kind"] == "ramp":
        px = (np.arange(SIDE * SIDE) + salt + k) % 4096
        b = pack(px)
    elif case["kind"] == "low":
        b = pack(np.floor(gen.hash01(salt, SIDE * SIDE, 3 + k) * 20).astype(int))
    for start, length, v in case["runs"]:
        s = start * NBYTES // 1000
        b[s : s + length] = v
    if case["tail"]:
        b[-case["tail"] :] = 0
    if case["chunk_tail"]:
        n = NBYTES // 32
        for q in range(1, 33):
            b[q * n - case["chunk_tail"] : q * n] = 0
    n, edge = NBYTES // 32, case["edge"]
    if edge is not None:  # bytes that mean something in text files, at both ends and around every 1/32 part
        b[-edge[1] :] = edge[0]
        b[: edge[1]] = edge[0]
        if edge[2]:
            for q in range(1, 32):
                b[q * n - edge[1] : q * n + edge[1]] = edge[0]
    t = b.astype(np.int64).reshape(-1, 3)
    px = np.stack([(t[:, 0] << 4) | (t[:, 1] >> 4), (t[:, 2] << 4) | (t[:, 1] & 15)], axis=1).reshape(SIDE, SIDE)
    return b.tobytes(), px.astype(float)


def pack(px):
    p = px.reshape(-1, 2)
    return np.stack([p[:, 0] >> 4, ((p[:, 0] & 15) << 4) | (p[:, 1] & 15), p[:, 1] >> 4], axis=1).astype(np.uint8).reshape(-1)


SPECIAL = [0x0A, 0x0A, 0x0D, 0x20, 0x00, 0x1A, 0x09, 0xFF, 0x23, 0x2C, 0xEF]

packed_case = dict(
    salt=gen.salts, kind=st.sampled_from(["random", "ramp", "low"]),
    runs=st.lists(st.tuples(st.integers(0, 999), st.integers(1, 5000), st.sampled_from([0, 0, 255, 15, 240, 1])), max_size=4),
    tail=st.sampled_from([0, 1, 2, 3, 100, 5000]), chunk_tail=st.sampled_from([0, 0, 1, 3, 50]),
    edge=st.one_of(st.none(), st.tuples(st.sampled_from(SPECIAL), st.integers(1, 4), st.booleans())))


@sub("C17", "frame", st.fixed_dictionaries(packed_case), 16, thorough=200, shards=4, hang=300,
     examples=[dict(salt=3, kind="random", runs=[], tail=0, chunk_tail=0, edge=(v, 2, True)) for v in (0x0A, 0x0D, 0x20, 0x1A)],
     rule="whole packed 1952x1952 frames (3.8 million numbers each): random, ramps, low counts, runs of equal bytes, zeros or text-file control bytes at the ends of the file and of "
          "every 1/32 part; non-trivial: random or ramp content")
def c17(case, ctx):
    raw, px = packed(case)
    ctx.label(case["kind"], f"tail{case['tail']}")
    ctx.nt(case["kind"] != "low")
    path = os.path.join(ctx.tmp, "frame.bin")
    with open(path, "wb") as f:
        f.write(raw)
    a = mod("processing.convert").nparr_from_binary(path)
    same(a, px, "decoded frame")
    with open(path, "rb") as f:
        check(f.read() == raw, "the binary file was changed")


@sub("C17", "changed", st.fixed_dictionaries(dict(packed_case, salt2=gen.salts, kind2=st.sampled_from(["random", "low"]))), 4, thorough=40, shards=2, hang=300,
     rule="a file decoded, overwritten with another frame, decoded again (with what was returned first overwritten too), then both by conversion; non-trivial: every case")
def c17_changed(case, ctx):
    path = os.path.join(ctx.tmp, "frame.bin")
    ctx.nt()
    for k in range(2):
        raw, px = packed(dict(case, salt=case["salt2"], kind=case["kind2"]) if k else case)
        with open(path, "wb") as f:
            f.write(raw)
        a = mod("processing.convert").nparr_from_binary(path)
        same(a, px, f"frame decoded from file content {k + 1}")
        if a.flags.writeable:
            a[...] = 5
        b = mod("processing.convert").nparr_from_binary(path)
        same(b, px, f"decoded again, from file content {k + 1}")


@sub("C17", "set", st.fixed_dictionaries(dict(packed_case, n=st.integers(1, 3), single=st.booleans(), name=st.sampled_from(["out.fits", "a.b.fits"]),
     folders=st.booleans(), again=st.booleans())), 2, thorough=30, hang=400,
     examples=[dict(salt=5, kind="random", runs=[], tail=3, chunk_tail=0, edge=None, n=2, single=False, name="out.fits", folders=True, again=True),
               dict(salt=6, kind="random", runs=[], tail=0, chunk_tail=0, edge=None, n=1, single=False, name="out.fits", folders=False, again=18)],
     rule="sets of 1..4 (and 19) packed frames (of one name in several folders, or listed twice) converted to their mean; non-trivial: more than one frame")
def c17_set(case, ctx):
    paths, frames = [], []
    for k in range(case["n"]):
        raw, px = packed(case, k)
        if case["folders"]:
            os.makedirs(os.path.join(ctx.tmp, f"d{k}"))
        paths.append(os.path.join(ctx.tmp, f"d{k}/frame.bin" if case["folders"] else f"f{k}.bin"))
        with open(paths[-1], "wb") as f:
            f.write(raw)
        frames.append(px)
    for _ in range(int(case["again"])):
        paths.append(paths[0])
        frames.append(frames[0])
    ctx.nt(len(paths) > 1)
    out = os.path.join(ctx.tmp, case["name"])
    before = set(tree(ctx.tmp))
    ml.convert_set(paths[0] if len(paths) == 1 and case["single"] else paths, out, SIDE, SIDE)
    data, _ = util.read_primary(out)
    same(data, np.mean(frames, axis=0), "mean of the set", 1e-13)
    check(set(tree(ctx.tmp)) == before | {case["name"]}, "files in the folder")
    raises(ValueError, lambda: ml.convert_set(paths, os.path.join(ctx.tmp, "out.bin2"), SIDE, SIDE), "converting to a name without .fits")


@sub("C17", "triples", st.fixed_dictionaries(dict(salt=gen.salts, n=st.integers(1, 400), zeros=st.booleans(), vals=st.lists(st.integers(0, 255), max_size=12),
     end=st.lists(st.sampled_from(SPECIAL), max_size=4))), 300,
     rule="any sequence of byte triples decoded by the frame decoder's unit; non-trivial: at least two triples with different bytes")
def c17_triples(case, ctx):
    fn = getattr(mod("processing.convert"), "three_bytes_to_two_ints", None)
    if fn is None:
        ctx.label("unit not available")
        return
    b = np.floor(gen.hash01(case["salt"], 3 * case["n"]) * 256).astype(np.uint8)
    k = min(len(case["vals"]), b.size)
    b[:k] = case["vals"][:k]
    if case["zeros"]:
        b[-(b.size // 2) :] = 0
    if case["end"]:
        b[-min(len(case["end"]), b.size) :] = case["end"][: b.size]
    ctx.nt(case["n"] > 1 and len(set(b.tolist())) > 2)
    t = b.astype(np.int64).reshape(-1, 3)
    e = np.stack([(t[:, 0] << 4) | (t[:, 1] >> 4), (t[:, 2] << 4) | (t[:, 1] & 15)], axis=1).reshape(-1)
    same(fn(b.tobytes()), e, "decoded triples")
