"""Frames of camera size and of extreme shapes: the same oracles as the small cases, over the whole frame."""
from hypothesis import strategies as st

from vf import c_calib, c_cwl, c_files, c_misc, c_pixels, c_regions, gen
from vf.core import sub
from vf.gen import arrays, perms

# small ones first, as shrinking goes there
EVEN = [(260, 1300), (1300, 260), (512, 514), (4, 5000), (5002, 6), (2, 70000), (70002, 2), (1026, 1290), (1952, 1952), (2048, 2048), (2050, 2046), (3000, 1100)]
ANY = [(257, 1301), (1301, 255), (513, 511), (3, 5000), (5001, 5), (1, 70001), (70001, 1), (1027, 1289), (1951, 1953), (2048, 2048), (2051, 2045)]
MID = [(260, 1300), (1300, 260), (512, 514), (6, 3000), (3002, 4), (1026, 1030)]
KINDS = ["hash", "hash", "index"]
RULE = "frames of camera size and of extreme shapes (sides up to 70000 pixels); non-trivial: as in the small cases"


def frames(dts=("f8", "u2", "i4", "f4"), sizes=EVEN, **kw):
    kw.setdefault("kinds", KINDS)
    return arrays(shape=st.sampled_from(sizes), dts=dts, frac=False, npts=2, lays=("C", "C", "C", "B", "F"), wide=False, **kw)


def big(h=2048, w=2048, dt="u2", kind="hash", lo=0, hi=4000, **kw):
    return dict(dict(h=h, w=w, dt=dt, kind=kind, lo=lo, hi=hi, salt=77), **kw)


SHAPES = ((2048, 2048), (70002, 6), (6, 70002))  # always tried: the camera, and sides beyond any 16-bit index


def exs(shapes=SHAPES, arr={}, **kw):
    return [dict(arr=big(h, w, **arr), **kw) for h, w in shapes]


def cases(**kw):
    return st.fixed_dictionaries(kw)


orders = st.integers(0, 23)


@sub("C01", "frame", cases(arr=frames(), perm=perms, order=orders), 5, thorough=80, shards=2, hang=400, rule=RULE,
     examples=exs(perm=7, order=0))
def f01(case, ctx):
    c_pixels.c01_params(case, ctx)


@sub("C02", "frame", cases(arr=frames(), lay=st.sampled_from("CFN")), 6, thorough=80, shards=2, hang=400, rule=RULE,
     examples=exs(lay="C"))
def f02(case, ctx):
    c_pixels.c02(case, ctx)


def binned(sizes):
    return cases(arr=frames(sizes=sizes), n=st.sampled_from([1, 2, 2, 3, 4, 8, 16, 40]), perm=perms, np_int=st.booleans())


@sub("C03", "frame", binned(EVEN), 5, thorough=80, shards=2, hang=400, rule=RULE,
     examples=exs(n=2, perm=3, np_int=False))
def f03(case, ctx):
    if min(case["arr"]["h"], case["arr"]["w"]) >= 2 * case["n"]:
        c_pixels.c03_micropol(case, ctx)


@sub("C03", "frame_plain", binned(ANY), 5, thorough=80, hang=400, rule=RULE,
     examples=exs(((2050, 2047), (70001, 5), (5, 70001)), n=2, perm=3, np_int=False))
def f03p(case, ctx):
    if min(case["arr"]["h"], case["arr"]["w"]) >= case["n"]:
        c_pixels.c03_plain(case, ctx)


@st.composite
def shifted(draw, sizes, step):
    """shifts by parts of the size (in superpixels for mosaics), sometimes beyond it"""
    arr = draw(frames(sizes=sizes))

    def amount(n):
        n //= step
        if n < 2:
            return draw(st.sampled_from([0, 1, -1]))
        far = draw(st.one_of(st.integers(1, n - 1), st.integers(1, min(9, n - 1)), st.sampled_from([n + 1, 33000])))
        return far * draw(st.sampled_from([1, -1]))

    return dict(arr=arr, y=amount(arr["h"]), x=amount(arr["w"]), missing=draw(st.sampled_from([None, 0, -1, 7.5])), perm=draw(perms))


@sub("C04", "frame", shifted(EVEN, 2), 5, thorough=80, shards=2, hang=400, rule=RULE,
     examples=exs(y=300, x=-259, missing=None, perm=5) + exs(((70002, 6),), y=34000, x=-1, missing=1, perm=5) + exs(((6, 70002),), y=1, x=-34000, missing=1, perm=5))
def f04(case, ctx):
    c_pixels.c04_micropol(case, ctx)


@sub("C04", "frame_plain", shifted(ANY, 1), 5, thorough=80, hang=400, rule=RULE,
     examples=exs(((2049, 2050),), y=-300, x=1025, missing=-1, perm=5) + exs(((70001, 5),), y=-34000, x=2, missing=0, perm=5) + exs(((5, 70001),), y=-2, x=34000, missing=0, perm=5))
def f04p(case, ctx):
    c_pixels.c04_plain(case, ctx)


@sub("C05", "frame", cases(arr=frames(sizes=[s for s in EVEN if min(s) > 2]), mode=st.sampled_from(["adjacent", "mean", "spline"]), perm=perms, default=st.booleans()),
     4, thorough=60, shards=2, hang=400, rule=RULE,
     examples=[e for m in ("adjacent", "mean", "spline") for e in exs(mode=m, perm=9, default=True)])
def f05(case, ctx):
    c_pixels.c05(case, ctx)


@sub("C06", "frame", cases(arr=frames(sizes=[s for s in EVEN if min(s) > 2]), dims=st.tuples(*[st.sampled_from([4, 5, 31, 300, 512, 976, 1025, 2048])] * 2).map(list), perm=perms,
                           demo=st.sampled_from([None, None, "adjacent"])), 4, thorough=60, shards=2, hang=400, rule=RULE,
     examples=exs(((2048, 2048),), dims=[1024, 1024], perm=2, demo=None) + exs(((5002, 6),), dims=[3000, 5], perm=2, demo=None) + exs(((6, 5002),), dims=[5, 3000], perm=2, demo=None))
def f06(case, ctx):
    c_pixels.c06_micropol(case, ctx)
    c_pixels.c06_array(case, ctx)


@sub("C07", "frame", cases(arr=frames(sizes=MID), angle=st.one_of(st.sampled_from([90, 180, 270, 45, -30]), st.integers(-3600, 3600).map(lambda k: k / 10)), perm=perms,
                           demo=st.sampled_from([None, None, "adjacent"])), 3, thorough=40, shards=2, hang=400, rule=RULE,
     examples=exs(((1030, 1026), (6, 5002), (5002, 6)), angle=33.3, perm=2, demo=None))
def f07(case, ctx):
    c_pixels.c07(case, ctx)


@st.composite
def arith(draw, sizes):
    arr = draw(frames(("f8", "u2", "i4", "f4"), sizes, lo=-2000, hi=2000))
    kind = draw(st.sampled_from(["image", "image", "array", "float", "int"]))
    c = dict(arr=arr, kind=kind, op=draw(st.sampled_from("+-*/")), perm=draw(perms), perm2=draw(perms), hdr=draw(st.booleans()), demo=draw(st.sampled_from([None, None, "adjacent"])))
    shape = (arr["h"], arr["w"])
    c["second"] = draw(frames(("f8", "i4", "f4"), [shape], lo=-50, hi=2000, kinds=["hash", "sparse"])) if kind in ("image", "array") else draw(st.sampled_from([0, 2, -3, 7]))
    return c


@sub("C08", "frame", arith(EVEN), 5, thorough=80, shards=2, hang=400, rule=RULE,
     examples=[dict(arr=big(h, w, dt="f8"), kind="image", op="/", perm=1, perm2=4, hdr=True, demo=None, second=big(h, w, dt="f8", kind="sparse")) for h, w in SHAPES])
def f08(case, ctx):
    c_pixels.run_arith(case, ctx, c_pixels.MI)


@sub("C08", "frame_plain", arith(ANY), 4, thorough=80, hang=400, rule=RULE)
def f08p(case, ctx):
    c_pixels.run_arith(case, ctx, c_pixels.IM)


@st.composite
def corr(draw):
    arr = draw(frames(lo=0, hi=4095))
    shape = [(arr["h"], arr["w"])]
    return dict(arr=arr, dark=draw(frames(sizes=shape, lo=0, hi=4095)), flat=draw(frames(("f8", "i4", "u2"), shape, lo=1, hi=3000, kinds=["hash", "index"])), perm=draw(perms),
                how=draw(st.sampled_from(["ctor", "dark", "flat", "methods", "flat-then-dark"])), demo=draw(st.sampled_from([None, None, "adjacent"])), k=2)


@sub("C09", "frame", corr(), 5, thorough=80, shards=2, hang=400, rule=RULE,
     examples=[dict(arr=big(h, w), dark=big(h, w, salt=78), flat=big(h, w, salt=79, kind="sparse"), perm=1, how="methods", demo=None, k=2) for h, w in SHAPES])
def f09(case, ctx):
    c_pixels.c09(case, ctx)


@sub("C10", "frame", cases(arr=frames(), perm=perms, demo=st.sampled_from([None, None, "adjacent"])), 5, thorough=80, shards=2, hang=400, rule=RULE,
     examples=exs(perm=1, demo=None))
def f10(case, ctx):
    c_pixels.c10_ifov(case, ctx)


@sub("C10", "frame_cwl", cases(arr=frames(("f8", "u2"), MID, lo=0, hi=4095), salt=gen.salts, offset=st.sampled_from([0, 100]), frac=st.booleans(), again=st.just(False)),
     2, thorough=20, shards=2, hang=400, rule=RULE)
def f10c(case, ctx):
    c_pixels.c10_cwl(case, ctx)


@sub("C13", "frame", cases(arr=frames(), arr2=arrays(maxside=8), perm=perms, cards=c_files.cards, fixto=c_files.fix_ranges, plain=st.booleans(), stem=st.just("image"), dir=st.just("a b/c"),
                           rel=st.booleans(), src=st.sampled_from(["array", "file", "derived"]), nan=st.booleans()), 5, thorough=60, shards=2, hang=400, rule=RULE,
     examples=exs(arr2=big(8, 8), perm=1, cards=[], fixto=None, plain=False, stem="image", dir="", rel=True, src="file", nan=False))
def f13(case, ctx):
    c_files.c13(case, ctx)


@sub("C14", "frame", cases(arr=frames(), perm=perms, order=orders, cards=c_files.cards, fixto=c_files.fix_ranges, stem=st.just("image"), dir=st.just("sub"), rel=st.booleans(),
                           what=st.sampled_from(["single", "demo", "param", "all"]), param=st.sampled_from(list(c_files.TITLES)), mode=st.sampled_from([None, "adjacent", "mean"]),
                           twice=st.sampled_from([None, "changed"])), 4, thorough=60, shards=2, hang=400, rule=RULE,
     examples=[e for w in ("single", "all") for e in exs(perm=1, order=0, cards=[], fixto=None, stem="image", dir="", rel=True, what=w, param="I", mode=None, twice=None)])
def f14(case, ctx):
    c_files.c14(case, ctx)


@st.composite
def loads(draw):
    shape = draw(st.sampled_from(EVEN))
    n = draw(st.integers(2, 4))
    few = draw(st.sampled_from([("u2",), ("f4", "i4"), ("f8", "u2")]))
    fs = [dict(arr=draw(frames(few, [shape], lo=0, hi=60000)), date=draw(c_files.dates), kind=draw(st.sampled_from(["iso", "split"])), frac="") for _ in range(n)]
    for f in fs:
        f["arr"].pop("lay", None)
    return dict(files=fs, avg=draw(st.sampled_from([True, False, None])), plain=draw(st.booleans()), perm=draw(perms), aslist=True, order=draw(st.permutations(list(range(n)))),
                stem="image", folders=draw(st.booleans()), again=False, rewrite=False)


def two(avg):
    return dict(files=[dict(arr=big(salt=k, lo=30000, hi=60000), date=[k, 5], kind="iso", frac="") for k in (3, 4)], avg=avg, plain=False, perm=2, aslist=True, order=[1, 0], stem="image",
                folders=False, again=False, rewrite=False)


@sub("C15", "frame", loads(), 3, thorough=50, shards=2, hang=400, rule=RULE, examples=[two(True), two(False)])
def f15(case, ctx):
    c_files.c15(case, ctx)


@sub("C16", "frame", cases(size=st.sampled_from(ANY), n=st.integers(1, 4), hi=st.sampled_from([4095, 65535]), salt=gen.salts, stem=st.just("image"), dir=st.just("sub"), rel=st.booleans(),
                           remove=st.sampled_from([None, False, True]), what=st.sampled_from(["convert", "sum", "average", "mean-fn", "default"]), existing=st.booleans(), zeros=st.booleans(),
                           folders=st.booleans(), again=st.booleans(), rewrite=st.just(False)), 5, thorough=60, shards=2, hang=400, rule=RULE,
     examples=[dict(size=z, n=3, hi=65535, salt=5, stem="image", dir="", rel=True, remove=None, what=w, existing=False, zeros=False, folders=False, again=False, rewrite=False)
               for z in ([2048, 2050], [70002, 3], [3, 70002]) for w in ("convert", "sum", "average")])
def f16(case, ctx):
    c_files.c16(dict(case, h=case["size"][0], w=case["size"][1]), ctx)


@sub("C18", "frame", cases(arr=frames(), perm=perms, salt=gen.salts, flags=st.sampled_from([None, "hash", "ones"]), flag_dt=st.just("f8"), demo=st.booleans(),
                           pre=st.sampled_from([None, "file", "adjacent"]), frac=st.booleans(), twice=st.just(False), junk=st.sampled_from([None, "nan"])), 3, thorough=40, shards=2, hang=400, rule=RULE,
     examples=[e for d in (False, True) for e in exs(perm=1, salt=5, flags="hash", flag_dt="f8", demo=d, pre=None, frac=True, twice=False, junk=None)])
def f18(case, ctx):
    c_calib.c18(case, ctx)


@sub("C23", "frame", cases(size=st.sampled_from([(130, 650), (650, 130), (256, 257), (2, 2500), (2501, 3), (976, 976)]), salt=gen.salts, perm=perms, k=st.just(2.0), demod=st.booleans(), flags=st.booleans(),
                           what=st.sampled_from(["any", "q0", "u0"]), err=st.sampled_from(["hash", "int"]), frac=st.booleans()), 3, thorough=40, shards=2, hang=400, rule=RULE)
def f23(case, ctx):
    c_calib.c23(dict(case, h=case["size"][0], w=case["size"][1]), ctx)


@sub("C26", "frame", cases(arr=frames(("f8", "u2", "f4"), [(120, 700), (701, 121), (400, 402), (1030, 1028)], lo=0, hi=4000, kinds=["hash"]), y=st.integers(0, 119), x=st.integers(0, 119),
                           rmin=st.integers(0, 60), step=st.sampled_from([7, 20, 50]), scale=st.just(2), off=st.just(16)), 3, thorough=40, shards=2, hang=400, rule=RULE)
def f26(case, ctx):
    c_regions.c26(case, ctx)


@st.composite
def long_line(draw):
    a = draw(frames(("f8", "u2"), ANY[:7] + [(1951, 1953)]))
    h, w = a["h"], a["w"]
    p = [[draw(st.integers(0, n - 1)) for n in (h, w)] for _ in range(2)]
    if p[0] == p[1]:
        p = [[0, 0], [h - 1, w - 1]]
    return dict(arr=a, s=p[0], e=p[1], how=draw(st.sampled_from(["list", "tuple", "array", "float"])))


@sub("C28", "frame", long_line(), 15, thorough=400, hang=400, rule=RULE)
def f28(case, ctx):
    c_regions.c28(case, ctx)


@sub("C29", "frame", cases(arr=frames(lo=0, hi=4000), perm=perms, mperm=perms, pts=st.just([]), dense=st.sampled_from([0.01, 0.3]), salt=gen.salts, mdt=st.sampled_from(["f8", "u1"]),
                           demo=st.sampled_from([None, None, "adjacent"])), 4, thorough=60, shards=2, hang=400, rule=RULE,
     examples=exs(perm=1, mperm=1, pts=[], dense=0.2, salt=5, mdt="f8", demo=None))
def f29(case, ctx):
    c_misc.c29_clean(case, ctx)


@sub("C29", "frame_detect", cases(arr=frames(("f8", "u2", "i4"), lo=1, hi=4000, positive=True), perm=perms, pts=st.just([[1, 1, 4095]]), thr=st.sampled_from([0.5, 0.25, 0.1])), 4, thorough=60, shards=2,
     hang=400, rule=RULE, examples=exs(arr=dict(lo=1), perm=1, pts=[[2000, 3, 60000]], thr=0.1))
def f29d(case, ctx):
    c_misc.c29_detect(case, ctx)


@sub("C31", "frame", cases(size=st.sampled_from(ANY + [(300, 300)]), salt=gen.salts, span=st.sampled_from([2.0, 20.0, 60.0])), 5, thorough=60, hang=400,
     rule="whole angle maps of camera size and extreme shapes; non-trivial: an angle out of range")
def f31(case, ctx):
    import numpy as np

    import micropolarray as ml
    from vf.core import check, same

    h, w = case["size"]
    v = gen.hashfloat(case["salt"], (h, w), -case["span"], case["span"])
    keep = v.copy()
    r = np.asarray(ml.normalize2piarray(v))
    check(r.shape == v.shape, f"shape {r.shape}, was {v.shape}")
    check(bool(np.all((r > -np.pi / 2 - 1e-9) & (r <= np.pi / 2 + 1e-9))), "angles out of range")
    k = (v - r) / np.pi
    check(bool(np.all(np.abs(k - np.round(k)) < 1e-8)), "directions changed")
    same(v, keep, "input changed")
    ctx.nt(bool(np.any(np.abs(v) > np.pi / 2)))
