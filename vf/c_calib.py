"""C18-C23, C35: demodulation, calibration and errors."""
import itertools
import os

import numpy as np
from astropy.io import fits
from hypothesis import strategies as st

import micropolarray as ml
from vf import gen, util
from vf.c_pixels import ALLDT, IM, MI, check_derived, frozen, same_frozen
from vf.core import Skip, check, close, fail, raises, same, sub
from vf.gen import arrays, build, fams, perms, unfams

# ------------------------------------------------------------------------------------- C18


@st.composite
def demod_case(draw):
    arr = draw(arrays(dts=ALLDT, minside=2, maxside=14, big=40))
    return dict(arr=arr, perm=draw(perms), salt=draw(gen.salts), flags=draw(st.sampled_from([None, "hash", "hash", "ones", "zeros"])),
                flag_dt=draw(st.sampled_from(["f8", "f4", "i2"])), demo=draw(st.booleans()), pre=draw(st.sampled_from([None, None, None, "adjacent", "mean", "file", "demodulated", "demodulated-full"])),
                frac=draw(st.booleans()), twice=draw(st.booleans()), junk=draw(st.sampled_from([None, None, "nan", "inf", "mixed"])))


@sub("C18", "demodulate", demod_case(), 450, shards=3,
     rule="images of any type x per-superpixel matrices stored as FITS x fit flags (none, some, all) x with and without demosaicing, "
          "for fresh, loaded, demosaiced and already demodulated images, also with NaN or infinite matrices where no fit was found; non-trivial: both fitted and unfitted superpixels, or no flags and several superpixels")
def c18(case, ctx):
    a, dic = build(case["arr"]), gen.perm(case["perm"])
    gen.label_array(ctx, case["arr"])
    h, w = a.shape[0] // 2, a.shape[1] // 2
    mij = gen.hashint(case["salt"], (3, 4, h, w), -5, 5, 1) + (gen.hashfloat(case["salt"], (3, 4, h, w), 0, 1, 2) if case["frac"] else 0)
    flags = {None: None, "ones": np.ones((h, w)), "zeros": np.zeros((h, w)), "hash": gen.hashint(case["salt"], (h, w), 0, 1, 3)}[case["flags"]]
    if case.get("junk") and flags is not None:  # whatever is stored where no fit was found is not used
        bad = {"nan": np.nan, "inf": np.inf, "mixed": np.where(gen.hash01(case["salt"], 12 * h * w, 4).reshape(3, 4, h, w) < 0.5, np.nan, -np.inf)}[case["junk"]]
        mij = np.where(flags == 0, bad, mij)
        ctx.label("no matrices where no fit")
    ctx.label("flags-" + str(case["flags"]), "demosaicing" if case["demo"] else "superpixels")
    ctx.nt(h * w > 1 and (flags is None or 0 < flags.sum() < flags.size))
    folder = util.write_tensor(os.path.join(ctx.tmp, "cal"), mij, flags, flag_dt=case["flag_dt"])
    D = ml.Demodulator(folder)
    im = MI(a, angle_dic=dic)
    if case["pre"] == "file":
        im = MI(util.write_fits(os.path.join(ctx.tmp, "i.fits"), a), angle_dic=dic)
    elif case["pre"] in ("demodulated", "demodulated-full"):
        first = util.demodulator(os.path.join(ctx.tmp, "first"), gen.hashint(case["salt"], (3, 4, h, w), -5, 5, 11), gen.hashint(case["salt"], (h, w), 0, 1, 12) if case["twice"] else None)
        im = im.demodulate(first, demosaicing=case["pre"] != "demodulated")
    elif case["pre"]:
        im.demosaic(case["pre"])
    ctx.label("image " + str(case["pre"]))
    keep = frozen(im)
    r = im.demodulate(D, demosaicing=True) if case["demo"] else im.demodulate(D)
    same_frozen(im, keep, "original")
    same(D.mij, mij, "matrices after use")
    check((D.fit_found_flags is None) == (flags is None), "fit flags")
    if flags is not None:
        same(D.fit_found_flags, flags, "fit flags after use")
    if case["demo"]:
        planes, M, fl = gen.m_adjacent(a), np.kron(mij, np.ones((2, 2))), None if flags is None else np.kron(flags, np.ones((2, 2)))
    else:
        planes, M, fl = fams(a), mij, flags
    with np.errstate(invalid="ignore"):
        S = util.m_demodulate(planes, M)
    if fl is not None:
        S = np.where(fl == 1, S, gen.stokes4(planes, dic))
    scale = 60 * max(1.0, float(np.max(np.abs(np.asarray(a, dtype=float)))))
    tol = 1e-5 if case["arr"]["dt"] == "f4" else 1e-12
    for n, s in zip("IQU", S):
        same(getattr(r, n).data, s, f"demodulated {n}", None, tol * scale)
    check_derived(r, "demodulated ")
    same(r.data, np.asarray(a, dtype=float), "pixels of the demodulated image")
    check(dict(r.angle_dic) == dic, "orientation assignment")
    if case["twice"]:
        r2 = (im.demodulate(D, demosaicing=True) if case["demo"] else im.demodulate(D))
        same([r2.I.data, r2.Q.data, r2.U.data], [r.I.data, r.Q.data, r.U.data], "demodulating again")
        same_frozen(im, keep, "original after demodulating again")


@sub("C18", "history", st.fixed_dictionaries(dict(
        h=st.integers(1, 4), w=st.integers(1, 4), perm=perms, salt=gen.salts, cals=st.lists(st.sampled_from([None, "hash", "ones"]), min_size=1, max_size=3),
        steps=st.lists(st.one_of(
            st.tuples(st.just("demodulate"), st.integers(0, 2), st.integers(0, 1), st.booleans()), st.tuples(st.just("demodulate"), st.integers(0, 2), st.integers(0, 1), st.booleans()),
            st.tuples(st.just("flip"), st.integers(0, 2), st.integers(0, 1), st.just(0)), st.tuples(st.just("rot180"), st.integers(0, 2), st.just(0), st.just(0)),
            st.tuples(st.just("poke"), st.integers(0, 2), st.integers(0, 11), st.integers(-9, 9)), st.tuples(st.just("poke_flags"), st.integers(0, 2), st.just(0), st.integers(0, 1)),
            st.tuples(st.just("replace"), st.integers(0, 2), st.integers(0, 99), st.just(0)), st.tuples(st.just("rewrite"), st.integers(0, 2), st.integers(0, 99), st.just(0)),
            st.tuples(st.just("dark"), st.just(0), st.integers(0, 1), st.integers(0, 9))), min_size=3, max_size=9))), 200, thorough=3000, shards=2,
     rule="up to three calibrations of one size (with and without flags) and two images in any interleaving of demodulations, flips, half turns, changed "
          "matrices and rewritten calibration folders; each demodulation must use the matrices as they are at that moment; non-trivial: a demodulation after a change")
def c18_history(case, ctx):
    h, w, salt, dic = case["h"], case["w"], case["salt"], gen.perm(case["perm"])
    imgs = [gen.hashint(salt, (2 * h, 2 * w), 0, 4000, 10), gen.hashint(salt, (2 * h, 2 * w), 0, 9, 11)]
    ims = [MI(a, angle_dic=dic) for a in imgs]
    M, F, D = [], [], []
    for k, fl in enumerate(case["cals"]):
        M.append(gen.hashint(salt, (3, 4, h, w), -9, 9, 20 + k))
        F.append({None: None, "ones": np.ones((h, w)), "hash": gen.hashint(salt, (h, w), 0, 1, 30 + k)}[fl])
        D.append(util.demodulator(os.path.join(ctx.tmp, f"c{k}"), M[k], F[k]))
    changed, done = False, []
    for name, k, x, y in case["steps"]:
        k = k % len(D)
        done.append(f"{name}({k}, {x}, {y})")
        if name == "demodulate":
            r = ims[x].demodulate(D[k], demosaicing=True) if y else ims[x].demodulate(D[k])
            up = (lambda m: np.kron(m, np.ones((2, 2)))) if y else (lambda m: m)
            planes = gen.m_adjacent(imgs[x]) if y else fams(imgs[x])
            S = util.m_demodulate(planes, up(M[k]))
            if F[k] is not None:
                S = np.where(up(F[k]) == 1, S, gen.stokes4(planes, dic))
            same([r.I.data, r.Q.data, r.U.data], S, " > ".join(done[-5:]), 1e-10)
            ctx.nt(changed)
            continue
        ctx.label(name)
        if name == "flip":
            D[k].flip(x)
            M[k], F[k] = np.flip(M[k], 2 + x), None if F[k] is None else np.flip(F[k], x)
        elif name == "rot180":
            D[k].rot90(2)
            M[k], F[k] = np.rot90(M[k], 2, axes=(2, 3)), None if F[k] is None else np.rot90(F[k], 2)
        elif name == "poke":
            M[k] = M[k].copy()
            M[k][x // 4, x % 4, 0, 0] = y
            D[k].mij[x // 4, x % 4, 0, 0] = y
        elif name == "poke_flags":
            if F[k] is None:
                continue
            F[k] = F[k].copy()
            F[k][-1, -1] = y
            D[k].fit_found_flags[-1, -1] = y
        elif name == "replace":
            M[k] = gen.hashint(salt + x, (3, 4, h, w), -9, 9, 40)
            D[k].mij = M[k].copy()
        elif name == "rewrite":  # the folder now holds another calibration
            M[k], F[k] = gen.hashint(salt + x, (3, 4, h, w), -9, 9, 41), None if F[k] is None else 1 - F[k]
            D[k] = util.demodulator(os.path.join(ctx.tmp, f"c{k}"), M[k], F[k])
            same(D[k].mij, M[k], "matrices of a rewritten folder")
        else:
            d = gen.hashint(salt, (2 * h, 2 * w), 0, y, 50)
            imgs[x] = gen.m_dark(imgs[x], d)
            ims[x].subtract_dark(MI(d, angle_dic=dic))
        changed = True


@sub("C18", "size_mismatch", st.fixed_dictionaries(dict(
        h=st.integers(1, 6), w=st.integers(1, 6), h2=st.integers(1, 8), w2=st.integers(1, 8), keep=st.integers(0, 3), demo=st.booleans(), flags=st.booleans())), 150,
     rule="calibrations of another size than the image (single rows, columns and superpixels included); every judged case non-trivial")
def c18_mismatch(case, ctx):
    h, w, h2, w2 = case["h"], case["w"], case["h2"], case["w2"]
    if case["keep"] == 1:
        h2 = h
    elif case["keep"] == 2:
        w2 = w
    elif case["keep"] == 3:
        h2, w2 = w, h
    if (h2, w2) == (h, w):
        h2 += 1
    ctx.nt()
    ctx.label("one row or column" if 1 in (h, w, h2, w2) else None, "same count" if h * w == h2 * w2 else None)
    D = util.demodulator(os.path.join(ctx.tmp, "c"), np.ones((3, 4, h2, w2)), np.ones((h2, w2)) if case["flags"] else None)
    im = MI(np.ones((2 * h, 2 * w)), angle_dic=gen.perm(0))
    keep = frozen(im)
    raises(ValueError, lambda: im.demodulate(D, demosaicing=case["demo"]), f"demodulating {h}x{w} superpixels with {h2}x{w2} matrices")
    same_frozen(im, keep, "image after the refused demodulation")


# ------------------------------------------------------------------------------------- C19

EXTRA = ["notes.txt", "README.fits", "dark.fits", "phases.txt", "log", "M.fits", "fit_found_flag.txt", "fit_found_flag_old.fits", "covariance.fits"]


@st.composite
def store_case(draw):
    return dict(h=draw(st.integers(1, 6)), w=draw(st.integers(1, 6)), salt=draw(gen.salts), dt=draw(st.sampled_from(["f8", "f4", "i4", "i2", ">f8", "mixed", "mixed"])), again=draw(st.booleans()),
                name=draw(st.sampled_from(["M{}{}.fits", "M{}{}.fits", "m{}{}.fits", "demo_M{}{}.fits", "{}{}.fits", "matrix-{}{}.fits", "M{}{}_new.fits", "a.b_{}{}.fits"])),
                order=draw(st.permutations(list(range(12)))), flags=draw(st.sampled_from([None, "f8", "i2", "f4"])), extra=draw(st.lists(st.sampled_from(EXTRA), max_size=4, unique=True)),
                perm=draw(perms), dev=draw(st.lists(st.integers(-145, 145).map(lambda v: v / 10), min_size=4, max_size=4)), turns=draw(st.lists(st.integers(-2, 2), min_size=4, max_size=4)),
                cov=draw(st.booleans()), folder=draw(st.sampled_from(["cal", "2022-12-03", "cal 01", "a.fits", "run12", "cal [dark]", "a*b?", "[!x]"])), slash=draw(st.booleans()),
                ops=draw(st.lists(st.one_of(st.tuples(st.just("flip"), st.sampled_from([0, 1, 0, 1, -1, -2, (0, 1)])), st.tuples(st.just("rot90"), st.integers(-4, 6))), max_size=4)))


@sub("C19", "read", store_case(), 250, shards=2,
     rule="calibration folders written with different prefixes, number formats, creation orders and unrelated files; phases for all 24 family orders; "
          "flips and rotations; non-trivial: more than one superpixel and flags or unrelated files")
def c19(case, ctx):
    h, w, salt = case["h"], case["w"], case["salt"]
    ctx.label(case["dt"], case["name"], "flags" if case["flags"] else "no-flags")
    ctx.nt(h * w > 1 and (case["flags"] or case["extra"]))
    mij = gen.hashint(salt, (3, 4, h, w), -90, 90)
    dts = [case["dt"]] * 12
    if case["dt"] == "mixed":
        dts = [["f8", "f4", "i4", "i2", "u1"][int(v)] for v in gen.hashint(salt, (12,), 0, 4, 8)]
    for k, d in enumerate(dts):
        m = mij[k // 4, k % 4]
        if d == "u1":
            mij[k // 4, k % 4] = np.abs(m)
        elif d not in ("i4", "i2"):
            mij[k // 4, k % 4] = (m + gen.hashfloat(salt, m.shape, 0, 1, 100 + k)).astype(d).astype(float)
    flags = gen.hashint(salt, (h, w), 0, 1, 2) if case["flags"] else None
    folder = os.path.join(ctx.tmp, case["folder"])
    os.makedirs(folder)
    for e in case["extra"]:
        if e.endswith(".fits"):
            util.write_fits(os.path.join(folder, e), np.full((h + 1, w), 55.0))
        else:
            open(os.path.join(folder, e), "w").write("text")
    util.write_tensor(folder, mij, flags, name=case["name"], order=case["order"], dt=dts, flag_dt=case["flags"] or "f8")
    tk, eff = gen.hashfloat(salt, (2 * h, 2 * w), 0, 1, 3), gen.hashfloat(salt, (2 * h, 2 * w), 0, 1, 4)
    dic = gen.perm(case["perm"])
    nominal = [None] * 4
    for ang, k in dic.items():
        nominal[k] = ang
    dev = gen.hashfloat(salt, (4, h, w), -1, 1, 5)
    dev = dev - dev.mean(axis=(1, 2), keepdims=True)
    phi = unfams([nominal[k] + case["dev"][k] + 0.5 * dev[k] + 180 * case["turns"][k] for k in range(4)])
    for n, d in (("transmittancies", tk), ("efficiences", eff), ("phases", phi)):
        util.write_fits(os.path.join(folder, n + ".fits"), d)
    C = gen.hashfloat(salt, (3, 3, 2 * h, 2 * w), -1, 1, 6)
    if case["cov"]:
        os.makedirs(os.path.join(folder, "covariance_tensor"))
        for i, j in itertools.product(range(3), range(3)):
            util.write_fits(os.path.join(folder, "covariance_tensor", f"C{i}{j}.fits"), C[i, j])
        util.write_fits(os.path.join(folder, "covariance_tensor", "reduced_chisquare.fits"), tk)
    D = ml.Demodulator(folder + ("/" if case["slash"] else ""))
    mij0 = mij
    same(D.mij, mij, "matrices")
    check((D.fit_found_flags is None) == (flags is None), "presence of fit flags")
    if flags is not None:
        same(D.fit_found_flags, flags, "fit flags")
    same(D.tk, tk, "transmittances")
    same(D.eff, eff, "efficiencies")
    same(D.phi, phi, "phases")
    if case["cov"]:
        same(D.Cij, C, "covariances")
    else:
        check(D.Cij is None, "covariances without any stored")
    check({k: D.angle_dic[k] for k in gen.ANGLES} == dic and len(D.angle_dic) == 4, f"orientation assignment {D.angle_dic}, phases say {dic}")
    for op, arg in case["ops"]:
        if op == "flip":
            D.flip(arg)
            mij = np.flip(mij, axis=(2, 3) if isinstance(arg, tuple) else arg % 2 + 2)
            flags = None if flags is None else np.flip(flags, axis=arg)
        else:
            D.rot90(arg)
            mij = np.rot90(mij, arg, axes=(2, 3))
            flags = None if flags is None else np.rot90(flags, arg)
        same(D.mij, mij, f"matrices after {op}({arg})")
        if flags is not None:
            same(D.fit_found_flags, flags, f"fit flags after {op}({arg})")
    if case["ops"]:  # a moved calibration still demodulates superpixel by superpixel
        hh, ww = mij.shape[2:]
        a = gen.hashint(salt, (2 * hh, 2 * ww), 0, 4000, 7)
        r = MI(a, angle_dic=dic).demodulate(D)
        S = util.m_demodulate(fams(a), mij)
        if flags is not None:
            S = np.where(flags == 1, S, gen.stokes(a, dic))
        same([r.I.data, r.Q.data, r.U.data], S, "demodulation with the moved calibration", 1e-9)
    D2 = ml.Demodulator(folder)
    same(D2.mij, mij0, "calibration opened again")
    if case["again"]:  # the folder is written again: another calibration, of another size
        m3 = gen.hashint(salt, (3, 4, w, h + 1), -9, 9, 12)
        f3 = gen.hashint(salt, (w, h + 1), 0, 1, 13) if case["flags"] else None
        util.write_tensor(folder, m3, f3, name=case["name"])
        util.write_fits(os.path.join(folder, "transmittancies.fits"), gen.hashint(salt, (2 * w, 2 * h + 2), 0, 9, 14))
        D3 = ml.Demodulator(folder)
        same(D3.mij, m3, "matrices of a rewritten folder")
        if f3 is not None:
            same(D3.fit_found_flags, f3, "fit flags of a rewritten folder")
        same(D3.tk, gen.hashint(salt, (2 * w, 2 * h + 2), 0, 9, 14), "transmittances of a rewritten folder")


@sub("C19", "incomplete", st.fixed_dictionaries(dict(
        missing=st.lists(st.integers(0, 11), min_size=1, max_size=12, unique=True), flags=st.booleans(), extra=st.lists(st.sampled_from(EXTRA + ["copy of M00.fits", "old_M11.fits"]), max_size=3, unique=True),
        how=st.sampled_from(["matrix", "matrix", "matrix", "folder", "empty", "covariance"]), salt=gen.salts)), 120,
     rule="calibration folders with any set of matrices (or covariance components) missing, also replaced by duplicates, empty and absent folders; every case non-trivial")
def c19_incomplete(case, ctx):
    folder = os.path.join(ctx.tmp, "cal")
    ctx.nt()
    ctx.label(case["how"])
    mij = gen.hashint(case["salt"], (3, 4, 2, 3), 1, 9)
    err = (FileNotFoundError, ValueError)
    if case["how"] == "folder":
        return raises(err, lambda: ml.Demodulator(folder), "opening a missing folder")
    os.makedirs(folder)
    if case["how"] == "empty":
        for e in case["extra"]:
            if not e.endswith(".fits"):
                open(os.path.join(folder, e), "w").write("x")
        return raises(err, lambda: ml.Demodulator(folder), "opening a folder without FITS files")
    if case["how"] == "covariance":
        util.write_tensor(folder, mij)
        os.makedirs(os.path.join(folder, "covariance_tensor"))
        for k in range(9):
            if k not in [m % 9 for m in case["missing"]]:
                util.write_fits(os.path.join(folder, "covariance_tensor", f"C{k // 3}{k % 3}.fits"), np.ones((4, 6)))
        util.write_fits(os.path.join(folder, "covariance_tensor", "reduced_chisquare.fits"), np.ones((4, 6)))
        D = ml.Demodulator(folder)
        same(D.mij, mij, "matrices")
        return raises(err, lambda: D.Cij, "reading incomplete covariances")
    util.write_tensor(folder, mij, np.ones((2, 3)) if case["flags"] else None, order=[k for k in range(12) if k not in case["missing"]])
    for e in case["extra"]:
        if e.endswith(".fits"):
            i, j = (0, 0) if "00" in e else (1, 1)
            if "00" in e or "11" in e:
                k = 4 * i + j
                if k in case["missing"]:
                    continue
            util.write_fits(os.path.join(folder, e), np.ones((2, 3)))
    raises(err, lambda: ml.Demodulator(folder), f"opening a calibration without matrices {sorted(case['missing'])}")


# ------------------------------------------------------------------------------------- C20 - C22, C35: calibrating


NOMINAL = [[0, 45, -45, 90], [90, 45, -45, 0], [0, 45, 135, 90], [45, 90, 0, -45], [-45, 0, 90, 45], [135, 90, 45, 0]]


class Rig:
    """A simulated set-up: pixels of given transmittance, efficiency and phase look at fully
    polarized light of known angles; images are written as FITS files."""

    def __init__(self, case, ctx, folder="in"):
        self.h, self.w = 2 * case["h"], 2 * case["w"]
        salt, sh = case["salt"], (self.h, self.w)
        self.nominal = NOMINAL[case["nominal"]]
        lo = case.get("lo", 0.35)
        self.t = gen.hashfloat(salt, sh, lo, 0.95, 1)
        self.eff = gen.hashfloat(salt, sh, lo, 0.95, 2)
        nom = unfams([np.full((case["h"], case["w"]), float(n)) for n in self.nominal])
        self.phi = nom + gen.hashfloat(salt, sh, -case.get("dev", 13), case.get("dev", 13), 3)
        self.S = case.get("S", 1000.0)
        self.angles = list(case["angles"])
        self.ctx, self.folder = ctx, os.path.join(ctx.tmp, folder)
        os.makedirs(self.folder, exist_ok=True)
        noise = case.get("noise", 0)
        self.images = []
        for k, a in enumerate(self.angles):
            d = self.S * 0.5 * self.t * (1 + self.eff * np.cos(2 * np.deg2rad(self.phi - a)))
            self.images.append(d * (1 + noise * gen.hashfloat(salt, sh, -1, 1, 100 + k)))

    def write(self, images=None, tag="i"):
        return [util.write_fits(os.path.join(self.folder, f"{tag}{k}.fits"), d) for k, d in enumerate(self.images if images is None else images)]

    def modulation(self):
        """(4, 3, h, w) modulation matrix of every superpixel"""
        t, e, p = (fams(x) for x in (self.t, self.eff, np.deg2rad(self.phi)))
        return np.stack([0.5 * t, 0.5 * t * e * np.cos(2 * p), 0.5 * t * e * np.sin(2 * p)], axis=1)

    def tensor(self):
        m = np.moveaxis(self.modulation(), (2, 3), (0, 1))
        return np.moveaxis(np.linalg.pinv(m), (0, 1), (2, 3))

    def theoretical(self):
        p = np.deg2rad(np.array(self.nominal, dtype=float))
        return np.linalg.pinv(0.5 * np.stack([np.ones(4), np.cos(2 * p), np.sin(2 * p)], axis=1))

    def calibrate(self, out, files=None, angles=None, S="S", grid=(1, 1), gain=2.5, **kw):
        out = os.path.join(self.ctx.tmp, out)
        if isinstance(S, str):
            S = self.S
        if S is not None:
            kw["normalizing_S"] = S
        try:
            ml.calculate_demodulation_tensor(
                polarizer_orientations=list(self.angles if angles is None else angles), filenames_list=list(files or self.write()),
                micropol_phases_previsions=list(self.nominal), gain=gain, output_dir=out, procs_grid=list(grid), **kw)
        finally:
            import matplotlib.pyplot as plt

            plt.close("all")
        return ml.Demodulator(out)


def results(D):
    return dict(mij=np.array(D.mij), flags=np.array(D.fit_found_flags), tk=D.tk, eff=D.eff, phi=D.phi)


def same_results(a, b, what, rtol=None, phase=1e-3):
    for k in ("flags", "mij", "tk", "eff", "phi"):
        if k == "flags" or rtol is None:
            same(a[k], b[k], f"{what}: {k}")
        elif k == "phi":
            same(a[k], b[k], f"{what}: phases", None, phase)
        elif k == "mij":
            same(a[k], b[k], f"{what}: matrices", 10 * rtol)
        else:
            same(a[k], b[k], f"{what}: {k}", rtol)


extra_angles = st.lists(st.sampled_from([15, 22.5, 30, 60, 75, 105, 112.5, 120, 150, 165, -30, -60]), max_size=4, unique=True)


@st.composite
def angle_sets(draw, full=True):
    base = [0, 45, 90, draw(st.sampled_from([-45, 135]))] if full else draw(st.sampled_from([[0, 45, 90, 135], [0, 30, 60, 90, 120, 150], [10, 55, 100, 145], [5, 41, 77, 113, 149]]))
    a = base + [x for x in draw(extra_angles) if x not in base]
    return list(draw(st.permutations(a)))


rig = dict(h=st.integers(1, 4), w=st.integers(1, 4), salt=gen.salts, nominal=st.integers(0, len(NOMINAL) - 1), S=st.sampled_from([1.0, 250.0, 1000.0, 30000.0]))


@sub("C20", "recover", st.fixed_dictionaries(dict(rig, angles=angle_sets(False), lo=st.sampled_from([0.2, 0.35, 0.6]), dev=st.sampled_from([1, 13, 14.5]),
     gain=st.sampled_from([0.2, 2.6, 9.28]), norm=st.sampled_from(["number", "image", "np", "varying", "stack"]), bounds=st.sampled_from([None, None, "tk", "eff", "both"]), beyond=st.sampled_from([None, "high", "low"]),
     grid=st.booleans(), light=gen.salts, perm=perms)), 90, thorough=1500, shards=8,
     rule="noise-free measurements of simulated pixels of random transmittance, efficiency and phase at 4..10 angles in any order; then arbitrary light seen "
          "through the same pixels is demodulated; non-trivial: more than one superpixel")
def c20(case, ctx):
    R = Rig(case, ctx)
    ctx.nt(case["h"] * case["w"] > 1)
    ctx.label(f"angles{len(case['angles'])}", case["norm"], f"bounds-{case['bounds']}", str(R.nominal))
    kw = {}
    if case["bounds"] in ("tk", "both"):
        kw["tk_boundary"] = [0.6, 0.05, 1.5]
    if case["bounds"] in ("eff", "both"):
        kw["eff_boundary"] = [0.8, 0.05, 1.2]
    if kw and case["beyond"]:  # the caller's bounds allow more than the default ones
        k = 1.0
        if "tk_boundary" in kw:
            k = 1.35 if case["beyond"] == "high" else 0.4
        low = 0.4 if "eff_boundary" in kw and case["beyond"] == "low" else 1.0
        R.t, R.eff = R.t * k, R.eff * low
        R.images = [R.S * 0.5 * R.t * (1 + R.eff * np.cos(2 * np.deg2rad(R.phi - a))) for a in R.angles]
        ctx.label("beyond-" + case["beyond"])
    S = {"number": R.S, "np": np.float64(R.S), "image": np.full((R.h, R.w), R.S), "varying": None, "stack": None}[case["norm"]]
    if case["norm"] == "varying":  # a normalization image following an uneven illumination
        g = gen.hashfloat(case["salt"], (R.h, R.w), 0.5, 2.0, 50)
        R.images = [d * g for d in R.images]
        S = R.S * g
    if case["norm"] == "stack":  # one normalization image per measurement, in the order of the measurements
        levels = [gen.hashfloat(case["salt"], (R.h, R.w), 0.5, 2.0, 200 + k) for k in range(len(R.angles))]
        R.images = [d * g for d, g in zip(R.images, levels)]
        S = R.S * np.stack(levels)
    grid = (1, case["w"]) if case["grid"] else (1, 1)
    D = R.calibrate("out", S=S, grid=grid, gain=case["gain"], **kw)
    same(D.fit_found_flags, np.ones((case["h"], case["w"])), "fit flags")
    same(D.tk, R.t, "transmittance", None, 1e-5)
    same(D.eff, R.eff, "efficiency", None, 1e-5)
    same(D.phi, R.phi, "phase (degrees)", None, 1e-3)
    T = R.tensor()
    same(D.mij, T, "demodulation matrices", 1e-4)
    check(D.Cij.shape == (3, 3, R.h, R.w) and bool(np.all(D.Cij[range(3), range(3)] >= 0)), "covariances")
    # any light through the same pixels
    I = gen.hashfloat(case["light"], (case["h"], case["w"]), 1, 4000, 1)
    P = gen.hashfloat(case["light"], I.shape, 0, 1, 2)
    th = gen.hashfloat(case["light"], I.shape, 0, np.pi, 3)
    L = np.stack([I, I * P * np.cos(2 * th), I * P * np.sin(2 * th)])
    pix = np.einsum("kiyx,iyx->kyx", R.modulation(), L)
    r = MI(unfams(pix), angle_dic=gen.perm(case["perm"])).demodulate(D)
    for n, e in zip("IQU", L):
        same(getattr(r, n).data, e, f"demodulated {n}", None, 2e-4 * float(I.max()) * max(1.0, 0.2 * float(np.max(np.abs(T)))))
    check({k: D.angle_dic[k] for k in gen.ANGLES} == {(-45 if a == 135 else a): R.nominal.index(a) for a in R.nominal}, f"orientation assignment {D.angle_dic}")


@sub("C20", "changed", st.fixed_dictionaries(dict(rig, angles=angle_sets(False), salt2=gen.salts, same_out=st.booleans(), order=st.booleans(), S2=st.sampled_from([None, 1.0, 2.0]), light=st.just(1))), 24, thorough=200, shards=6,
     rule="a second measurement overwrites the files of the first (same names, perhaps other angles' order and light level, same or another output folder); each calibration recovers its own pixels; "
          "non-trivial: every case")
def c20_changed(case, ctx):
    R = Rig(dict(case, S=case["S"]), ctx)
    first = R.write()
    D = R.calibrate("out", files=first)
    same(D.mij, R.tensor(), "demodulation matrices of the first", 1e-4)
    k = dict(case, salt=case["salt2"])
    if case["S2"]:
        k["S"] = case["S"] * case["S2"]
    if case["order"]:
        k["angles"] = case["angles"][::-1]
    R2 = Rig(k, ctx)
    files = R2.write()
    check(files == first, "file names")
    D2 = R2.calibrate("out" if case["same_out"] else "out2", files=files)
    ctx.label("same output" if case["same_out"] else None, "other order" if case["order"] else None)
    ctx.nt()
    same(D2.tk, R2.t, "transmittance", None, 1e-5)
    same(D2.eff, R2.eff, "efficiency", None, 1e-5)
    same(D2.phi, R2.phi, "phase (degrees)", None, 1e-3)
    same(D2.mij, R2.tensor(), "demodulation matrices of the second", 1e-4)
    same(D.mij, R.tensor(), "demodulation matrices of the first, later", 1e-4)
    x = MI(R2.images[0], angle_dic=gen.perm(0))
    planes = gen.fams(R2.images[0])
    for d, r, n in ((D, R, "first"), (D2, R2, "second"), (D, R, "first again")):
        got = x.demodulate(d)
        want = util.m_demodulate(planes, r.tensor())
        for q, e in zip("IQU", want):
            same(getattr(got, q).data, e, f"{q} by the {n}", 1e-4, 1e-4 * float(np.abs(want).max()))


# ------------------------------------------------------------------------------------- C21


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


@sub("C21", "arrangement", st.fixed_dictionaries(dict(rig, h=st.sampled_from([1, 2, 3, 4, 6]), w=st.sampled_from([1, 2, 4, 6]), angles=angle_sets(), noise=st.sampled_from([0, 0.02]),
     dead=st.lists(st.tuples(st.integers(0, 11), st.integers(0, 11)), max_size=3), occulter=st.one_of(st.none(), st.tuples(st.integers(0, 11), st.integers(0, 11), st.integers(0, 5))),
     gy=st.sampled_from([0, 1, 2, 3, 3]), gx=st.sampled_from([0, 1, 2, 3, 3]), order=st.integers(0, 10**6), dup=st.booleans(), norm=st.booleans(), tags=st.booleans())), 55, thorough=700, shards=8,
     rule="the same measurements calibrated with another process grid and another order of the (angle, file) pairs, repeated angles included; results must agree; "
          "non-trivial: grid other than 1x1 or changed order")
def c21_arrangement(case, ctx):
    R = Rig(case, ctx)
    for y, x in case["dead"]:  # a pixel that is zero in every image
        for d in R.images:
            d[y % R.h, x % R.w] = 0.0
    kw = {} if case["occulter"] is None else dict(occulter=[case["occulter"][0] % R.h, case["occulter"][1] % R.w, case["occulter"][2]])
    ctx.label("dead" if case["dead"] else None, "occulter" if kw else None)
    files = R.write()
    angles = list(R.angles)
    if case["dup"]:
        angles.append(angles[0])
        files += R.write([R.images[0] * 1.01], "dup")
    S = None
    if case["norm"]:  # one normalization image per measurement
        S = np.stack([gen.hashfloat(case["salt"], (R.h, R.w), 0.8, 1.25, 200 + k) for k in range(len(files))]) * R.S
        ctx.label("stack")
    A = results(R.calibrate("a", files, angles, S="S" if S is None else S, **kw))
    gy = divisors(case["h"])[case["gy"] % len(divisors(case["h"]))]
    gx = divisors(case["w"])[case["gx"] % len(divisors(case["w"]))]
    pairs = list(zip(angles, files))
    order = np.argsort(gen.hash01(case["order"], len(pairs)))
    pairs = [pairs[k] for k in order]
    ctx.label(f"grid{gy}x{gx}")
    ctx.nt(gy * gx > 1 or [p[0] for p in pairs] != angles)
    B = results(R.calibrate("b", [f for _, f in pairs], [a for a, _ in pairs], grid=(gy, gx), S="S" if S is None else S[order], **kw))
    # the fits stop at a relative step of 1e-5, so another order of summation may move them a little
    same_results(B, A, f"grid {gy}x{gx}, angles {[p[0] for p in pairs]}", 1e-4, 1e-2)
    got, want = (np.asarray(ml.Demodulator(os.path.join(ctx.tmp, k)).Cij, dtype=float) for k in "ba")
    same(got.shape, want.shape, "size of the covariances")
    top = np.sqrt(np.max(np.abs(np.einsum("iiyx->iyx", want)), axis=(1, 2)))
    for i in range(3):
        for j in range(3):
            same(got[i, j], want[i, j], f"grid {gy}x{gx}: covariance {i}{j}", None, 2e-3 * top[i] * top[j])


@sub("C21", "bad_grid", st.fixed_dictionaries(dict(rig, h=st.integers(1, 4), w=st.integers(1, 4), angles=st.just([0, 45, 90, -45]), gy=st.integers(1, 6), gx=st.integers(1, 6))), 60, shards=2,
     rule="process grids that do not cut the image into equal pieces of even side; every judged case non-trivial")
def c21_bad_grid(case, ctx):
    gy, gx = case["gy"], case["gx"]
    if case["h"] % gy == 0 and case["w"] % gx == 0:
        gy = 2 * case["h"] if case["gx"] % 2 else case["h"] + 1
    R = Rig(case, ctx)
    ctx.nt()
    raises(ValueError, lambda: R.calibrate("o", grid=(gy, gx)), f"grid {gy}x{gx} for {R.h}x{R.w} pixels")


@sub("C21", "scaling", st.fixed_dictionaries(dict(rig, h=st.integers(1, 3), w=st.integers(1, 3), angles=angle_sets(), k=st.sampled_from([2.0, 0.25, 3.7, 100.0]), noise=st.sampled_from([0, 0.01]),
     what=st.sampled_from(["scale", "image", "stack", "stack", "binning", "darkflat", "dark", "flat"]), n=st.sampled_from([2, 2, 3]), binned=st.booleans(), norm_image=st.booleans())), 90, thorough=900, shards=8,
     rule="metamorphic pairs of calibrations: scaled signal, equivalent forms of the normalization, binned images, images with known dark and flat; every case non-trivial")
def c21_scaling(case, ctx):
    what, n = case["what"], case["n"]
    if what == "binning":
        case = dict(case, h=case["h"] * n, w=case["w"] * n)
    b = 2 if case["binned"] and what in ("image", "stack", "darkflat", "dark", "flat") else 1
    if b > 1:
        case = dict(case, h=2 * min(case["h"], 2), w=2 * min(case["w"], 2))
    R = Rig(case, ctx)
    ctx.label(what, f"b{b}")
    ctx.nt()
    kw = dict(binning=b) if b > 1 else {}
    base = dict(A=None)
    if what == "binning":
        S = np.full((R.h, R.w), R.S) if case["norm_image"] else R.S
        A = results(R.calibrate("a", S=S, binning=n))
        small = R.write([gen.m_rebin(d, n) for d in R.images], "bin")
        B = results(R.calibrate("b", small, S=R.S * n * n))
        same(np.shape(A["mij"]), (3, 4, case["h"] // n, case["w"] // n), "size of the binned calibration")
        same_results(A, B, f"binning {n}", 1e-4, 1e-2)
        return
    A = results(R.calibrate("a", **kw))
    if what == "scale":
        B = results(R.calibrate("b", R.write([d * case["k"] for d in R.images], "s"), S=R.S * case["k"]))
        same_results(B, A, f"signal and normalization times {case['k']}", 2e-4 if case["noise"] else 1e-5, 2e-2 if case["noise"] else 1e-3)
    elif what in ("image", "stack"):
        S = np.full((R.h, R.w), R.S)
        if what == "stack":
            S = np.stack([S] * len(R.angles))
        keep = S.copy()
        B = results(R.calibrate("b", S=S, **kw))
        same(S, keep, "normalization images after use")
        same_results(B, A, f"normalization given as {what}", 1e-4, 1e-2)
    else:
        dark = gen.hashint(case["salt"], (R.h, R.w), 0, 200, 60) if what != "flat" else np.zeros((R.h, R.w))
        flat = gen.hashfloat(case["salt"], (R.h, R.w), 500, 1500, 61) if what != "dark" else np.ones((R.h, R.w))
        if b > 1:
            # only a flat that is uniform inside each block commutes with binning
            f1 = gen.hashfloat(case["salt"], (R.h // b, R.w // b), 500, 1500, 62)
            if what != "dark":
                flat = unfams([np.kron(g, np.ones((b, b))) for g in fams(f1)])
        holes = np.zeros((R.h, R.w), dtype=bool)
        if b == 1 and what != "dark" and case["norm_image"]:  # pixels the flat says nothing about are left as they are
            holes = gen.hashfloat(case["salt"], (R.h, R.w), 0, 1, 63) < 0.15
            flat = np.where(holes, 0.0, flat)
            ctx.label("holes" if holes.any() else None)
        fb = gen.m_rebin(flat, b)
        level = (fb.mean() + fb.std()) / (b * b) if what != "dark" else 1.0
        raw = R.write([np.where(holes, d, d * flat / level) + dark for d in R.images], "raw")
        if what != "flat":
            kw["dark_filename"] = util.write_fits(os.path.join(R.folder, "dark.fits"), dark)
        if what != "dark":
            kw["flat_filename"] = util.write_fits(os.path.join(R.folder, "flat.fits"), flat)
        B = results(R.calibrate("b", raw, **kw))
        same_results(B, A, f"known {what}", 2e-4 if case["noise"] else 1e-5, 2e-2 if case["noise"] else 1e-3)


# ------------------------------------------------------------------------------------- C22


@st.composite
def unusable_case(draw):
    h, w = draw(st.integers(2, 7)), draw(st.integers(2, 7))
    c = dict(h=h, w=w, salt=draw(gen.salts), nominal=draw(st.integers(0, len(NOMINAL) - 1)), angles=draw(angle_sets()), S=1000.0, perm=draw(perms), binning=draw(st.sampled_from([1, 1, 1, 2])))
    c["occulter"] = None
    if draw(st.booleans()):
        c["occulter"] = [draw(st.integers(0, 2 * h - 1)), draw(st.integers(0, 2 * w - 1)), draw(st.integers(0, max(h, w) + 2))]
        if draw(st.booleans()):
            c["occulter"] = [4 * (v // 4) for v in c["occulter"]]
    c["dead"] = draw(st.lists(st.tuples(st.integers(0, 2 * h - 1), st.integers(0, 2 * w - 1)), max_size=3 if c["occulter"] else 5))
    c["light"] = draw(gen.salts)
    c["how"] = draw(st.lists(st.sampled_from(["zero", "zero", "zero", "nan", "inf"]), min_size=len(c["dead"]), max_size=len(c["dead"])))
    return c


@sub("C22", "fallback", unusable_case(), 70, thorough=900, shards=8,
     rule="calibrations with an occulter anywhere (any radius, also outside the frame) and pixels that are zero in every image or have no finite value in one of them; non-trivial: both usable and unusable superpixels")
def c22(case, ctx):
    R = Rig(case, ctx)
    b = case["binning"]
    h, w = case["h"], case["w"]
    for (y, x), how in zip(case["dead"], case["how"]):
        ctx.label(how)
        if how == "zero":
            for d in R.images:
                d[y, x] = 0.0
    for (y, x), how in zip(case["dead"], case["how"]):
        if how != "zero":  # one of the images has no value there
            R.images[(y + x) % len(R.images)][y, x] = np.nan if how == "nan" else np.inf
    if b == 2:  # the same calibration from images whose 2x2 blocks add up to these
        R.images = [unfams([np.kron(g, np.ones((2, 2))) / 4 for g in fams(d)]) for d in R.images]
    occ = None if case["occulter"] is None else [v * b for v in case["occulter"]]
    D = R.calibrate("out", S=R.S if b == 1 else R.S / 4, binning=b, **({} if occ is None else dict(occulter=occ)))
    dead = np.zeros((h, w), dtype=bool)
    for y, x in case["dead"]:
        dead[y // 2, x // 2] = True
    sure_in, sure_out = np.zeros((h, w), dtype=bool), np.ones((h, w), dtype=bool)
    if occ is not None:
        oy, ox, r = case["occulter"]
        Y, X = np.mgrid[:h, :w]
        if all(v % 2 == 0 for v in case["occulter"]):
            dist = np.hypot(Y - oy // 2, X - ox // 2)
            sure_in, sure_out = dist <= r // 2, dist > r // 2
        else:  # halving rounds: superpixels within one of the edge may fall on either side
            dist = np.hypot(Y - oy / 2, X - ox / 2)
            sure_in, sure_out = (dist <= r / 2 - 1.3) | ((Y == oy // 2) & (X == ox // 2)), dist > r / 2 + 1.3
    bad, good = sure_in | dead, sure_out & ~dead
    ctx.nt(bad.any() and good.any())
    ctx.label("occulter" if occ else None, "dead" if dead.any() else None, f"b{b}")
    fl = np.array(D.fit_found_flags)
    check(set(np.unique(fl)) <= {0.0, 1.0}, f"fit flags {np.unique(fl)}")
    same(np.where(bad, fl, 0), np.zeros((h, w)), "fit flag of unusable superpixels")
    same(np.where(good, fl, 1), np.ones((h, w)), "fit flag of usable superpixels")
    theo, T = R.theoretical(), R.tensor()
    off = fl == 0
    same(D.mij, np.where(off, theo[:, :, None, None], D.mij), "matrix of unusable superpixels", None, 1e-12)
    same(np.where(off, 0, D.mij), np.where(off, 0, T), "matrix of the other superpixels", 2e-4)
    px = np.kron(~off, np.ones((2, 2)))
    same(np.where(px, D.tk, 0), np.where(px, R.t, 0), "transmittance of the other superpixels", None, 1e-5)
    same(np.where(px, D.phi, 0), np.where(px, R.phi, 0), "phase of the other superpixels", None, 1e-3)
    a = gen.hashint(case["light"], (2 * h, 2 * w), 0, 4000)
    dic = gen.perm(case["perm"])
    r = MI(a, angle_dic=dic).demodulate(D)
    S = np.where(off, gen.stokes(a, dic), util.m_demodulate(fams(a), D.mij))
    same([r.I.data, r.Q.data, r.U.data], S, "demodulated parameters", 1e-9)


@sub("C22", "crossed", st.fixed_dictionaries(dict(
        h=st.integers(1, 3), w=st.integers(1, 3), salt=gen.salts, nominal=st.integers(0, len(NOMINAL) - 1), S=st.sampled_from([200.0, 1000.0]),
        extra=st.lists(st.sampled_from([180, -90, 225, 270, 0, 45, 90, -45, 30, 75]), max_size=5), order=gen.salts,
        dark=st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)), min_size=1, max_size=4), dead=st.one_of(st.none(), st.tuples(st.integers(0, 5), st.integers(0, 5))))), 60, thorough=700, shards=4,
     rule="pixels of efficiency close to 1 whose counts round to 0 wherever the polarizer is crossed with them, in one or several images (the same or equivalent angles "
          "measured repeatedly): they see light in the other images, so they are usable; every case non-trivial")
def c22_crossed(case, ctx):
    angles = [0, 45, 90, -45] + case["extra"]
    angles = [angles[k] for k in np.argsort(gen.hash01(case["order"], len(angles)))]
    R = Rig(dict(case, angles=angles, dev=3), ctx)
    dark = np.zeros((R.h, R.w), dtype=bool)
    for y, x in case["dark"]:
        dark[y % R.h, x % R.w] = True
    nom = unfams([np.full((case["h"], case["w"]), float(n)) for n in R.nominal])
    R.eff, R.phi = np.where(dark, 0.9995, R.eff), np.where(dark, nom, R.phi)
    R.images = []
    for a in angles:
        d = R.S * 0.5 * R.t * (1 + R.eff * np.cos(2 * np.deg2rad(R.phi - a)))
        R.images.append(np.where(dark & (d < 0.5), 0.0, d))
    zeros = sum((d == 0).astype(int) for d in R.images)
    ctx.nt(zeros.max() > 0)
    ctx.label(f"zeros{int(zeros.max())}", f"angles{len(angles)}")
    if case["dead"]:
        for d in R.images:
            d[case["dead"][0] % R.h, case["dead"][1] % R.w] = 0.0
    D = R.calibrate("o")
    ok = np.ones((case["h"], case["w"]), dtype=bool)
    if case["dead"]:
        ok[case["dead"][0] % R.h // 2, case["dead"][1] % R.w // 2] = False
    same(D.fit_found_flags, ok.astype(float), f"fit flags, pixels at {np.argwhere(dark).tolist()} are 0 only when crossed with the polarizer ({angles})")
    px = np.kron(ok, np.ones((2, 2)))
    lim = 0.01
    same(np.where(px, D.tk, 0), np.where(px, R.t, 0), "transmittance", None, lim)
    same(np.where(px, D.eff, 0), np.where(px, R.eff, 0), "efficiency", None, lim)
    same(np.where(px, D.phi, 0), np.where(px, R.phi, 0), "phase", None, 1.0)


@sub("C22", "weak", st.fixed_dictionaries(dict(rig, h=st.integers(2, 4), w=st.integers(2, 4), angles=angle_sets(), t=st.sampled_from([0.02, 0.1, 0.3]), e=st.sampled_from([0.02, 0.1, 0.3]), light=gen.salts, perm=perms)), 40, thorough=600, shards=4,
     rule="pixels that transmit or polarize so little that some matrices have coefficients beyond 100 (of either sign): those are not used; non-trivial: superpixels of both kinds")
def c22_weak(case, ctx):
    R = Rig(case, ctx)
    h, w, sh = case["h"], case["w"], (R.h, R.w)
    few = gen.hashfloat(case["salt"], sh, 0, 1, 8) < 0.5
    R.t = np.where(few, case["t"] * gen.hashfloat(case["salt"], sh, 0.6, 1.4, 4), R.t)
    few = gen.hashfloat(case["salt"], sh, 0, 1, 9) < 0.5
    R.eff = np.where(few, case["e"] * gen.hashfloat(case["salt"], sh, 0.6, 1.4, 5), R.eff)
    R.images = [R.S * 0.5 * R.t * (1 + R.eff * np.cos(2 * np.deg2rad(R.phi - a))) for a in R.angles]
    D = R.calibrate("o", tk_boundary=[0.5, 1e-3, 1.0], eff_boundary=[0.5, 1e-3, 1.0])
    T, theo = R.tensor(), R.theoretical()
    top = np.abs(T).max(axis=(0, 1))
    bad, good = top > 110, top < 90
    ctx.nt(bad.any() and good.any())
    ctx.label("below -100 only" if (bad & (T.max(axis=(0, 1)) < 90)).any() else None, "above 100 only" if (bad & (T.min(axis=(0, 1)) > -90)).any() else None)
    fl = np.array(D.fit_found_flags)
    same(np.where(bad, fl, 0), np.zeros((h, w)), "fit flag of superpixels whose matrix is beyond 100")
    same(np.where(good, fl, 1), np.ones((h, w)), "fit flag of superpixels whose matrix is within 100")
    off = fl == 0
    same(D.mij, np.where(off, theo[:, :, None, None], D.mij), "matrix of unusable superpixels", None, 1e-12)
    same(np.where(off, 0, D.mij), np.where(off, 0, T), "matrix of the other superpixels", None, 2.0)
    a = gen.hashint(case["light"], (2 * h, 2 * w), 0, 4000)
    dic = gen.perm(case["perm"])
    r = MI(a, angle_dic=dic).demodulate(D)
    same([r.I.data, r.Q.data, r.U.data], np.where(off, gen.stokes(a, dic), util.m_demodulate(fams(a), D.mij)), "demodulated parameters", 1e-9)


@sub("C22", "missing_angles", st.fixed_dictionaries(dict(rig, h=st.just(1), w=st.just(1), drop=st.sampled_from([0, 45, 90, "both"]), extra=extra_angles, norm=st.booleans(), neg=st.booleans())), 50, shards=2,
     rule="measurements lacking one of the four needed angles, without (refused) and with (accepted) a given normalization; every case non-trivial")
def c22_missing(case, ctx):
    last = -45 if case["neg"] else 135
    angles = [a for a in (0, 45, 90, last) if a != case["drop"] and not (case["drop"] == "both" and a == last)] + case["extra"]
    while len(angles) < 5:
        angles.append([20, 70, 110, 160][len(angles) - 1])
    R = Rig(dict(case, angles=angles), ctx)
    ctx.nt()
    ctx.label("given" if case["norm"] else "not given")
    if case["norm"]:
        D = R.calibrate("o")
        same(D.fit_found_flags, np.ones((1, 1)), "fit flag with a given normalization")
        same(D.tk, R.t, "transmittance", None, 1e-5)
    else:
        raises(ValueError, lambda: R.calibrate("o", S=None), f"calibrating with angles {angles}")


# ------------------------------------------------------------------------------------- C23


@st.composite
def error_case(draw):
    h, w = draw(st.integers(1, 8)), draw(st.integers(1, 8))
    return dict(h=h, w=w, salt=draw(gen.salts), perm=draw(perms), k=draw(st.sampled_from([2.0, 0.5, 10.0, 1e-3])), demod=draw(st.booleans()), flags=draw(st.booleans()),
                what=draw(st.sampled_from(["any", "any", "q0", "u0", "unpol", "small"])), err=draw(st.sampled_from(["hash", "const", "zero", "some-zero", "int"])), frac=draw(st.booleans()), units=draw(st.sampled_from([0, 0, 0, -33, -60, 40])),
                edt=draw(st.sampled_from([None, None, None, "f4", "u1", "u2", "i4"])), elay=draw(st.sampled_from(["C", "C", "F", "S", "N", "B"])))


@sub("C23", "propagate", error_case(), 400, shards=2,
     rule="images with Q or U exactly 0, unpolarized and ordinary superpixels x pixel errors x matrices; numerical differentiation is a second oracle; "
          "non-trivial: both polarized superpixels and non-zero errors")
def c23(case, ctx):
    h, w, salt = case["h"], case["w"], case["salt"]
    dic = gen.perm(case["perm"])
    f = gen.hashint(salt, (4, h, w), 1, 4000 if case["what"] != "small" else 5)
    z = gen.hash01(salt, h * w, 5).reshape(h, w) < 0.5
    if case["what"] in ("q0", "unpol"):
        f[dic[0]] = np.where(z, f[dic[90]], f[dic[0]])
    if case["what"] in ("u0", "unpol"):
        f[dic[45]] = np.where(z, f[dic[-45]], f[dic[45]])
    mij = gen.hashint(salt, (3, 4, h, w), -3, 3, 6) + (gen.hashfloat(salt, (3, 4, h, w), 0, 1, 7) if case["frac"] else 0)
    D = util.demodulator(os.path.join(ctx.tmp, "c"), mij, np.ones((h, w)) if case["flags"] else None)
    err = {"hash": gen.hashfloat(salt, (2 * h, 2 * w), 0, 50, 8), "const": np.full((2 * h, 2 * w), 3.0), "zero": np.zeros((2 * h, 2 * w)), "int": gen.hashint(salt, (2 * h, 2 * w), 0, 9, 8).astype(int),
           "some-zero": np.where(gen.hash01(salt, 4 * h * w, 9).reshape(2 * h, 2 * w) < 0.5, 0, 7.0)}[case["err"]]
    units = 2.0 ** case.get("units", 0)  # counts, or any other unit
    if units != 1:
        err = err * units
    if case.get("edt") and (case["edt"] == "f4" or units == 1):
        err = (err if case["edt"] == "f4" else np.floor(err * (300 if case["edt"] not in ("u1", "f4") else 5))).astype(case["edt"])
        ctx.label(case["edt"])
    err = gen.layout(err, case.get("elay", "C"))
    im = MI(unfams(f * units), angle_dic=dic)
    if case["demod"]:
        im = im.demodulate(D)
    keep, kerr = frozen(im), err.copy()
    with np.errstate(all="ignore"):
        E = ml.MicropolImageError(im, err, D)
    same_frozen(im, keep, "image")
    same(err, kerr, "pixel errors")
    same(D.mij, mij, "matrices")
    v = fams(np.asarray(err, dtype=float)) ** 2
    s = np.sqrt(np.einsum("ijyx,jyx->iyx", mij**2, v))
    for n, a, e in zip("IQU", E.sigma_S, s):
        same(a, e, f"error of {n}", 1e-9)
    I, Q, U = (np.array(p.data, dtype=float) for p in (im.I, im.Q, im.U))
    sI, sQ, sU = s
    pB = np.hypot(Q, U)
    ok = (pB > 0) & (I != 0)
    ctx.nt(ok.any() and s.any())
    ctx.label(case["what"], case["err"], "demodulated" if case["demod"] else None, "Q=0" if np.any(ok & (Q == 0)) else None, "U=0" if np.any(ok & (U == 0)) else None)
    p, i = np.where(ok, pB, 1), np.where(ok, I, 1)
    e_pB = np.sqrt((Q * sQ / p) ** 2 + (U * sU / p) ** 2)
    e_A = 0.5 * np.sqrt((Q * sU) ** 2 + (U * sQ) ** 2) / p**2
    e_D = np.sqrt((e_pB / i) ** 2 + (p * sI / i**2) ** 2)
    for n, e in (("pB", e_pB), ("AoLP", e_A), ("DoLP", e_D)):
        a = np.asarray(getattr(E, "sigma_" + n), dtype=float)
        check(a.shape == (h, w), f"error of {n} has shape {a.shape}")
        check(bool(np.all(np.isfinite(a[ok]))), f"error of {n} is not finite where pB and I are not zero")
        close(np.where(ok, a, 0), np.where(ok, e, 0), f"error of {n}", 1e-9)
        check(not np.any(a[ok] < 0), f"error of {n} is negative")
    # numerical differentiation through the definitions the image itself uses
    fn = dict(pB=lambda i, q, u: np.hypot(q, u), AoLP=lambda i, q, u: 0.5 * np.arctan2(u, q), DoLP=lambda i, q, u: np.hypot(q, u) / i)
    d = 1e-5 * np.where(ok, pB, 1)
    far = ok & (np.abs(I) > 100 * d)
    for n, g in fn.items():
        var = 0
        for k, sk in enumerate(s):
            hi, lo = [x.copy() for x in (I, Q, U)], [x.copy() for x in (I, Q, U)]
            hi[k] += d
            lo[k] -= d
            with np.errstate(all="ignore"):
                diff = g(*hi) - g(*lo)
            if n == "AoLP":
                diff = (diff + np.pi / 2) % np.pi - np.pi / 2
            var = var + (diff / (2 * d) * sk) ** 2
        a = np.asarray(getattr(E, "sigma_" + n), dtype=float)
        close(np.where(far, a, 0), np.where(far, np.sqrt(var), 0), f"error of {n} against numerical differentiation", 1e-3, 1e-12)
    with np.errstate(all="ignore"):
        E2 = ml.MicropolImageError(im, np.asarray(err, dtype=float) * case["k"], D)
    same(E2.sigma_S, np.asarray(E.sigma_S) * case["k"], "errors scaled by a factor: I, Q, U", 1e-9)
    for n in ("pB", "AoLP", "DoLP"):
        a, b = np.asarray(getattr(E, "sigma_" + n), dtype=float), np.asarray(getattr(E2, "sigma_" + n), dtype=float)
        close(np.where(ok, b, 0), np.where(ok, a * case["k"], 0), f"errors scaled by a factor: {n}", 1e-9)


# ------------------------------------------------------------------------------------- C35


def signal_images(case):
    """four integer images whose half-sum clusters around the level with a gaussian spread"""
    salt, n = case["salt"], case["side"]
    L, sig = case["level"], case["level"] * case["spread"]
    u = sum(gen.hashfloat(salt, (n, n), -1, 1, k) for k in range(12)) / 2  # variance 1, gaussian
    total = 2 * np.round(L + sig * u)
    out = gen.hash01(salt, n * n, 20).reshape(n, n)
    total = np.where(out < 0.03, np.round(2 * L * gen.hashfloat(salt, (n, n), 0.1, 0.6, 21)), total)
    total = np.where((out > 0.03) & (out < 0.05), np.round(2 * L * gen.hashfloat(salt, (n, n), 1.3, 1.6, 22)), total)
    total[0, 0], total[-1, -1] = 2 * L * 0.1, 2 * L * 1.7
    fr = [np.floor(total * x) for x in (0.4, 0.3, 0.1)]
    imgs = fr + [total - sum(fr)]
    return np.stack(imgs), L, sig


level_case = dict(salt=gen.salts, side=st.sampled_from([60, 80, 100]), level=st.sampled_from([4000, 10000, 50000]), spread=st.sampled_from([0.004, 0.006, 0.009]))


@sub("C35", "level", st.fixed_dictionaries(dict(level_case, k=st.sampled_from([2.0, 0.5, 3.0, 10.0, 0.1]), order=st.permutations([0, 1, 2, 3]), perm=gen.salts, aslist=st.booleans(),
     dt=st.sampled_from(["f8", "f8", "f4", "u2", "i4", "i8", "u4", ">i4"]))), 150, shards=3,
     rule="four images whose half-sum clusters around a level with outliers on both sides; scaled, reordered, pixels permuted; every case non-trivial")
def c35(case, ctx):
    imgs, L, sig = signal_images(case)
    imgs = imgs.astype(case["dt"])
    ctx.nt()
    ctx.label(case["dt"])
    keep = imgs.copy()
    arg = (lambda x: [y for y in x]) if case["aslist"] else (lambda x: x)
    S = ml.get_malus_normalization(arg(imgs))
    check(np.ndim(S) == 0 and bool(np.isfinite(S)), f"normalization is not a single level: {S!r}")
    check(L < S < L + 6 * sig, f"normalization {S} for signals clustered at {L} with deviation {sig}")
    same(imgs, keep, "images")
    S2 = ml.get_malus_normalization(arg(imgs[list(case["order"])]))
    check(abs(S2 - S) <= 1e-9 * S, f"normalization {S2} after reordering the images, {S} before")
    o = np.argsort(gen.hash01(case["perm"], imgs[0].size))
    S3 = ml.get_malus_normalization(arg(imgs.reshape(4, -1)[:, o].reshape(imgs.shape)))
    check(abs(S3 - S) <= 1e-9 * S, f"normalization {S3} after moving the pixels, {S} before")
    S4 = ml.get_malus_normalization(arg(imgs.astype(float) * case["k"]))
    check(abs(S4 - case["k"] * S) <= (1e-9 if case["k"] in (2.0, 0.5) and case["dt"] == "f8" else 0.5 * sig / L) * S * case["k"], f"normalization {S4} for images times {case['k']}, {S} before")


@sub("C35", "ends", st.fixed_dictionaries(dict(salt=gen.salts, side=st.sampled_from([40, 60, 100]), level=st.sampled_from([100.0, 1000.0, 50000.0]), bins=st.floats(1.2, 5), end=st.sampled_from(["low", "high"]),
     n=st.integers(1, 6), calibrate=st.integers(0, 11).map(lambda k: k == 0), dt=st.sampled_from(["f8", "f8", "f4"]))), 120, shards=3, thorough=3000,
     rule="signals that cluster next to an end of their range: hot pixels far above and nothing below, or dark pixels and nothing above; non-trivial: the level is within 10 bins "
          "of an end of the histogram")
def c35_ends(case, ctx):
    n, salt, L = case["side"], case["salt"], case["level"]
    u = sum(gen.hashfloat(salt, (n, n), -1, 1, k) for k in range(12)) / 2
    u = np.clip(u, -3.5, 3.5)
    # a thousand bins from the lowest to the highest signal: sig is `bins` of them
    sig = L * case["bins"] / (1000 + 3.5 * case["bins"]) if case["end"] == "high" else L * 0.02 / case["bins"]
    total = L + sig * u
    far = 0.0 if case["end"] == "high" else L + sig * (1000 / case["bins"] - 3.5)
    o = np.argsort(gen.hash01(salt, n * n, 40))[: case["n"]]
    total.ravel()[o] = far
    parts = [0.4, 0.3, 0.1, 0.2]
    imgs = np.stack([2 * total * p for p in parts])
    if not case["calibrate"]:
        imgs = imgs.astype(case["dt"])
    bin_width = (total.max() - total.min()) / 1000
    near = min(L - total.min(), total.max() - L) / bin_width
    ctx.nt(near < 10)
    ctx.label(case["end"], f"{int(near // 5) * 5}+ bins from the end")
    S = ml.get_malus_normalization(imgs)
    check(np.ndim(S) == 0 and bool(np.isfinite(S)) and L < S < L + 6 * sig, f"normalization {S} for signals clustered at {L} with deviation {sig} at the {case['end']} end of their range")
    if case["calibrate"]:
        ctx.label("calibration")
        m = n // 2
        R = Rig(dict(case, h=m, w=m, nominal=0, angles=[0, 45, 90, 135], S=1.0), ctx)
        t = total / L * 0.6
        t[:2, :2] = 0.5  # fitted; everything else is covered by the occulter
        R.t, R.S, R.eff = np.minimum(t, 5), L / 0.6, np.full((n, n), 0.7)
        R.images = [R.S * 0.5 * t * (1 + R.eff * np.cos(2 * np.deg2rad(R.phi - a))) for a in R.angles]
        S = ml.get_malus_normalization(np.array(R.images))
        D = R.calibrate("o", S=None, occulter=[n, n, 2 * (int(n * 0.7) - 1)])
        check(bool(np.array(D.fit_found_flags)[0, 0] == 1), "the superpixel outside the occulter was not fitted")
        close(0.5 * R.S / np.array(D.tk)[:2, :2], np.full((2, 2), S), "normalization used by the calibration", 1e-4)


@sub("C35", "second", st.fixed_dictionaries(dict(salt=gen.salts, side=st.sampled_from([60, 100, 140]), level=st.sampled_from([1.0, 1000.0, 50000.0]), sd=st.floats(2.5, 6), share=st.sampled_from([0.3, 0.7, 0.9, 0.95]),
     at=st.one_of(st.integers(-400, -60), st.integers(60, 400)), order=st.permutations([0, 1, 2, 3]))), 80, shards=2, thorough=1500,
     rule="signals in two clusters of almost the same population at any distance: the level is the one of the larger; every case non-trivial")
def c35_second(case, ctx):
    from statistics import NormalDist
    n, salt, L = case["side"] ** 2, case["salt"], case["level"]
    first = int(n / (1 + case["share"]))
    g = NormalDist()
    bell = lambda k: np.clip([g.inv_cdf((i + 0.5) / k) for i in range(k)], -4, 4)
    width = L / 1000  # of a bin: signals range from L/2 to 3L/2
    total = np.concatenate([L + case["sd"] * width * bell(first), L + case["at"] * width + case["sd"] * width * bell(n - first)])
    total[-1], total[-2] = 0.5 * L, 1.5 * L
    total = total[np.argsort(gen.hash01(salt, n))].reshape(case["side"], -1)
    imgs = np.stack([2 * total * p for p in (0.4, 0.3, 0.1, 0.2)])[list(case["order"])]
    ctx.nt()
    ctx.label(f"share {case['share']}", "below" if case["at"] < 0 else "above")
    S = ml.get_malus_normalization(imgs)
    check(L < S < L + 6 * case["sd"] * width, f"normalization {S} for signals clustered at {L} with deviation {case['sd'] * width}, and fewer at {L + case['at'] * width}")


@sub("C35", "used", st.fixed_dictionaries(dict(level_case, side=st.just(60), neg=st.booleans(), extra=st.lists(st.sampled_from([20, 30, 60, 110, 150, "other"]), max_size=3, unique=True),
     order=gen.salts, tdev=st.sampled_from([0.004, 0.006]), again=st.lists(st.integers(0, 3), max_size=4))), 40, thorough=200, shards=8,
     rule="calibrations without a given normalization, with further angles, repeated measurements and with -45 in place of 135, in any order: the stored transmittances tell which level was used; "
          "every case non-trivial")
def c35_used(case, ctx):
    n, salt = case["side"], case["salt"]
    last = -45 if case["neg"] else 135
    # uniform pixels (transmittance close to t0) under S0: half-sum of the four images is S0 * t
    u = sum(gen.hashfloat(salt, (n, n), -1, 1, k) for k in range(12)) / 2
    t = 0.6 * (1 + case["tdev"] * u)
    out = gen.hash01(salt, n * n, 20).reshape(n, n)
    t = np.where(out < 0.03, 0.6 * gen.hashfloat(salt, (n, n), 0.2, 0.6, 21), t)
    t = np.where((out > 0.03) & (out < 0.05), 0.6 * gen.hashfloat(salt, (n, n), 1.3, 1.5, 22), t)
    t[0, -1], t[-1, 0] = 0.06, 0.96
    t[:2, :2] = 0.5  # the superpixel that is fitted: everything else is covered by the occulter
    angles = [0, 45, 90, last] + [(135 if case["neg"] else -45) if e == "other" else e for e in case["extra"]]
    angles += [angles[k] for k in case["again"]]
    ctx.label("repeated" if case["again"] else None)
    angles = [angles[k] for k in np.argsort(gen.hash01(case["order"], len(angles)))]
    R = Rig(dict(case, h=n // 2, w=n // 2, nominal=0, angles=angles, S=1.0), ctx)
    R.t, R.S = t, float(case["level"])
    R.eff = np.full((n, n), 0.7)
    R.images = [R.S * 0.5 * t * (1 + R.eff * np.cos(2 * np.deg2rad(R.phi - a))) for a in angles]
    ctx.nt()
    ctx.label(f"last{last}", f"angles{len(angles)}")
    four = [R.images[angles.index(a)] for a in (0, 45, 90, last)]
    S = ml.get_malus_normalization(np.array(four))
    L, sig = R.S * 0.6, R.S * 0.6 * case["tdev"]
    check(L < S < L + 6 * sig, f"normalization {S} for signals clustered at {L} with deviation {sig}")
    D = R.calibrate("o", S=None, occulter=[n, n, 2 * (int(n * 0.7) - 1)])
    fit = np.array(D.fit_found_flags) == 1
    check(bool(fit[0, 0]), "the superpixel outside the occulter was not fitted")
    ctx.label(f"fitted{int(fit.sum())}")
    used = 0.5 * R.S / np.array(D.tk)[:2, :2]
    close(used, np.full((2, 2), S), "normalization used by the calibration", 1e-4)


# ------------------------------------------------------------------------------------- C36


def analytic_covariance(R, gain, b=1):
    """(3, 3, h, w) covariance of (transmittance, efficiency, phase in radians) of the weighted
    least-squares fit with photon noise: (J^T W J)^-1 at the true parameters"""
    t, e, p = R.t, R.eff, np.deg2rad(R.phi)
    F = np.zeros((R.h, R.w, 3, 3))
    for d, a in zip(R.images, R.angles):
        c, s = np.cos(2 * (p - np.deg2rad(a))), np.sin(2 * (p - np.deg2rad(a)))
        J = np.stack([0.5 * (1 + e * c), 0.5 * t * c, -t * e * s], axis=-1)
        W = R.S * gain / (d / R.S)
        F += W[..., None, None] * J[..., :, None] * J[..., None, :]
    return np.moveaxis(np.linalg.inv(F), (2, 3), (0, 1))


@sub("C36", "covariance", st.fixed_dictionaries(dict(rig, S=st.sampled_from([10.0, 1000.0, 30000.0]), angles=angle_sets(False), gain=st.sampled_from([0.2, 1.0, 2.6, 9.28]), k=st.sampled_from([2.0, 0.1, 7.0]),
     gy=st.sampled_from([0, 1, 2]), gx=st.sampled_from([0, 1, 2]), occulter=st.booleans(), uneven=st.booleans())), 80, thorough=1200, shards=8,
     rule="noise-free measurements of simulated pixels; the stored covariances against the analytic ones of the weighted fit, with another gain, and with other exposures; "
          "non-trivial: more than one superpixel")
def c36(case, ctx):
    R = Rig(case, ctx)
    h, w = case["h"], case["w"]
    ctx.nt(h * w > 1)
    S = R.S
    if case["uneven"]:
        g = gen.hashfloat(case["salt"], (R.h, R.w), 0.5, 2.0, 50)
        R.images = [d * g for d in R.images]
        R.S = S = R.S * g
    gy, gx = divisors(h)[case["gy"] % len(divisors(h))], divisors(w)[case["gx"] % len(divisors(w))]
    occ = dict(occulter=[0, 0, 0]) if case["occulter"] else {}
    ctx.label(f"grid{min(gy, 2)}x{min(gx, 2)}", "occulter" if occ else None, "uneven" if case["uneven"] else None, f"angles{len(R.angles)}")
    D = R.calibrate("a", S=S, gain=case["gain"], grid=(gy, gx), **occ)
    ok = np.ones((h, w), dtype=bool)
    if occ:
        ok[0, 0] = False
    same(D.fit_found_flags, ok.astype(float), "fit flags")
    px = np.kron(ok, np.ones((2, 2))).astype(bool)
    C, E = np.array(D.Cij), analytic_covariance(R, case["gain"])
    check(C.shape == E.shape, f"covariances of shape {C.shape}")
    sd = np.sqrt(np.einsum("iiyx->iyx", E))
    lim = sd[:, None] * sd[None]  # compared as correlations
    check(bool(np.all(np.isfinite(C[:, :, px]))), "covariances are not finite")
    same(np.where(px, C / lim, 0), np.where(px, E / lim, 0), "covariances in units of the expected standard deviations", None, 2e-3)
    check(bool(np.allclose(C, np.swapaxes(C, 0, 1), rtol=1e-6, atol=0)), "covariances are not symmetric")
    D2 = R.calibrate("b", S=S, gain=case["gain"] * case["k"], **occ)
    same(np.where(px, np.array(D2.Cij) * case["k"] / lim, 0), np.where(px, C / lim, 0), f"covariances for a gain {case['k']} times larger", None, 2e-3)
    R.images, R.S = [d * 4 for d in R.images], R.S * 4
    D3 = R.calibrate("c", S=R.S, gain=case["gain"], **occ)
    same(np.where(px, np.array(D3.Cij) * 4 / lim, 0), np.where(px, C / lim, 0), "covariances for exposures four times longer", None, 2e-3)
    for name in ("mij", "tk", "eff", "phi"):
        same(getattr(D3, name), getattr(D, name), f"{name} for exposures four times longer", 1e-4)


@sub("C36", "chisquare", st.fixed_dictionaries(dict(rig, S=st.sampled_from([10.0, 1000.0, 30000.0]), angles=angle_sets(), gain=st.sampled_from([0.2, 1.0, 2.6, 9.28]), noise=st.sampled_from([0, 0.002, 0.02, 0.2]),
     bounds=st.sampled_from([None, "tk", "eff", "both"]), gy=st.sampled_from([0, 1, 2]), gx=st.sampled_from([0, 1, 2]), occulter=st.booleans(), dead=st.one_of(st.none(), st.integers(0, 63)))), 70, thorough=1000, shards=4,
     rule="noisy measurements at 4 to 8 angles; the stored reduced chi-square against the one of the stored parameters; non-trivial: noisy measurements, more than one superpixel")
def c36_chisquare(case, ctx):
    R = Rig(case, ctx)
    h, w = case["h"], case["w"]
    ok = np.ones((h, w), dtype=bool)
    kw = {}
    if case["occulter"]:
        kw["occulter"], ok[0, 0] = [0, 0, 0], False
    if case["dead"] is not None:
        y, x = divmod(case["dead"], 8)
        y, x = y % R.h, x % R.w
        for d in R.images:
            d[y, x] = 0.0
        ok[y // 2, x // 2] = False
    if case["bounds"] in ("tk", "both"):
        kw["tk_boundary"] = [0.6, 0.05, 1.5]
    if case["bounds"] in ("eff", "both"):
        kw["eff_boundary"] = [0.8, 0.05, 1.2]
    ctx.nt(case["noise"] > 0 and ok.sum() > 1)
    gy, gx = divisors(h)[case["gy"] % len(divisors(h))], divisors(w)[case["gx"] % len(divisors(w))]
    ctx.label(f"grid{min(gy, 2)}x{min(gx, 2)}", f"angles{len(R.angles)}", f"bounds-{case['bounds']}", f"noise{case['noise']}", "unusable" if not ok.all() else None)
    D = R.calibrate("a", gain=case["gain"], grid=(gy, gx), **kw)
    same(D.fit_found_flags, ok.astype(float), "fit flags")
    got = np.array(fits.getdata(os.path.join(ctx.tmp, "a", "covariance_tensor", "reduced_chisquare.fits")), dtype=float)
    check(np.shape(got) == (R.h, R.w), f"reduced chi-square of shape {np.shape(got)}")
    n = len(R.angles)
    chi = np.zeros((R.h, R.w))
    t, e, p = np.asarray(D.tk, float), np.asarray(D.eff, float), np.deg2rad(np.asarray(D.phi, float))
    for d, a in zip(R.images, R.angles):
        q = d / R.S
        sigma2 = np.where(d > 0, q / (R.S * case["gain"]), 1.0)
        chi += (0.5 * t * (1 + e * np.cos(2 * (p - np.deg2rad(a)))) - q) ** 2 / sigma2
    px = np.kron(ok, np.ones((2, 2))).astype(bool)
    if n > 3:
        want = np.where(px, chi / (n - 3), 0.0)
        same(np.where(px, got, 0.0) / (1e-3 + want), want / (1e-3 + want), "reduced chi-square of the fitted pixels, over the expected one", None, 1e-6)
    same(np.where(px, 0.0, got), np.zeros((R.h, R.w)), "reduced chi-square where nothing was fitted")
