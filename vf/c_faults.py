"""C44: a write or read that fails or is interrupted is reported, and loses nothing else."""
import contextlib
import os
import resource
import sys

import numpy as np
from hypothesis import strategies as st

import micropolarray as ml
from micropolarray.processing.chen_wan_liang_calibration import calculate_chen_wan_lian_calibration
from vf import gen, util
from vf.c_calib import Rig, rig
from vf.c_files import subdirs, tree
from vf.c_pixels import IM, MI, frozen, same_frozen
from vf.core import REPO, Known, Violation, check, same, sub
from vf.gen import perms

PLACES = (os.path.join(os.path.realpath(REPO), "micropolarray"), os.path.join("astropy", "io", "fits"))


@contextlib.contextmanager
def limited(which, n):
    """no file may grow beyond n bytes (RLIMIT_FSIZE), or no descriptor be n or more (RLIMIT_NOFILE)"""
    soft, hard = resource.getrlimit(which)
    keep = sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    resource.setrlimit(which, (n, hard))
    try:
        yield
    finally:
        resource.setrlimit(which, (soft, hard))
        sys.dont_write_bytecode = keep


def free_descriptor():
    f = os.open("/dev/null", os.O_RDONLY)
    os.close(f)
    return f


class Interrupt:
    """raise KeyboardInterrupt at the n-th line run by the package or by the FITS library (None: count them)"""

    def __init__(self, n=None):
        self.n, self.seen = n, 0

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if frame.f_code.co_name == "__del__" or not (name.startswith(PLACES[0]) or PLACES[1] in name):
            return None
        if event == "line":
            self.seen += 1
            if self.seen == self.n:
                sys.settrace(None)
                raise KeyboardInterrupt
        return self.trace

    def __enter__(self):
        self.before = sys.gettrace()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self.before)


class Output:
    """one call that writes files: call(folder) writes `names` under folder"""

    def __init__(self, call, names):
        self.call, self.names = call, names


def contents(folder, names):
    """what each output holds: FITS pixels, type and header (less the date), or bytes"""
    out = {}
    for n in names:
        p = os.path.join(folder, n)
        if not n.endswith(".fits"):
            out[n] = open(p, "rb").read() if os.path.isfile(p) else None
            continue
        a, hdr = util.read_primary(p)
        out[n] = (a, [(c.keyword, c.value, c.comment) for c in hdr.cards if c.keyword != "CREATED"])
    return out


def same_contents(folder, names, good, what):
    try:
        now = contents(folder, names)
    except Exception as e:
        check(False, f"{what}: the output cannot be read back: {type(e).__name__}: {e}")
    for n in names:
        if isinstance(good[n], tuple):
            same(now[n][0], good[n][0], f"{what}: {n}", dtype=good[n][0].dtype)
            check(now[n][1] == good[n][1], f"{what}: header of {n}")
        else:
            check(now[n] == good[n], f"{what}: {n} differs")


def lost_tail(root, names, good, sizes, n):
    """the known finding: of an output whose pixels end with a FITS block, no more than the last
    4096 bytes (the buffer of numpy's tofile, which does not report errors on closing) are missing,
    and nothing else is wrong with any output"""
    found = False
    for name, size in zip(names, sizes):
        p = os.path.join(root, name)
        if isinstance(good[name], tuple) and good[name][0].nbytes % 2880 == 0 and os.path.isfile(p) and os.path.getsize(p) <= n < size <= os.path.getsize(p) + 4096:
            found = True
            continue
        try:
            same_contents(root, [name], good, "")
        except Violation:
            return False
    return found


def attempt(fn, kind, n):
    """run fn under the fault; the exception it ended with, if any"""
    if kind == "size":
        fault = limited(resource.RLIMIT_FSIZE, n)
    elif kind == "descriptors":
        fault = limited(resource.RLIMIT_NOFILE, free_descriptor() + n)
    else:
        fault = Interrupt(n) if kind == "interrupt" else contextlib.nullcontext()
    try:
        with fault:
            fn()
    except (Exception, KeyboardInterrupt) as e:
        return e
    return None


faults = st.one_of(
    st.tuples(st.just("size"), st.integers(0, 6), st.floats(0, 1)), st.tuples(st.just("size"), st.integers(0, 6), st.floats(0, 1)),
    st.tuples(st.just("folder"), st.integers(0, 30), st.just(0.0)), st.tuples(st.just("parent"), st.just(0), st.just(0.0)),
    st.tuples(st.just("descriptors"), st.integers(0, 3), st.just(0.0)), st.tuples(st.just("interrupt"), st.just(0), st.floats(0, 1)))


def survive(ctx, root, clean, o, fault, old, what, image=None, gone=None, least=0):
    """o.call(folder) under a fault in root, against the same call in the folder clean. `gone`: a
    source file the call removes when it is done. `least`: bytes any file may always have."""
    kind, k, frac = fault
    with Interrupt() as count:
        o.call(clean)
    good = contents(clean, o.names)
    sizes = [os.path.getsize(os.path.join(clean, n)) for n in o.names]
    out = [os.path.join(root, n) for n in o.names]
    for p in out:
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if old:
            if p.endswith(".fits"):
                util.write_fits(p, np.full((4, 6), 5.0))
            else:
                open(p, "wb").write(b"older")
        for extra in (".tmp", "~", ".bak"):
            open(p + extra, "wb").write(b"not the output")
    obstacle, n = None, k
    if kind == "size":
        top, low = max(sizes), min(sizes)
        n = max(least, [0, int(frac * top), top - 1, top, 2 * top, int(frac * low), low - 1][k % 7])
    elif kind == "interrupt":
        n = 1 + int(frac * (count.seen - 1))
    if kind == "folder":
        obstacle = out[k % len(out)]
        if os.path.exists(obstacle):
            os.remove(obstacle)
        os.makedirs(os.path.join(obstacle, "deep"))
        open(os.path.join(obstacle, "deep", "kept"), "wb").write(b"kept")
    elif kind == "parent":
        obstacle = os.path.dirname(out[0])
        if os.path.samefile(obstacle, root) or (gone and os.path.dirname(gone) == obstacle):
            return None
        for d, _, names in os.walk(obstacle, topdown=False):
            for n in names:
                os.remove(os.path.join(d, n))
            os.rmdir(d)
        open(obstacle, "wb").write(b"a file where the folder should be")
    before = tree(root)
    keep = None if image is None else frozen(image)
    e = attempt(lambda: o.call(root), kind, n)
    after = tree(root)
    mine = {os.path.relpath(p, root) for p in out}
    raw = None if gone is None else os.path.relpath(gone, root)
    if keep is not None:
        same_frozen(image, keep, what + ": image")
    changed = sorted(n for n in set(after) | set(before) if n not in mine and n != raw and after.get(n) != before.get(n))
    check(not changed, f"{what}: files other than the outputs changed: {changed}")
    ctx.label(f"{kind} {'failed' if e is not None else 'went through'}")
    ctx.nt(e is not None)
    if kind == "size" and lost_tail(root, o.names, good, sizes, n):
        raise Known("fits-tail", f"{what}: the end of the FITS file is missing and no error was raised")
    if e is None:
        check(kind not in ("folder", "parent"), f"{what}: returned although an output could not be written")
        same_contents(root, o.names, good, what + ": returned as if done")
    if raw is not None:
        if raw in after:
            check(after[raw] == before[raw], f"{what}: source file changed")
            check(e is not None, f"{what}: returned and left the source file")
        else:
            same_contents(root, o.names, good, f"{what}: source file removed ({type(e).__name__})")
            with open(gone, "wb") as f:
                f.write(before[raw])
    if kind == "size" and n >= max(sizes) and e is not None:
        check(False, f"{what}: raised {type(e).__name__}: {e}, although the outputs fit")
    if kind in ("folder", "parent"):  # lift the fault
        p = obstacle
        if kind == "folder":
            check(open(os.path.join(p, "deep", "kept"), "rb").read() == b"kept", f"{what}: emptied the folder in its way")
            os.remove(os.path.join(p, "deep", "kept"))
            os.rmdir(os.path.join(p, "deep"))
            check(os.listdir(p) == [], f"{what}: wrote into the folder in its way")
            os.rmdir(p)
        else:
            os.remove(p)
            os.makedirs(p)
    o.call(root)
    same_contents(root, o.names, good, what + ": repeated without the fault")
    if keep is not None:
        same_frozen(image, keep, what + ": image after repeating")
    if raw is not None:
        check(not os.path.exists(gone), f"{what}: source file left when repeated")
    if kind != "parent":
        changed = sorted(n for n, b in before.items() if n not in mine and n != raw and tree(root).get(n) != b and os.path.basename(n) != "kept")
        check(not changed, f"{what}: repeating changed {changed}")
    return e


WRITES = ["save", "save-plain", "raw", "single", "param", "all", "demosaiced"]


@sub("C44", "images", st.fixed_dictionaries(dict(h=st.integers(1, 12), w=st.integers(1, 12), big=st.booleans(), perm=perms, salt=gen.salts, dt=st.sampled_from(["f8", "u2", "i2", "f4", "u1"]),
     old=st.booleans(), where=st.sampled_from(["", "new", "new/deep"]), what=st.lists(st.tuples(st.sampled_from(WRITES), st.integers(0, 20), faults), min_size=1, max_size=4))), 200, shards=8, thorough=3000,
     rule="saving and exporting images with files that may not grow beyond n bytes, folders or files in the way, no descriptors left, or an interrupt at any line; then the same "
          "call without the fault; non-trivial: a call failed")
def c44_images(case, ctx):
    h, w, salt = 2 * case["h"], 2 * case["w"], case["salt"]
    if case["big"]:
        h, w = 4 * h, 4 * w
    a = gen.hashint(salt, (h, w), 0, 250, 1).astype(case["dt"])
    im = MI(a, angle_dic=gen.perm(case["perm"])).demosaic()
    im.header["OBSERVER"] = "me"
    plain = IM(a.copy())
    ids = [str(i) for i in ("0", "45", "-45", "90")]
    for n, (op, k, fault) in enumerate(case["what"]):
        fix = [None, [10, 100]][k % 2]
        P = ["I", "Q", "U", "pB", "AoLP", "DoLP"]
        name = os.path.join(case["where"], f"o{n}.fits")
        stem = name[:-5]
        o = {"save": lambda: Output(lambda d: im.save_as_fits(os.path.join(d, name), fix), [name]),
             "save-plain": lambda: Output(lambda d: plain.save_as_fits(os.path.join(d, name), fix), [name]),
             "raw": lambda: Output(lambda d: im.save_as_raw(os.path.join(d, stem + ".raw")), [stem + ".raw"]),
             "single": lambda: Output(lambda d: im.save_single_pol_images(os.path.join(d, name), fix), [f"{stem}_POL{i}.fits" for i in ids]),
             "param": lambda: Output(lambda d: im.save_param_as_fits(P[k % 6], os.path.join(d, name), fix), [f"{stem}_{getattr(im, P[k % 6]).ID}.fits"]),
             "all": lambda: Output(lambda d: im.save_all_pol_params_as_fits(os.path.join(d, name)), [f"{stem}_{p.ID}.fits" for p in im.polparam_list]),
             "demosaiced": lambda: Output(lambda d: im.save_demosaiced_images_as_fits(os.path.join(d, name), fix), [f"{stem}_POL{i}.fits" for i in ids])}[op]()
        root, clean = os.path.join(ctx.tmp, f"f{n}"), os.path.join(ctx.tmp, f"c{n}")
        os.makedirs(os.path.join(root, case["where"]))
        os.makedirs(os.path.join(clean, case["where"]))
        ctx.label(op)
        survive(ctx, root, clean, o, fault, case["old"], f"call {n}: {op} under fault {fault}", plain if op == "save-plain" else im)


@sub("C44", "raw", st.fixed_dictionaries(dict(h=st.integers(1, 60), w=st.integers(1, 60), salt=gen.salts, old=st.booleans(), same_dir=st.booleans(),
     what=st.lists(st.tuples(st.sampled_from(["convert", "remove", "remove", "merge", "average"]), st.integers(1, 3), faults), min_size=1, max_size=4))), 200, shards=4, thorough=3000,
     rule="converting (with and without removal), summing and averaging raw frames under the same faults; a raw frame may only be gone when its FITS file is complete; "
          "non-trivial: a call failed")
def c44_raw(case, ctx):
    h, w, salt = case["h"], case["w"], case["salt"]
    for n, (op, k, fault) in enumerate(case["what"]):
        root, clean = os.path.join(ctx.tmp, f"f{n}"), os.path.join(ctx.tmp, f"c{n}")
        gone = None
        for d in (root, clean):
            os.makedirs(os.path.join(d, "out"))
            for i in range(k):
                with open(os.path.join(d, f"g{i}.raw"), "wb") as f:
                    f.write(gen.hashint(salt, (h, w), 0, 65535, n * 10 + i).astype("<u2").tobytes())
        if op in ("convert", "remove"):
            o = Output(lambda d: ml.convert_rawfile_to_fits(os.path.join(d, "g0.raw"), h, w, remove_old=op == "remove"), ["g0.fits"])
            gone = os.path.join(root, "g0.raw") if op == "remove" else None
        else:
            f = ml.average_rawfiles_to_fits if op == "average" else ml.merge_rawfiles_to_fits
            out = "o.fits" if case["same_dir"] else "out/o.fits"
            o = Output(lambda d: f([os.path.join(d, f"g{i}.raw") for i in range(k)], os.path.join(d, out), h, w), [out])
        ctx.label(op)
        survive(ctx, root, clean, o, fault, case["old"], f"call {n}: {op} under fault {fault}", gone=gone)


@sub("C44", "calibrations", st.fixed_dictionaries(dict(rig, h=st.integers(1, 5), w=st.integers(1, 5), angles=st.just([0, 45, 90, -45]), kind=st.sampled_from(["tensor", "tensor", "cwl"]), old=st.booleans(),
     fault=st.one_of(st.tuples(st.just("size"), st.integers(0, 6), st.floats(0, 1)), st.tuples(st.just("folder"), st.integers(0, 30), st.just(0.0)), st.tuples(st.just("folder"), st.integers(0, 30), st.just(0.0)),
                     st.tuples(st.just("parent"), st.just(0), st.just(0.0))))), 60, shards=4, thorough=600,
     rule="storing either calibration with files that may not grow beyond n bytes, folders or files in the way; then again without the fault; non-trivial: it failed")
def c44_calibrations(case, ctx):
    R = Rig(case, ctx)
    files = R.write()
    before = tree(R.folder)
    if case["kind"] == "cwl":
        R.nominal = [-45 if a == 135 else a for a in R.nominal]

    def compute(d):
        if case["kind"] == "cwl":
            calculate_chen_wan_lian_calibration(list(R.angles), list(files), list(R.nominal), os.path.join(d, "cal"), occulter=False)
        else:
            R.calibrate(os.path.join(d, "cal"), files)

    clean, root = os.path.join(ctx.tmp, "clean"), os.path.join(ctx.tmp, "root")
    os.makedirs(root)
    os.makedirs(clean)
    compute(clean)
    names = sorted(n for n in tree(clean) if n.endswith(".fits"))
    check(len(names) > 12, f"calibration files {names}")
    for n in names:
        os.makedirs(os.path.dirname(os.path.join(root, n)), exist_ok=True)
    ctx.label(case["kind"])
    fault = tuple(case["fault"])
    survive(ctx, root, clean, Output(compute, names), fault, case["old"], f"{case['kind']} calibration under fault {fault}", least=200)
    check(tree(R.folder) == before, "calibration images changed")


@sub("C44", "reads", st.fixed_dictionaries(dict(h=st.integers(1, 30), w=st.integers(1, 30), perm=perms, salt=gen.salts, dt=st.sampled_from(["f8", "u2", "i2", "f4", "u1", "i4"]), flags=st.booleans(),
     what=st.lists(st.tuples(st.sampled_from(["image", "plain", "list", "calibration", "raw"]), st.sampled_from(["cut", "cut", "cut", "descriptors"]), st.integers(0, 15), st.floats(0, 1)), min_size=1, max_size=5))),
     200, shards=4, thorough=3000,
     rule="loading images and lists, opening calibrations and converting frames from files cut at any byte (block boundaries included) or without descriptors; what is loaded must be "
          "what the file held when complete; then again from the complete file; non-trivial: a load was refused")
def c44_reads(case, ctx):
    h, w, salt = 2 * case["h"], 2 * case["w"], case["salt"]
    dic = gen.perm(case["perm"])
    p = lambda *n: os.path.join(ctx.tmp, *n)
    A = [gen.hashint(salt, (h, w), 0, 120, i).astype(case["dt"]) for i in range(3)]
    for i in range(3):
        util.write_fits(p(f"i{i}.fits"), A[i])
    px = gen.hashint(salt, (h, w), 0, 65535, 5)
    with open(p("r.raw"), "wb") as f:
        f.write(px.astype("<u2").tobytes())
    M = gen.hashint(salt, (3, 4, h // 2, w // 2), -9, 9, 1)
    F = gen.hashint(salt, (h // 2, w // 2), 0, 1, 2) if case["flags"] else None
    util.write_tensor(p("cal"), M, F)
    members = sorted(os.listdir(p("cal")))
    for n, (op, how, k, frac) in enumerate(case["what"]):
        what = f"call {n}: {op} ({how} {k} {frac:.3f})"
        target = {"image": p("i0.fits"), "plain": p("i0.fits"), "list": p(f"i{k % 3}.fits"), "raw": p("r.raw"), "calibration": p("cal", members[k % len(members)])}[op]

        def load():
            if op == "image":
                same(MI(p("i0.fits"), angle_dic=dic).data, A[0], what)
            elif op == "plain":
                same(IM(p("i0.fits")).data, A[0], what)
            elif op == "list":
                cls = MI if k % 2 else IM
                same(cls([p("i0.fits"), p("i1.fits"), p("i2.fits")], averageimages=False).data, sum(a.astype(float) for a in A), what)
            elif op == "raw":
                ml.convert_rawfile_to_fits(p("r.raw"), h, w)
                same(util.read_primary(p("r.fits"))[0], px, what)
            else:
                D = ml.Demodulator(p("cal"))
                same(D.mij, M, what + ": matrices")
                if F is not None:
                    same(D.fit_found_flags, F, what + ": flags")

        full = open(target, "rb").read()
        if how == "cut":
            blocks = [b for b in range(0, len(full), 2880)]
            at = blocks[k % len(blocks)] if k % 3 == 0 else len(full) - 1 - k // 3 if k % 3 == 1 else int(frac * (len(full) - 1))
            with open(target, "wb") as f:
                f.write(full[:max(at, 0)])
        before, folders = tree(ctx.tmp), subdirs(ctx.tmp)
        try:
            if how == "cut":
                load()
            else:
                with limited(resource.RLIMIT_NOFILE, free_descriptor() + k % 3):
                    load()
            done = True
        except Exception as e:
            if type(e).__module__.startswith("vf"):
                raise
            done = False
        after = tree(ctx.tmp)
        ctx.label(f"{op} {how} {'went through' if done else 'refused'}")
        ctx.nt(not done)
        changed = sorted(x for x in set(before) | set(after) if x != "r.fits" and before.get(x) != after.get(x))
        check(not changed and subdirs(ctx.tmp) == folders, f"{what}: files changed: {changed}")
        if op == "raw" and how == "cut":
            check(not done, f"{what}: a frame that is too short was converted")
            check(before.get("r.fits") == after.get("r.fits"), f"{what}: refused, but the output changed")
        if how == "cut":
            with open(target, "wb") as f:
                f.write(full)
        load()
