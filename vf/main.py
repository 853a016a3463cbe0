"""Runner: ./check <property> quick|thorough, or --replay <file>.

Forks one worker per sub-check and shard. Exit 0: held on everything explored; 1: VIOLATION line;
2: harness error (no verdict)."""
import faulthandler
import hashlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = time.time()


def load():
    """Third-party code first (normal bytecode caches), then the code under test, always compiled
    from the present source of the repository, then the checks."""
    import numpy, scipy.optimize, scipy.ndimage, scipy.interpolate  # noqa
    import numba, numba.typed, astropy.io.fits, PIL.Image, cv2, tqdm, pytz, pandas  # noqa
    import matplotlib.pyplot  # noqa

    deps = os.path.join(HERE, ".deps")
    if not os.path.isdir(os.path.join(deps, "hypothesis")):
        from vf import deps as d

        deps = d.unpack(os.path.join(os.environ["VF_SCRATCH"], "deps"))
    sys.path.append(deps)
    import hypothesis, hypothesis.strategies, hypothesis.errors  # noqa

    from vf import core

    sys.path.insert(0, core.REPO)
    prefix = sys.pycache_prefix
    sys.pycache_prefix = os.path.join(core.SCRATCH, "no_pyc")
    import logging

    logging.disable(logging.CRITICAL)
    import warnings

    warnings.filterwarnings("ignore")
    import micropolarray

    if not os.path.abspath(micropolarray.__file__).startswith(os.path.abspath(core.REPO) + os.sep):
        raise RuntimeError(f"micropolarray imported from {micropolarray.__file__}")
    sys.pycache_prefix = prefix
    from vf import checks  # noqa

    return core


def known_findings(prop):
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == f"property={prop}" and w[2].startswith("finding="):
                out[w[2][8:]] = w[3].strip()
    return out


def run_worker(core, s, tier, seed, shard, listed, out_path, beat_path, budget):
    """Generated-input search of one sub-check; result written to out_path."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = 45
    if not hasattr(engine.ConjectureRunner, "vf_mutate"):
        # By default five of six cases are copies of the sixth with repeated parts; fresh cases
        # reach more of the domains here, so only every sixth fresh case is varied like that.
        mutate = engine.ConjectureRunner.vf_mutate = engine.ConjectureRunner.generate_mutations_from
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: mutate(self, data) if self.random.random() < 1 / 6 else None
    n = s.quick if tier == "quick" else s.thorough
    n = max(1, -(-n // s.shards))
    start = time.time()
    res = dict(sub=s.name, shard=shard, evals=0, skipped=0, known={}, nontrivial=[], labels={}, samples=[],
               violation=None, error=None, budget_hit=False)
    nontrivial = set()
    fails = []

    def one(case):
        if not fails and time.time() - start > budget:
            res["budget_hit"] = True
            return
        text = core.canon(case)
        with open(beat_path, "w") as f:
            f.write(text)
        ctx = core.Ctx()
        try:
            core.judge(s, case, ctx)
        except core.Violation as e:
            fails.append((text, str(e)))
            raise
        except core.Known as e:
            if e.finding not in listed:
                fails.append((text, str(e)))
                raise core.Violation(str(e))
            res["known"][e.finding] = res["known"].get(e.finding, 0) + 1
        except core.Skip:
            res["skipped"] += 1
            return
        finally:
            ctx.close()
        if fails:
            return
        res["evals"] += 1
        for name in ctx.labels:
            res["labels"][name] = res["labels"].get(name, 0) + 1
        if ctx.nontrivial:
            h = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
            if h not in nontrivial:
                nontrivial.add(h)
                k = len(nontrivial)
                if k in (2, 7, 23) or not res["samples"]:
                    res["samples"] = (res["samples"] + [dict(case=json.loads(text), labels=sorted(ctx.labels))])[-2:]

    try:
        if shard == 0:
            for case in s.examples:
                one(json.loads(json.dumps(case)))
        test = given(s.strategy)(one)
        test = settings(
            max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
        )(test)
        test = hypothesis.seed(seed * 1000 + shard * 97 + sum(map(ord, s.prop + s.name)))(test)
        test()
    except BaseException as e:
        if fails and not isinstance(e, (MemoryError, KeyboardInterrupt)):
            # Hypothesis runs the smallest failing case last; when a failure does not repeat
            # (uninitialized memory), the last failing case that was seen is reported.
            res["violation"] = dict(case=json.loads(fails[-1][0]), message=fails[-1][1])
        else:
            res["error"] = "".join(traceback.format_exception(e))[-1500:]
    res["nontrivial"] = sorted(nontrivial)
    res["wall"] = time.time() - start
    with open(out_path + ".part", "w") as f:
        json.dump(res, f)
    os.rename(out_path + ".part", out_path)


def fork_job(core, job, tier, seed, listed, budget):
    s, shard = job
    base = os.path.join(core.SCRATCH, f"{s.name}.{shard}")
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.setpgid(0, 0)
            null = os.open(os.devnull, os.O_RDWR)
            log = os.open(base + ".log", os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o644)
            os.dup2(null, 0)
            os.dup2(null, 1)
            os.dup2(log, 2)
            sys.stdout = open(1, "w", closefd=False)
            sys.stderr = open(os.devnull, "w")
            work = base + ".cwd"
            os.makedirs(work)
            os.chdir(work)
            with open(base + ".beat", "w") as f:
                f.write("null")
            run_worker(core, s, tier, seed, shard, listed, base + ".out", base + ".beat", budget)
            code = 0
        except BaseException:
            os.write(2, traceback.format_exc().encode())
        finally:
            os._exit(code)
    return dict(pid=pid, sub=s, shard=shard, base=base, start=time.time())


def kill(job):
    try:
        os.killpg(job["pid"], signal.SIGKILL)
    except OSError:
        pass
    try:
        os.kill(job["pid"], signal.SIGKILL)
    except OSError:
        pass


def read(path, default=None):
    try:
        return json.load(open(path))
    except Exception:
        return default


def save_replay(prop, s, case, message):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, f"{prop}_{s}_{h}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, sub=s, case=case, message=message), f, indent=1)
    return os.path.relpath(path, HERE)


def run(prop, tier):
    core = load()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if prop not in core.SUBS:
        print(f"unknown property {prop}", file=sys.stderr)
        return 2
    subs = core.SUBS[prop]
    only = os.environ.get("VF_ONLY")
    if only:
        subs = [s for s in subs if s.name in only.split(",")]
    listed = known_findings(prop)
    quick = tier == "quick"
    budget = 200 if quick else 2400
    queue = [(s, k) for s in subs for k in range(s.shards)]
    queue.sort(key=lambda j: j[1])
    ncpu = int(os.environ.get("VF_JOBS", "8"))
    running, results, violation, errors = [], [], None, []
    while (queue or running) and not violation:
        while queue and len(running) < ncpu:
            running.append(fork_job(core, queue.pop(0), tier, seed, listed, budget))
        time.sleep(0.02)
        for j in list(running):
            pid, status = os.waitpid(j["pid"], os.WNOHANG)
            s = j["sub"]
            if pid:
                running.remove(j)
                kill(j)
                res = read(j["base"] + ".out")
                if res is None:
                    case = read(j["base"] + ".beat")
                    log = open(j["base"] + ".log", errors="replace").read()[-3000:]
                    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
                    if case is not None and sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT, signal.SIGILL):
                        violation = (s.name, case, f"the process crashed with signal {sig}")
                    else:
                        errors.append(f"{s.name}.{j['shard']}: worker ended with status {status}\n{log}")
                    continue
                results.append((s, res))
                if res["violation"]:
                    violation = (s.name, res["violation"]["case"], res["violation"]["message"])
                if res["error"]:
                    errors.append(f"{s.name}.{j['shard']}: {res['error']}")
                continue
            try:
                idle = time.time() - os.stat(j["base"] + ".beat").st_mtime
            except OSError:
                idle = time.time() - j["start"]
            if idle > s.hang:
                case = read(j["base"] + ".beat")
                kill(j)
                os.waitpid(j["pid"], 0)
                running.remove(j)
                if case is not None:
                    violation = (s.name, case, f"no result within {s.hang} s (cases normally take well under 1/20 of that)")
                else:
                    errors.append(f"{s.name}.{j['shard']}: no progress before the first case")
            if violation:
                break
    for j in running:
        kill(j)
        os.waitpid(j["pid"], 0)
    wall = time.time() - T0

    per, labels, samples, known = {}, {}, [], {}
    nontrivial = 0
    for s in subs:
        rs = [r for t, r in results if t is s]
        hs = set(h for r in rs for h in r["nontrivial"])
        nontrivial += len(hs)
        lab = {}
        for r in rs:
            for k, v in r["labels"].items():
                lab[k] = lab.get(k, 0) + v
            for k, v in r["known"].items():
                known[k] = known.get(k, 0) + v
        per[s.name] = dict(
            evaluations=sum(r["evals"] for r in rs), distinct_nontrivial=len(hs), skipped=sum(r["skipped"] for r in rs),
            labels=dict(sorted(lab.items())), seconds=round(sum(r.get("wall", 0) for r in rs), 2),
            budget_hit=any(r["budget_hit"] for r in rs), rule=s.rule,
        )
        for r in rs[:1]:
            for x in r["samples"]:
                if len(json.dumps(x)) > 4000:
                    x = dict(case=json.dumps(x["case"])[:3500] + " ...", labels=x["labels"])
                samples.append(dict(sub=s.name, **x))
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(p["evaluations"] for p in per.values()), distinct_nontrivial=nontrivial,
            rule="Cases are drawn by Hypothesis from the strategy of each sub-check (see per_subcheck.rule); "
                 "distinct cases counted by hash of the canonical case.  " + "  ".join(f"[{s.name}] {s.rule}" for s in subs),
            samples=samples, per_subcheck=per,
        ),
        assumptions=["inputs are within the domains stated in DESIGN.md for this property",
                     "numpy, scipy.optimize.curve_fit, astropy.io.fits, PIL and numba behave as documented"],
        wall_s=round(wall, 2), violations=1 if violation else 0,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for name, text in listed.items():
        print(f"KNOWN-FINDING: property={prop} {text}")
    for name, p in per.items():
        print(f"{prop} {name}: {p['evaluations']} cases, {p['distinct_nontrivial']} distinct non-trivial, "
              f"{p['skipped']} skipped, {p['seconds']} s" + (" (time budget reached)" if p["budget_hit"] else ""))
    if violation:
        name, case, message = violation
        path = save_replay(prop, name, case, message)
        print(f"{name}: {message}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 2
    print(f"{prop} held on everything explored ({wall:.1f} s)")
    return 0


def replay(prop, path):
    core = load()
    r = json.load(open(path))
    s = [x for x in core.SUBS[r["property"]] if x.name == r["sub"]][0]
    work = os.path.join(core.SCRATCH, "cwd")
    os.makedirs(work)
    os.chdir(work)
    ctx = core.Ctx()
    saved = os.dup(1)
    try:
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        try:
            core.judge(s, r["case"], ctx)
        finally:
            sys.stdout.flush()
            os.dup2(saved, 1)
            ctx.close()
    except core.Violation as e:
        print(f"{s.name}: {e}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    except core.Known as e:
        print(f"KNOWN-FINDING: property={prop} {e}")
        return 0
    except core.Skip:
        print("outside the domain")
        return 0
    print("the saved case passes")
    return 0


if __name__ == "__main__":
    try:
        a = sys.argv[1:]
        if len(a) == 3 and a[1] == "--replay":
            code = replay(a[0], a[2] if os.path.isabs(a[2]) else os.path.join(HERE, a[2]))
        else:
            code = run(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
