"""Runs the facets of a property in parallel, deterministic shards; writes evidence and replays."""

import argparse
import collections
import concurrent.futures
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from pbt import boot

boot.load_sut()

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, Verbosity, given, settings  # noqa: E402
import hypothesis.internal.conjecture.engine as _engine  # noqa: E402

from pbt.core import (  # noqa: E402
    CaseTimeout, Ctx, Facet, HarnessError, Violation, canon, case_hash, describe_exc,
)

_engine.MAX_SHRINKING_SECONDS = 60
CASE_CPU_LIMIT = 240  # seconds of CPU time for one case; typical cases need milliseconds
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
REPLAYS = os.path.join(boot.VERIF, "replays")
EVIDENCE = os.path.join(boot.VERIF, "evidence")
KNOWN = os.path.join(boot.VERIF, "KNOWN_FINDINGS.json")


def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as fh:
        entries = json.load(fh)
    return [e for e in entries["open"] if e["property"] == prop]


def load_module(prop):
    return importlib.import_module(f"pbt.checks.{prop.lower()}")


def _derive_seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def _on_timeout(signum, frame):
    raise CaseTimeout()


def reset_global_state():
    """Global state of the code under test that a case may change."""
    from abcvoting.output import output, WARNING

    output.set_verbosity(WARNING)
    output.logger = None
    random.seed(0)
    import numpy as np

    np.random.seed(0)


def from_repo(exc):
    """Was the exception raised below a function of the code under test?"""
    root = os.path.realpath(os.path.join(boot.REPO, "abcvoting"))
    return any(os.path.realpath(f.filename).startswith(root + os.sep)
               for f in traceback.extract_tb(exc.__traceback__))


def run_case(facet, case, known, stats=None):
    """Run one case. Returns Ctx; raises Violation for an unlisted violation."""
    reset_global_state()
    ctx = Ctx()
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        facet.check(json.loads(canon(case)), ctx)
    except Violation as exc:
        for entry in known:
            if entry["facet"] == facet.name and canon(entry["case"]) == canon(case):
                ctx.known_hits.append(entry["id"])
                return ctx
        raise exc
    except HarnessError:
        raise
    except (MemoryError, OSError) as exc:
        if not from_repo(exc):
            raise
        raise Violation(f"unexpected {describe_exc(exc)}") from exc
    except Exception as exc:
        # checks run without exceptions on the unchanged code: results of an unexpected kind
        raise Violation(f"unexpected {describe_exc(exc)}") from exc
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return ctx


class ShardState:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.first_fail = None
        self.last_fail = None
        self.known_hits = set()
        self.journal = []

    def record(self, case, ctx):
        if ctx.is_nontrivial:
            digest = case_hash(case)
            if digest not in self.nontrivial:
                self.nontrivial.add(digest)
                # keep a few, spread over the run
                if len(self.samples) < 2 or (len(self.nontrivial) % 97 == 0
                                             and len(self.samples) < 6):
                    if len(canon(case)) < 3000:
                        self.samples.append(case)
        self.labels.update(ctx.labels)
        self.known_hits.update(ctx.known_hits)


SCRATCH = None  # directory with one file per worker: the case it is working on
_current_fd = None


def note_current(facet, case):
    """Leave a trace for the parent in case the code under test takes down the process."""
    global _current_fd
    if SCRATCH is None:
        return
    if _current_fd is None:
        _current_fd = os.open(
            os.path.join(SCRATCH, str(os.getpid())), os.O_CREAT | os.O_WRONLY, 0o600
        )
    data = (canon({"facet": facet, "case": case}) + "\n").encode()
    os.pwrite(_current_fd, data, 0)


def crashed_cases(procs):
    """Cases of workers that died from a crash signal (not from SIGKILL or SIGTERM)."""
    out = []
    for p in procs:
        p.join(10)
        if p.exitcode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE,
                          -signal.SIGILL):
            path = os.path.join(SCRATCH, str(p.pid))
            if os.path.exists(path):
                with open(path) as fh:
                    body = json.loads(fh.readline())
                out.append((body["facet"], body["case"],
                            f"the process crashed ({signal.Signals(-p.exitcode).name})"))
    return out


def worker_init():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    signal.signal(signal.SIGPROF, _on_timeout)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


_gurobi_ready = False


def _gurobi_threads():
    global _gurobi_ready
    if _gurobi_ready:
        return
    _gurobi_ready = True
    try:
        import gurobipy

        gurobipy.setParam("Threads", 1)
        gurobipy.setParam("OutputFlag", 0)
    except Exception:  # solver not usable: the checks will see that themselves
        pass


def smaller_profiles(case):
    """Cases with the same keys but a smaller profile."""
    m, b, w, k = case["m"], case["b"], case["w"], case["k"]
    for size in (len(b) // 2, len(b) // 4, 1):
        for i in range(0, len(b), max(1, size)):
            rest = [x for j, x in enumerate(b) if not i <= j < i + size]
            if size and rest:
                yield dict(case, b=rest, w=[x for j, x in enumerate(w) if not i <= j < i + size])
    used = set().union(*map(set, b))
    for c in sorted(set(range(m)) - used, reverse=True):  # drop unapproved candidates
        if m - 1 >= k:
            yield dict(case, m=m - 1, b=[[x - (x > c) for x in bal] for bal in b])
    if k > 1:
        yield dict(case, k=k - 1)
    for c in sorted(used, reverse=True):
        yield dict(case, b=[[x for x in bal if x != c] for bal in b])
    for i, bal in enumerate(b):
        for c in bal:
            yield dict(case, b=b[:i] + [[x for x in bal if x != c]] + b[i + 1:])
    for i, x in enumerate(w):
        if x != "1":
            yield dict(case, w=w[:i] + ["1"] + w[i + 1:])


def minimise(facet, case, msg, known, budget=60):
    """Greedy delta debugging for facets whose cases Hypothesis cannot shrink."""
    end = time.time() + budget
    progress = True
    while progress:
        progress = False
        for cand in smaller_profiles(case):
            if time.time() > end:
                return case, msg
            try:
                run_case(facet, cand, known)
            except Violation as exc:
                case, msg, progress = cand, str(exc), True
                break
            except (CaseTimeout, Exception):
                continue
    return case, msg


def run_shard(prop, facet_idx, shard, num, seed, with_corpus):
    """Executed in a worker process."""
    try:
        _gurobi_threads()
        module = load_module(prop)
        facet = module.FACETS[facet_idx]
        known = load_known(prop)
        st = ShardState()
        t0 = time.time()

        def one(case):
            st.evaluations += 1
            if st.first_fail is None:
                st.journal.append(case)
            note_current(facet.name, case)
            try:
                ctx = run_case(facet, case, known)
            except Violation as exc:
                if st.first_fail is None:
                    st.first_fail = (case, str(exc))
                st.last_fail = (case, str(exc))
                raise
            except CaseTimeout:
                msg = f"no answer within {CASE_CPU_LIMIT} s of CPU time (does not terminate)"
                st.first_fail = st.first_fail or (case, msg)
                st.last_fail = (case, msg)
                raise
            st.record(case, ctx)

        try:
            if with_corpus:
                for case in facet.corpus:
                    one(case)
            if num > 0:
                test = settings(
                    max_examples=num,
                    database=None,
                    deadline=None,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=[HealthCheck.too_slow],
                    report_multiple_bugs=False,
                    verbosity=Verbosity.quiet,
                    print_blob=False,
                )(given(facet.strategy)(one))
                hypothesis.seed(seed)(test)()
        except (Violation, CaseTimeout):
            pass
        except BaseException as exc:  # e.g. Flaky: a violation that came and went
            if st.last_fail is None or isinstance(exc, (KeyboardInterrupt, SystemExit)):
                raise
        if facet.minimise and st.last_fail is not None:
            st.last_fail = minimise(facet, *st.last_fail, known)
        return {
            "facet": facet.name,
            "shard": shard,
            "evaluations": st.evaluations,
            "nontrivial": st.nontrivial,
            "labels": st.labels,
            "samples": st.samples,
            "fail": st.last_fail,
            "first_fail": st.first_fail,
            "journal": st.journal if st.first_fail else None,
            "known_hits": sorted(st.known_hits),
            "seconds": time.time() - t0,
        }
    except BaseException:
        return {"error": f"{prop} facet {facet_idx} shard {shard}:\n" + traceback.format_exc()}


def make_jobs(module, prop, tier, seed, only=None):
    jobs = []
    for idx, facet in enumerate(module.FACETS):
        if only and facet.name not in only:
            continue
        num = facet.quick if tier == "quick" else facet.thorough
        if num <= 0 and not facet.corpus:
            continue
        shards = max(1, min(WORKERS, num // facet.min_shard))
        base, extra = divmod(num, shards)
        for shard in range(shards):
            count = base + (1 if shard < extra else 0)
            jobs.append(
                (prop, idx, shard, count, _derive_seed(prop, facet.name, shard, seed), shard == 0)
            )
    return jobs


def write_replay(prop, facet, case, msg, history=None):
    os.makedirs(REPLAYS, exist_ok=True)
    body = {"property": prop, "facet": facet, "case": case, "message": msg}
    if history is not None:
        body["history"] = history
    name = hashlib.sha256(canon(body).encode()).hexdigest()[:12]
    path = os.path.join(REPLAYS, f"{prop}-{facet}-{name}.json")
    with open(path, "w") as fh:
        json.dump(body, fh, indent=1)
    return path


def reproduces_alone(path):
    """Does the replay file fail in a fresh process?"""
    try:
        res = subprocess.run(
            [sys.executable, os.path.join(boot.VERIF, "check.py"), "--replay", path],
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=400,
        )
        return res.returncode == 1 or res.returncode < 0
    except subprocess.TimeoutExpired:
        return True


def replay(path):
    with open(path) as fh:
        body = json.load(fh)
    worker_init_replay()
    module = load_module(body["property"])
    facet = next(f for f in module.FACETS if f.name == body["facet"])
    _gurobi_threads()
    cases = body.get("history") or [body["case"]]
    for case in cases:
        try:
            run_case(facet, case, [])
        except Violation as exc:
            print(f"facet {facet.name}: {exc}", file=sys.stderr)
            print(f"VIOLATION property={body['property']} replay={path}", file=sys.stderr)
            return 1
        except CaseTimeout:
            print(f"facet {facet.name}: does not terminate", file=sys.stderr)
            return 1
    print("replay: no violation", file=sys.stderr)
    return 0


def worker_init_replay():
    signal.signal(signal.SIGPROF, _on_timeout)


def write_evidence(prop, module, tier, seed, agg, wall, violations):
    os.makedirs(EVIDENCE, exist_ok=True)
    facets = {}
    nontrivial = 0
    evaluations = 0
    samples = []
    for facet in module.FACETS:
        if facet.name not in agg:
            continue
        a = agg[facet.name]
        evaluations += a["evaluations"]
        nontrivial += len(a["nontrivial"])
        facets[facet.name] = {
            "evaluations": a["evaluations"],
            "distinct_nontrivial": len(a["nontrivial"]),
            "rule": facet.rule,
            "classes": dict(sorted(a["labels"].items())),
            "cpu_s": round(a["seconds"], 1),
        }
        for s in a["samples"][:4]:
            samples.append({"facet": facet.name, "case": s})
    body = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": getattr(module, "RULE", "") + " A case counts once per facet (distinct by its "
            "canonical JSON text); per-facet rules are listed under `facets`.",
            "samples": samples,
            "facets": facets,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    path = os.path.join(EVIDENCE, f"{prop}.json")
    tmp = path + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(body, fh, indent=1)
    os.replace(tmp, path)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--facet", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    args = ap.parse_args(argv)
    if args.selftest:
        print("hypothesis", hypothesis.__version__, "python", sys.version.split()[0],
              "code under test", boot.REPO)
        return 0
    if args.replay:
        return replay(args.replay)
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = args.property
    t0 = time.time()
    module = load_module(prop)
    if args.scale != 1.0:
        for f in module.FACETS:
            f.quick = int(f.quick * args.scale)
            f.thorough = int(f.thorough * args.scale)
    jobs = make_jobs(module, prop, tier, seed, args.facet)
    agg = {}
    errors = []
    fail = None
    global SCRATCH
    scratch = tempfile.TemporaryDirectory(prefix="verif_")
    SCRATCH = scratch.name
    ctx = multiprocessing.get_context("fork")
    pool = concurrent.futures.ProcessPoolExecutor(
        max_workers=WORKERS, mp_context=ctx, initializer=worker_init
    )
    known = load_known(prop)
    known_hits = set()
    # interleave: all shards of heavy facets spread evenly
    pending = {pool.submit(run_shard, *job) for job in jobs}
    procs = list((pool._processes or {}).values())
    try:
        while pending and fail is None:
            done, pending = concurrent.futures.wait(
                pending, return_when=concurrent.futures.FIRST_COMPLETED
            )
            for fut in done:
                res = fut.result()
                if "error" in res:
                    errors.append(res["error"])
                    continue
                a = agg.setdefault(
                    res["facet"],
                    {"evaluations": 0, "nontrivial": set(), "labels": collections.Counter(),
                     "samples": [], "seconds": 0.0},
                )
                a["evaluations"] += res["evaluations"]
                a["nontrivial"] |= res["nontrivial"]
                a["labels"].update(res["labels"])
                a["samples"] += res["samples"]
                a["seconds"] += res["seconds"]
                known_hits.update(res["known_hits"])
                if res["fail"] and fail is None:
                    fail = res
    except concurrent.futures.process.BrokenProcessPool:
        for facet, case, msg in crashed_cases(procs):
            if fail is None and reproduces_alone(write_replay(prop, facet, case, msg)):
                fail = {"facet": facet, "fail": (case, msg), "first_fail": (case, msg),
                        "journal": None}
        if fail is None:
            errors.append("a worker process died")
    finally:
        if fail is not None or errors:
            for p in procs:
                p.kill()
        pool.shutdown(wait=True, cancel_futures=True)
    wall = time.time() - t0
    if args.verbose:
        for name, a in agg.items():
            print(name, "evals", a["evaluations"], "nontrivial", len(a["nontrivial"]),
                  "cpu %.1f" % a["seconds"], dict(a["labels"]))
        print("wall %.1f" % wall)
    if not args.facet:
        write_evidence(prop, module, tier, seed, agg, wall, 1 if fail else 0)
    if fail is not None:
        case, msg = fail["fail"]
        path = write_replay(prop, fail["facet"], case, msg)
        if not reproduces_alone(path):
            # depends on what ran before it: the replay is the whole history of the shard
            case, msg = fail["first_fail"]
            path = write_replay(prop, fail["facet"], case, msg, history=fail["journal"])
        print(f"[{fail['facet']}] {msg}")
        print("case: " + canon(case)[:2000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors[:3]:
            print(e, file=sys.stderr)
        print(f"harness error in {prop} ({len(errors)} shards)", file=sys.stderr)
        return 2
    for entry in known:
        print(f"KNOWN-FINDING: property={prop} {entry['description']}")
    total = sum(a["evaluations"] for a in agg.values())
    nontriv = sum(len(a["nontrivial"]) for a in agg.values())
    print(f"OK property={prop} tier={tier} seed={seed} evaluations={total} "
          f"distinct_nontrivial={nontriv} wall={wall:.1f}s")
    return 0
