"""Fresh interpreter processes that execute the same tasks (used by C38).

`python -m pbt.remote INDEX` reads one JSON task per line and answers with one JSON line. Processes
differ in PYTHONHASHSEED and in what else has been allocated (addresses of objects).
"""

import atexit
import contextlib
import io
import json
import os
import random
import signal
import subprocess
import sys
import tempfile

HASH_SEEDS = ["0", "1", "77777"]


class Remote:
    def __init__(self, index):
        from pbt import boot

        env = dict(os.environ, PYTHONHASHSEED=HASH_SEEDS[index], PYTHONPATH=boot.VERIF)
        self.index = index
        self.proc = subprocess.Popen(
            [sys.executable, "-m", "pbt.remote", str(index)], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=boot.VERIF)

    def send(self, task):
        self.proc.stdin.write((json.dumps(task) + "\n").encode())
        self.proc.stdin.flush()

    def receive(self):
        line = self.proc.stdout.readline()
        return json.loads(line) if line else {"violation": "the process crashed"}

    def stop(self):
        for action in (self.proc.stdin.close, self.proc.kill, self.proc.wait):
            with contextlib.suppress(OSError):
                action()


_remotes = {}


def ask_all(task):
    """Answers of all processes (started on demand) to a task."""
    for i in range(len(HASH_SEEDS)):
        if i not in _remotes or _remotes[i].proc.poll() is not None:
            _remotes[i] = Remote(i)
    try:
        for i in sorted(_remotes):
            _remotes[i].send(task)
        return [_remotes[i].receive() for i in sorted(_remotes)]
    except BrokenPipeError:
        stop_all()
        return [{"violation": "the process crashed"}]
    except BaseException:  # e.g. a timeout: answers would belong to earlier tasks
        stop_all()
        raise


@atexit.register
def stop_all():
    for remote in _remotes.values():
        remote.stop()
    _remotes.clear()


# --- tasks ----------------------------------------------------------------------------------


def profile_of(task):
    from pbt import gen

    return gen.build(task, cand_names=task.get("names"))


def order(committees):
    """Committees in the order they are returned; the order inside a set is not observable."""
    return [sorted(int(c) for c in com) for com in committees]


def do_compute(task):
    from pbt import rules

    res = rules.compute(task["rule"], profile_of(task), task["k"], algorithm=task["algo"],
                        resolute=task["resolute"])
    return order(res)


def do_check(task):
    from pbt import axcheck

    profile = profile_of(task)
    return axcheck.run(task["prop"], profile, task["com"], task.get("quota"), task.get("algo"))


def do_analysis(task):
    from abcvoting import properties

    res = properties.full_analysis(profile_of(task), task["com"])
    return [[str(key), value] for key, value in res.items()]


def do_profile(task):
    from abcvoting import misc

    profile = profile_of(task)
    coms = [misc.CandidateSet(c) for c in task["coms"]]
    names = profile.cand_names
    out = [str(profile), profile.str_compact(), misc.str_sets_of_candidates(coms, names),
           misc.str_committees_with_header(coms, names), order(misc.sorted_committees(coms)),
           [str(c) for c in coms]]
    profile.convert_to_weighted()
    out.append([[sorted(v.approved), str(v.weight)] for v in profile])
    return out


def do_files(task):
    from abcvoting import fileio

    profile = profile_of(task)
    out = []
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "x.abc.yaml")
        fileio.write_abcvoting_instance_to_yaml_file(
            path, profile, committeesize=task["k"], description="x", compute_instances=[
                {"rule_id": "av", "resolute": False, "algorithm": "standard",
                 "result": [list(c) for c in task["coms"]]}])
        with open(path, encoding="utf-8") as fh:
            out.append(fh.read())
        again, k, instances, _ = fileio.read_abcvoting_yaml_file(path)
        out.append([[sorted(v.approved), str(v.weight)] for v in again])
        out.append([[sorted(i), order(i["result"])] for i in instances])
        path = os.path.join(tmp, "y.cat")
        fileio.write_profile_to_preflib_cat_file(path, profile)
        with open(path, encoding="utf-8") as fh:
            out.append([line for line in fh if "DATE" not in line])
        for use in (False, True):
            again = fileio.read_preflib_file(path, use_weights=use)
            out.append([[sorted(v.approved), str(v.weight)] for v in again])
        again = fileio.read_preflib_files_from_dir(tmp)
        out.append([[name, len(p)] for name, p in again.items()])
    return out


def do_generate(task):
    from abcvoting import generate
    from pbt.checks.c28 import ballots, real, seeded, split

    seeded(task["seed"])
    kw = real(task["kw"])
    res = generate.random_profile(task["n"], task["m"], dict(kw, id=task["id"]))
    profile, vpos, cpos = split(res, kw)
    return [ballots(profile)] + [None if pos is None else [list(map(float, x)) for x in pos]
                                 for pos in (vpos, cpos)]


def answer(task):
    from abcvoting.output import output

    from pbt import runner
    from pbt.core import CaseTimeout, Violation, describe_exc

    signal.setitimer(signal.ITIMER_PROF, runner.CASE_CPU_LIMIT)
    random.seed(task.get("seed", 0))
    output.set_verbosity(task.get("level", 30))
    text = io.StringIO()
    try:
        with contextlib.redirect_stdout(text):
            res = globals()["do_" + task["do"]](task)
    except Violation as exc:
        return {"violation": str(exc)}
    except Exception as exc:
        return {"violation": "unexpected " + describe_exc(exc)}
    except CaseTimeout:
        return {"violation": f"no answer within {runner.CASE_CPU_LIMIT} s of CPU time"}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return {"result": res, "text": text.getvalue()}


def main():
    out = os.fdopen(os.dup(1), "w")  # whatever else prints (solvers) must not end up there
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    from pbt import boot, runner

    boot.load_sut()
    runner._gurobi_threads()
    runner.worker_init_replay()
    index = int(sys.argv[1])
    rng = random.Random(index)
    ballast = []
    for line in sys.stdin:
        for _ in range(rng.randint(0, 60)):  # fragment the heap: other addresses in every process
            ballast.append([set() if rng.random() < 0.5 else object()
                            for _ in range(rng.randint(0, 20))])
        rng.shuffle(ballast)
        del ballast[rng.randint(0, 100):]
        out.write(json.dumps(answer(json.loads(line)), default=str) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
