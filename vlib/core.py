"""Runner: drives generated cases through the judges of a property and reports."""

import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

from . import defaults

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LATTPY_VERIF_REPO", "/repo")

# Development only (mutation campaigns): fewer cases, no shrinking, other output folder
SCALE = float(os.environ.get("LATTPY_VERIF_SCALE", "1"))
SHARDS = int(os.environ.get("LATTPY_VERIF_SHARDS", "8"))
SHRINK = os.environ.get("LATTPY_VERIF_NOSHRINK") is None
OUT = os.environ.get("LATTPY_VERIF_OUT", HERE)

EXIT_OK, EXIT_VIOLATION, EXIT_ERROR = 0, 1, 2

# Wall clock limits (s): a limit that is reached never counts as a violation
CAP = {"quick": 300.0, "thorough": 3000.0}
SHRINK_LIMIT = 40.0
# CPU time (s) of a single case, which takes milliseconds, before it counts as hanging
CASE_LIMIT = 100.0
# Factors of the numbers of cases of the sub-checks
FACTOR = {"quick": 2, "thorough": 50}


class Violation(AssertionError):
    """The property doesn't hold for the judged case."""


class Discard(Exception):
    """The case is outside the domain of the property."""


class HarnessError(Exception):
    """An error of the machinery itself."""


class _StopShrinking(BaseException):
    pass


class _Hang(BaseException):
    pass


def _on_timer(signum, frame):
    raise _Hang()


def check(cond, msg="", *args):
    if not cond:
        raise Violation(msg % args if args else str(msg))


class Sub:
    """A sub-check of a property: cases from `strategy` are decided by `judge`."""

    def __init__(self, name, judge, strategy, num, rule, corpus=()):
        self.name = name
        self.judge = judge
        self.strategy = strategy
        self.num = num
        self.rule = rule
        self.corpus = list(corpus)


class Property:
    def __init__(self, pid, assumptions=()):
        self.pid = pid
        self.subs = []
        self.assumptions = list(assumptions)

    def sub(self, name, strategy, num, rule, corpus=()):
        """Register a judge. `strategy` is a function returning the strategy,
        `num` the number of cases in the quick tier."""

        def deco(func):
            self.subs.append(Sub(name, func, strategy, num, rule, corpus))
            return func

        return deco


class Ctx:
    """Passed to the judges for classifying the case."""

    def __init__(self):
        self.labels = []
        self.trivial = True

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, cond=True):
        if cond:
            self.trivial = False

    def discard(self, reason=""):
        raise Discard(reason)


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.discarded = 0
        self.skipped = 0
        self.labels = {}
        self.hashes = set()
        self.samples = []
        self.failures = []

    def merge(self, other):
        self.evaluations += other.evaluations
        self.discarded += other.discarded
        self.skipped += other.skipped
        for k, v in other.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        self.hashes |= other.hashes
        self.samples.extend(other.samples)
        self.failures.extend(other.failures)


def canonical(case):
    return json.dumps(case, sort_keys=True)


def import_lattpy():
    """Import the package from the working tree of the repository."""
    if "lattpy" in sys.modules:
        return sys.modules["lattpy"]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import lattpy

    path = os.path.realpath(lattpy.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f"lattpy imported from {path}")
    import logging

    logging.getLogger("py.warnings").setLevel(logging.CRITICAL)
    logging.getLogger("lattpy").setLevel(logging.CRITICAL)
    defaults.install()
    return lattpy


def run_judge(sub, case, ctx):
    """Returns None if the case holds, otherwise the description of the failure."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            defaults.reset()
            signal.signal(signal.SIGPROF, _on_timer)
            signal.setitimer(signal.ITIMER_PROF, CASE_LIMIT)
            try:
                sub.judge(case, ctx)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        except _Hang:
            return f"no result after {CASE_LIMIT:.0f} s of CPU time"
        except Discard:
            raise
        except (HarnessError, MemoryError):
            raise
        except Violation as e:
            return f"{e}"
        except Exception as e:  # an unexpected exception breaks the property
            tb = traceback.extract_tb(e.__traceback__)
            where = " <- ".join(
                f"{os.path.basename(f.filename)}:{f.name}" for f in tb[::-1][:4]
            )
            return f"{type(e).__name__}: {e} at {where}"
    return None


def run_sub(sub, stats, num, seed, deadline, shard):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    state = {"first_fail": None}

    def evaluate(case):
        if time.monotonic() > deadline and state["first_fail"] is None:
            stats.skipped += 1
            return
        if state["first_fail"] is not None:
            if time.monotonic() - state["first_fail"] > SHRINK_LIMIT:
                raise _StopShrinking()
        text = canonical(case)
        case = json.loads(text)  # judges get what a replay gets
        ctx = Ctx()
        try:
            failure = run_judge(sub, case, ctx)
        except Discard as d:
            stats.discarded += 1
            key = f"{sub.name}:discard:{d}"
            stats.labels[key] = stats.labels.get(key, 0) + 1
            hypothesis.reject()
            return
        stats.evaluations += 1
        for lab in ctx.labels:
            key = f"{sub.name}:{lab}"
            stats.labels[key] = stats.labels.get(key, 0) + 1
        if not ctx.trivial:
            digest = hashlib.blake2b(
                (sub.name + text).encode(), digest_size=8
            ).digest()
            if digest not in stats.hashes:
                stats.hashes.add(digest)
                kept = [s for s in stats.samples if s["sub"] == sub.name]
                if len(kept) < 2 and len(text) < 1500:
                    stats.samples.append({"sub": sub.name, "case": case})
        if failure is not None:
            if state["first_fail"] is None:
                state["first_fail"] = time.monotonic()
            stats.failures.append(
                {"sub": sub.name, "case": case, "message": failure, "len": len(text)}
            )
            raise Violation(failure)

    try:
        if shard == 0:
            for case in sub.corpus:
                try:
                    evaluate(case)
                except hypothesis.errors.UnsatisfiedAssumption:
                    pass
        strategy = sub.strategy()
        test = hypothesis.given(strategy)(evaluate)
        test = settings(
            max_examples=num,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            phases=(Phase.generate, Phase.shrink) if SHRINK else (Phase.generate,),
            suppress_health_check=[
                HealthCheck.too_slow,
                HealthCheck.data_too_large,
                HealthCheck.large_base_example,
                HealthCheck.filter_too_much,
            ],
        )(test)
        test = hypothesis.seed(seed)(test)
        test()
    except _StopShrinking:
        pass
    except Exception:
        if not stats.failures:
            raise


def worker(module, shard, num_shards, seed, tier, deadline, conn):
    stats = Stats()
    error = None
    try:
        os.environ["VERIF_TIER"] = tier
        import_lattpy()
        prop = importlib.import_module(module).PROP
        for i, sub in enumerate(prop.subs):
            total = sub.num * FACTOR[tier]
            num = max(1, int(-(-total * SCALE // num_shards)))
            sub_seed = (seed * 1000003 + shard) * 1009 + i
            run_sub(sub, stats, num, sub_seed, deadline, shard)
            if stats.failures:
                break
    except BaseException:
        error = traceback.format_exc()
    conn.send((shard, stats, error))
    conn.close()


def write_replay(prop, failure):
    folder = os.path.join(OUT, "replays")
    os.makedirs(folder, exist_ok=True)
    text = canonical(failure["case"])
    digest = hashlib.blake2b(text.encode(), digest_size=6).hexdigest()
    path = os.path.join(folder, f"{prop.pid}-{failure['sub']}-{digest}.json")
    data = {
        "property": prop.pid,
        "sub": failure["sub"],
        "case": failure["case"],
        "message": failure["message"],
    }
    with open(path, "w") as f:
        json.dump(data, f, indent=1, sort_keys=True)
    return path


def load_known():
    """Findings on the unchanged tree: list of dicts with property, sub, case."""
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        return json.load(f)


def known_for(pid):
    return [k for k in load_known().get("known", []) if k["property"] == pid]


def replay(path):
    with open(path) as f:
        data = json.load(f)
    import_lattpy()
    prop = importlib.import_module(f"props.{data['property'].lower()}").PROP
    sub = next(s for s in prop.subs if s.name == data["sub"])
    try:
        failure = run_judge(sub, data["case"], Ctx())
    except Discard:
        print("case is outside the domain of the property")
        return EXIT_ERROR
    if failure is None:
        print("holds")
        return EXIT_OK
    print(failure)
    print(f"VIOLATION property={prop.pid} replay={path}")
    return EXIT_VIOLATION


def run_property(pid, tier, seed):
    t0 = time.monotonic()
    import_lattpy()
    module = f"props.{pid.lower()}"
    prop = importlib.import_module(module).PROP
    num_shards = max(1, min(SHARDS, os.cpu_count() or 1))
    ctx = multiprocessing.get_context("fork")
    deadline = time.monotonic() + CAP[tier]
    jobs = []
    for shard in range(num_shards):
        recv, send = ctx.Pipe(duplex=False)
        args = (module, shard, num_shards, seed, tier, deadline, send)
        proc = ctx.Process(target=worker, args=args, daemon=True)
        proc.start()
        send.close()
        jobs.append((proc, recv))

    stats = Stats()
    errors = []
    pending = {recv: proc for proc, recv in jobs}
    hard = deadline + 240
    grace = None
    while pending:
        limit = hard if grace is None else min(hard, grace)
        ready = multiprocessing.connection.wait(
            list(pending), max(0.0, limit - time.monotonic())
        )
        if not ready:
            if grace is None:
                errors.append("time limit of the workers reached")
            break
        for recv in ready:
            proc = pending.pop(recv)
            try:
                shard, st, err = recv.recv()
            except EOFError:
                errors.append(f"worker {proc.pid} ended without a result")
                continue
            if err:
                errors.append(err)
            stats.merge(st)
            if st.failures and grace is None:
                grace = time.monotonic() + 2.0
    for proc, _ in jobs:
        if proc.is_alive():
            proc.kill()
        proc.join()

    for k in known_for(pid):
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    code = EXIT_OK
    if stats.failures:
        best = min(stats.failures, key=lambda f: f["len"])
        path = write_replay(prop, best)
        print(best["message"][:2000])
        print(f"VIOLATION property={pid} replay={path}")
        code = EXIT_VIOLATION
    elif errors:
        for e in errors:
            print(e, file=sys.stderr)
        code = EXIT_ERROR

    write_evidence(prop, tier, seed, stats, time.monotonic() - t0, code)
    total = stats.evaluations
    print(
        f"{pid} {tier} seed={seed}: {total} cases, {len(stats.hashes)} distinct "
        f"non-trivial, {stats.discarded} discarded, {stats.skipped} skipped, "
        f"{time.monotonic() - t0:.1f}s, exit {code}"
    )
    if os.environ.get("LATTPY_VERIF_LABELS"):
        for k in sorted(stats.labels):
            print(f"  {k}: {stats.labels[k]}")
    return code


def write_evidence(prop, tier, seed, stats, wall, code):
    folder = os.path.join(OUT, "evidence")
    os.makedirs(folder, exist_ok=True)
    rule = "; ".join(f"[{s.name}] {s.rule}" for s in prop.subs)
    seen, samples = {}, []
    for s in stats.samples:
        seen[s["sub"]] = seen.get(s["sub"], 0) + 1
        if seen[s["sub"]] <= 2:
            samples.append(s)
    data = {
        "property": prop.pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.evaluations,
            "distinct_nontrivial": len(stats.hashes),
            "rule": rule,
            "samples": samples,
            "discarded": stats.discarded,
            "skipped_by_time_limit": stats.skipped,
            "labels": dict(sorted(stats.labels.items())),
            "exhaustive": False,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(wall, 3),
        "violations": 1 if code == EXIT_VIOLATION else 0,
    }
    path = os.path.join(folder, f"{prop.pid}.json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1)
    os.replace(tmp, path)


def main(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument("--property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--replay")
    args = parser.parse_args(argv)
    try:
        if args.replay:
            return replay(args.replay)
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        os.environ["VERIF_TIER"] = args.tier
        return run_property(args.property, args.tier, seed)
    except Exception:
        traceback.print_exc()
        return EXIT_ERROR
