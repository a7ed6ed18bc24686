"""The runner: drives Hypothesis over a property's sub-checks in parallel
shards, shrinks failures to plain JSON cases, and writes the evidence file.

A property module (checks/cNN.py) defines ID, PROPS (a list of Prop), RULE and
optionally ASSUMPTIONS. A Prop's body gets a case that is nothing but JSON
(lists, dicts, strings, numbers, None), so that a failing case can be replayed
without Hypothesis.
"""

import argparse
import faulthandler
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback
from contextlib import contextmanager

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HYPOTHESIS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

# The code under test comes from the working tree, whatever is installed.
sys.path.insert(0, os.path.join(REPO, "src"))
if HYPOTHESIS_SITE not in sys.path:
    sys.path.append(HYPOTHESIS_SITE)

CASE_CPU_S = 30  # CPU time after which a single case counts as a hang.
JOBS = 8


class HarnessError(Exception):
    """Something is wrong with the check and not with the code under test."""


class Hang(BaseException):
    """A case used more CPU time than any case can need."""


class Prop:
    """One executable sub-check of a property.

    name      identifies it in replay files
    strategy  a callable that makes the Hypothesis strategy for its cases
    body      body(case, rec); raises if the property does not hold
    quick     half the number of cases in the quick tier
    thorough  number of cases in the thorough tier
    """

    def __init__(self, name, strategy, body, quick=1000, thorough=None, shards=8):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick * 2
        self.thorough = thorough or quick * 25
        self.shards = shards


class Rec:
    """What a case turned out to be."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def interesting(self, condition=True):
        if condition:
            self.nontrivial = True


def fingerprint(case):
    data = json.dumps(case, sort_keys=True, ensure_ascii=True).encode()
    return int.from_bytes(hashlib.blake2b(data, digest_size=8).digest(), "big")


def on_hang(signum, frame):
    raise Hang()


def run_body(prop, case, rec):
    """Run a case on a private copy, under the hang guard."""
    signal.signal(signal.SIGPROF, on_hang)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        try:
            with frames(960):
                prop.body(json.loads(json.dumps(case)), rec)
        except RecursionError as e:
            if any("pymantic" in path for path in files_of(e)):
                raise
            # It's this code here that needs more.
            with frames(50000):
                prop.body(json.loads(json.dumps(case)), rec)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


@contextmanager
def frames(count):
    """Calls can be as deep as this (and by default it's about 1000), wherever this is
    called from: Hypothesis would allow for more."""
    limit = sys.getrecursionlimit()
    depth, frame = 0, sys._getframe()
    while frame is not None:
        depth, frame = depth + 1, frame.f_back
    sys.setrecursionlimit(depth + count)
    try:
        yield
    finally:
        sys.setrecursionlimit(limit)


def files_of(exception):
    traceback_ = exception.__traceback__
    while traceback_ is not None:
        yield traceback_.tb_frame.f_code.co_filename
        traceback_ = traceback_.tb_next


def shard_main(module_name, prop_index, shard, examples, seed, wall_s, conn):
    """Generate and run the cases of one shard, in a process of its own."""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        conn.send(run_shard(module_name, prop_index, shard, examples, seed, wall_s))
    except BaseException:
        conn.send({"error": traceback.format_exc()})
    finally:
        conn.close()


def run_shard(module_name, prop_index, shard, examples, seed, wall_s):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 40
    module = importlib.import_module(module_name)
    prop = module.PROPS[prop_index]
    stats = {
        "prop": prop.name,
        "shard": shard,
        "evaluations": 0,
        "skipped": 0,
        "nontrivial": set(),
        "labels": {},
        "samples": [],
        "failure": None,
    }
    deadline = time.monotonic() + wall_s
    failing = {}

    def test(case):
        if time.monotonic() > deadline and not failing:
            stats["skipped"] += 1
            return
        rec = Rec()
        stats["evaluations"] += 1
        try:
            run_body(prop, case, rec)
        except HarnessError:
            raise
        except Hang:
            failing["case"] = case
            failing["what"] = f"no result after {CASE_CPU_S} s of CPU time"
            failing["abort"] = True
            raise
        except Exception:
            failing["case"] = case
            failing["what"] = traceback.format_exc()
            raise
        if not failing:
            for label in rec.labels:
                stats["labels"][label] = stats["labels"].get(label, 0) + 1
            if rec.nontrivial:
                print_ = fingerprint(case)
                if print_ not in stats["nontrivial"]:
                    stats["nontrivial"].add(print_)
                    if len(stats["samples"]) < 2 and len(stats["nontrivial"]) > 5:
                        stats["samples"].append(case)

    test = hypothesis.given(prop.strategy())(test)
    test = settings(
        max_examples=examples,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
    )(test)
    test = hypothesis.seed(seed)(test)
    devnull = open(os.devnull, "w")
    stdout, stderr = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = devnull
    try:
        test()
    except HarnessError:
        raise
    except BaseException:
        # Includes what Hypothesis raises for a failure it can't reproduce.
        if not failing:
            raise
        stats["failure"] = failing
    finally:
        sys.stdout, sys.stderr = stdout, stderr
    return stats


def run_shards(module_name, props, tier, seed, wall_s):
    """Run all shards, at most JOBS at a time; returns their stats in order."""
    context = multiprocessing.get_context("fork")
    todo = []
    for index, prop in enumerate(props):
        total = prop.quick if tier == "quick" else prop.thorough
        shards = max(1, min(prop.shards, total))
        for shard in range(shards):
            examples = total // shards + (1 if shard < total % shards else 0)
            shard_seed = seed * 1_000_003 + index * 1009 + shard
            todo.append((index, shard, examples, shard_seed))
    running = []
    results = []
    failed = False
    end = time.monotonic() + wall_s
    while todo or running:
        while todo and len(running) < JOBS and not failed:
            # An equal share of what is left of the time.
            left = max(5, (end - time.monotonic()) / (1 + (len(todo) - 1) // JOBS))
            task = todo.pop(0)
            mine, theirs = context.Pipe(duplex=False)
            process = context.Process(
                target=shard_main, args=(module_name, *task, left, theirs)
            )
            process.start()
            theirs.close()
            running.append((task, process, mine))
        if failed:
            todo = []
        ready = multiprocessing.connection.wait([r[2] for r in running], timeout=5)
        still = []
        for task, process, conn in running:
            if conn in ready:
                try:
                    result = conn.recv()
                except EOFError:
                    process.join()
                    result = {"error": f"shard {task} died ({process.exitcode})"}
                process.join()
                result["order"] = task[:2]
                results.append(result)
                if result.get("failure") or result.get("error"):
                    failed = True
            else:
                still.append((task, process, conn))
        running = still
    return sorted(results, key=lambda r: r["order"])


def shorten(value, limit=1500):
    text = json.dumps(value, ensure_ascii=True)
    if len(text) <= limit:
        return value
    return text[:limit] + "..."


def write_evidence(pid, tier, seed, module, results, corpus_count, wall, violations):
    evaluations = sum(r.get("evaluations", 0) for r in results)
    nontrivial = {}
    labels = {}
    per_prop = {}
    samples = []
    for r in results:
        if "prop" not in r:
            continue
        nontrivial.setdefault(r["prop"], set()).update(r["nontrivial"])
        entry = per_prop.setdefault(r["prop"], {"evaluations": 0, "skipped": 0})
        entry["evaluations"] += r["evaluations"]
        entry["skipped"] += r["skipped"]
        for label, count in r["labels"].items():
            key = f"{r['prop']}: {label}"
            labels[key] = labels.get(key, 0) + count
        if r["samples"] and not any(s["check"] == r["prop"] for s in samples):
            samples.append({"check": r["prop"], "case": shorten(r["samples"][0])})
    for name, prints in nontrivial.items():
        per_prop[name]["distinct_nontrivial"] = len(prints)
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations + corpus_count,
            "distinct_nontrivial": sum(len(p) for p in nontrivial.values()),
            "rule": module.RULE,
            "samples": samples,
            "regression_cases_replayed": corpus_count,
            "per_check": per_prop,
            "classes": dict(sorted(labels.items())),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")
    os.replace(path + ".tmp", path)


def write_replay(pid, prop, case, what):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    name = "".join(c if c.isalnum() else "-" for c in f"{pid}-{prop}")
    name = f"{name}-{fingerprint(case):016x}.json"
    path = os.path.join(HERE, "replays", name)
    with open(path, "w") as f:
        json.dump(
            {"property": pid, "check": prop, "case": case, "what": what},
            f,
            indent=1,
            ensure_ascii=True,
        )
        f.write("\n")
    return path


def known_findings(pid):
    """The findings listed for a property, as (text, check, fingerprint)."""
    found = []
    path = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.strip():
                    entry = json.loads(line)
                    if entry.get("property") == pid and entry["kind"] == "known":
                        found.append(entry)
    return found


def replay(module, path):
    with open(path) as f:
        entry = json.load(f)
    prop = next(p for p in module.PROPS if p.name == entry["check"])
    try:
        run_body(prop, entry["case"], Rec())
    except HarnessError:
        raise
    except (Exception, Hang):
        traceback.print_exc(file=sys.stdout)
        print(f"VIOLATION property={module.ID} replay={path}")
        return 1
    print(f"{module.ID}: {path} holds")
    return 0


def replay_corpus(module, pid):
    """Replay the committed regression cases; returns (count, failure)."""
    path = os.path.join(HERE, "corpus", pid + ".json")
    count = 0
    if os.path.exists(path):
        with open(path) as f:
            entries = json.load(f)
        props = {p.name: p for p in module.PROPS}
        for entry in entries:
            prop = props.get(entry["check"])
            if prop is None:
                raise HarnessError(f"corpus: no check {entry['check']}")
            count += 1
            try:
                run_body(prop, entry["case"], Rec())
            except HarnessError:
                raise
            except (Exception, Hang):
                return count, (prop.name, entry["case"], traceback.format_exc())
    return count, None


def main(argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument("property", nargs="?")
    parser.add_argument("--selftest", action="store_true", help="import all checks")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    parser.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    parser.add_argument("--replay")
    parser.add_argument("--only", help="run one sub-check (development)")
    parser.add_argument("--scale", type=float, default=1.0)
    args = parser.parse_args(argv)
    faulthandler.enable()
    if args.selftest:
        return selftest()
    pid = args.property
    start = time.monotonic()
    try:
        seed = int(args.seed)
    except ValueError:
        seed = fingerprint(args.seed) % (1 << 31)
    tier = "thorough" if args.tier == "thorough" else "quick"
    module_name = "checks." + pid.lower()
    sys.path.insert(0, HERE)
    try:
        module = importlib.import_module(module_name)
    except Exception as e:
        # The code under test no longer has what every user of it imports.
        if any(
            "/pymantic/" in frame.filename
            for frame in traceback.extract_tb(e.__traceback__)
        ) or "pymantic" in str(e):
            traceback.print_exc()
            path = write_replay(pid, "import", None, traceback.format_exc())
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        raise
    check_source(module)
    if args.replay:
        return replay(module, args.replay)
    if args.only:
        module.PROPS[:] = [p for p in module.PROPS if p.name == args.only]
    for prop in module.PROPS:
        prop.quick = max(1, int(prop.quick * args.scale))
        prop.thorough = max(1, int(prop.thorough * args.scale))
    corpus_count, failure = replay_corpus(module, pid)
    results = []
    if failure is None:
        wall_s = 360 if tier == "quick" else 6 * 3600
        results = run_shards(module_name, module.PROPS, tier, seed, wall_s)
        errors = [r["error"] for r in results if r.get("error")]
        failures = [r for r in results if r.get("failure")]
        if failures:
            # The smallest reproduction of those the shards came up with.
            worst = min(
                failures, key=lambda r: (len(json.dumps(r["failure"]["case"])))
            )
            failure = (
                worst["prop"],
                worst["failure"]["case"],
                worst["failure"]["what"],
            )
        elif errors:
            raise HarnessError(errors[0])
    wall = time.monotonic() - start
    for entry in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {entry['what']}")
    write_evidence(
        pid, tier, seed, module, results, corpus_count, wall, 1 if failure else 0
    )
    if failure:
        name, case, what = failure
        path = write_replay(pid, name, case, what)
        print(f"{pid} {name}: {json.dumps(shorten(case), ensure_ascii=True)}")
        print(what[-3000:])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    total = sum(r["evaluations"] for r in results)
    skipped = sum(r["skipped"] for r in results)
    print(
        f"{pid}: held on {total} generated and {corpus_count} regression cases"
        f" ({skipped} skipped for time) in {wall:.1f} s"
    )
    return 0


def selftest():
    """Are the tools that the checks need where they are expected?"""
    import hypothesis

    sys.path.insert(0, HERE)
    names = sorted(n[:-3] for n in os.listdir(os.path.join(HERE, "checks")) if n[0] == "c")
    for name in names:
        try:
            importlib.import_module("checks." + name)
        except Exception as e:
            # That may be the fault of the code under test.
            print(f"{name}: {e!r}")
    print(f"{len(names)} checks, Hypothesis {hypothesis.__version__}, Python {sys.version}")
    return 0


def check_source(module):
    """Make sure that it is the working tree that is being tested."""
    import pymantic

    path = os.path.realpath(pymantic.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f"testing {path} instead of {REPO}")


if __name__ == "__main__":
    # checks import pbt.core: make sure that there is only one of it.
    sys.modules["pbt.core"] = sys.modules["__main__"]
    try:
        code = main()
    except HarnessError as e:
        print(f"error of the check: {e}", file=sys.stderr)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
