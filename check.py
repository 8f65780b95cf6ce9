#!/usr/bin/env python3
"""Decides one property: check.py ID quick|thorough, or check.py ID --replay F.

Exit 0: the property held on everything explored. Exit 1, with a line
"VIOLATION property=ID replay=FILE": it is broken. Other: no answer.
"""
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as builder  # noqa: E402
from props import PROPS  # noqa: E402


def known_findings(prop):
    """{finding id: what fails} of the findings that are listed, not fixed.

    Lines of the file:
    known: property=ID id=NAME what fails
    fixed: property=ID COMMIT what failed
    """
    found = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                match = re.match(
                    r"known: property=(\S+) id=(\S+) (.*)", line)
                if match and match.group(1) == prop:
                    found[match.group(2)] = match.group(3)
    return found


def clean(text):
    return re.sub(r"\s+", " ", text).strip()


def main():
    if len(sys.argv) < 3 or sys.argv[1] not in PROPS:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    config = PROPS[prop]
    variant = os.environ.get("VERIF_VARIANT", config.get("variant", "asan"))
    root = os.path.join(VERIF, "build")
    os.makedirs(root, exist_ok=True)
    lock = open(os.path.join(root, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    start = time.time()
    try:
        driver = builder.build(PROPS, [prop], variant)[prop]
    except RuntimeError as error:
        print(error)
        return 2
    fcntl.flock(lock, fcntl.LOCK_UN)
    build_s = time.time() - start
    known = known_findings(prop)
    known_args = [a for k in sorted(known) for a in ("--known", k)]

    if sys.argv[2] == "--replay":
        work = tempfile.mkdtemp(prefix="fern-pbt-")
        try:
            done = subprocess.run(
                [driver, "--replay", sys.argv[3], "--work", work] + known_args)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return done.returncode

    tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        print(__doc__)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    factor = float(config.get("factor", 1.0))
    limit = 150.0
    if tier == "thorough":
        factor *= float(config.get("thorough", 30.0))
        limit = float(os.environ.get("VERIF_LIMIT", "1500"))
    replays = os.path.join(root, "replays")
    os.makedirs(replays, exist_ok=True)
    evidence_dir = os.path.join(VERIF, "evidence")
    os.makedirs(evidence_dir, exist_ok=True)

    def explore(args_factor, args_limit, args_seed, only=()):
        work = tempfile.mkdtemp(prefix="fern-pbt-")
        stats_path = os.path.join(work, "stats.json")
        replay = os.path.join(replays, "%s-%s.json" % (prop, args_seed))
        if os.path.exists(replay):
            os.remove(replay)
        command = [
            driver, "--property", prop, "--seed", str(args_seed),
            "--factor", str(args_factor), "--limit", str(args_limit),
            "--work", work, "--stats", stats_path, "--replay-out", replay,
            "--timeout", str(config.get("timeout", 60)),
            "--workers", str(config.get("workers", 8))] + known_args
        for name in only:
            command += ["--only", name]
        try:
            done = subprocess.run(command, stdout=subprocess.PIPE, text=True,
                                  errors="backslashreplace")
            stats = {}
            if os.path.exists(stats_path):
                with open(stats_path, errors="replace") as f:
                    stats = json.load(f)
            confirmed = None
            if done.returncode == 1:
                # Replay the shrunk case: three times out of three, unless
                # the target depends on the schedule.
                confirmed = 0
                for _ in range(3):
                    again = subprocess.run(
                        [driver, "--replay", replay, "--work", work] +
                        known_args, stdout=subprocess.PIPE, text=True,
                        errors="backslashreplace")
                    confirmed += again.returncode == 1
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return done, stats, replay, confirmed

    # A worker that was ended from outside (memory) is no answer: once more.
    done, stats, replay, confirmed = explore(factor, limit, seed)
    if done.returncode not in (0, 1):
        done, stats, replay, confirmed = explore(factor, limit, seed)
    sys.stdout.write(done.stdout)
    if done.returncode not in (0, 1):
        print("no answer: driver ended with %d" % done.returncode)
        return 2

    targets = stats.get("targets", [])
    labels = {}
    samples = []
    rules = []
    for t in targets:
        labels.update({t["name"] + "/" + k: v for k, v in t["labels"].items()})
        for s in t["samples"]:
            samples.append({"target": t["name"], "case": s})
        rules.append("%s: %s" % (t["name"], t["rule"]))
    # A failing worker's own counts are lost; the failing case counts as one.
    evaluations = sum(t["evaluations"] for t in targets)
    distinct = sum(t["distinct_nontrivial"] for t in targets)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations + (done.returncode == 1),
            "distinct_nontrivial": distinct,
            "rule": "A case counts when it is marked by the rule of its "
                    "target, and differs from the other cases in its draws. "
                    + " | ".join(rules),
            "samples": samples[:24],
            "discarded": sum(t["discards"] for t in targets),
            "targets": {t["name"]: {
                "wanted": t["wanted"], "evaluations": t["evaluations"],
                "distinct_nontrivial": t["distinct_nontrivial"],
                "discarded": t["discards"]} for t in targets},
            "classes": labels,
        },
        "build_s": round(build_s, 1),
        "wall_s": round(time.time() - start, 2),
        "assumptions": config.get("assumptions", []),
        "violations": 1 if done.returncode == 1 else 0,
    }
    if done.returncode == 1:
        evidence["replay"] = replay
        evidence["confirmed_replays"] = "%d of 3" % confirmed
    path = os.path.join(evidence_dir, prop + ".json")
    with open(path, "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    seen = {}
    for t in targets:
        seen.update(t["known"])
    for k in sorted(known):
        # Listed findings are reported, also when this run did not meet them.
        print("KNOWN-FINDING: property=%s %s: %s" % (
            prop, k, clean(known[k])))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s (build "
          "%.1f s)" % (prop, tier, seed, evaluations, distinct,
                       time.time() - start, build_s))
    if done.returncode == 1:
        if confirmed == 0 and not config.get("schedule_dependent"):
            print("the failure does not repeat: reported as seen")
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="backslashreplace")
    try:
        result = main()
    except Exception:
        # No answer, which is not a violation.
        traceback.print_exc()
        result = 2
    sys.exit(result)
