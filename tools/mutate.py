#!/usr/bin/env python3
"""Small random changes to the code a property is anchored in, against its check.

mutate.py WORK N SEED ID...

Copies of the repository and of this directory are made in WORK (once); each
change is made there, one at a time. Prints a line per change, and keeps the
changes that the check does not notice in WORK/survivors.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# Pattern, replacement.
OPERATORS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" < ", " > "), (r" > ", " < "),
    (r" == ", " != "), (r" != ", " == "), (r" && ", " || "),
    (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\+\+", "--"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"),
    (r"\b2\b", "1"), (r"!(?=[a-z_(])", ""), (r"\bif\((?=.*\) ?\{?$)", "if(!"),
    (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"size\(0\)", "size(1)"),
    (r"size\(1\)", "size(0)"), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"),
    (r"\bfirst\b", "second"), (r"\bsecond\b", "first"), (r" \+= ", " -= "),
    (r" -= ", " += "), (r" \+= ", " = "), (r"\brow\b", "col"),
    (r"\bcol\b", "row"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"),
    (r"\bvalue1\b", "value2"), (r"\bvalue2\b", "value1"),
    (r"std::get<0>", "std::get<1>"), (r"std::get<1>", "std::get<0>"),
    (r"\bbegin\(\)", "end()"), (r"^(\s+)continue;", r"\1break;"),
    (r"^(\s+)break;", r"\1"), (r"<0>", "<1>"), (r"<1>", "<0>"),
    (r"\b0\.0\b", "1.0"), (r"\b1\.0\b", "0.0"), (r"\?(.*) : (.*);",
        r"?\2 : \1;"),
    # Statements.
    (r"^(\s+)(?!return|using|typedef|break|continue|\w+ \w+;|template)"
     r"([\w\->.:<>\[\]]+(\(.*\)|( [-+*/|&]?= ).*);)\s*$", r"\1;"),
]


def candidates(path, text):
    found = []
    lines = text.split("\n")
    comment = False
    for i, line in enumerate(lines):
        s = line.strip()
        if comment:
            comment = "*/" not in s
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "using", "typedef", "template",
                                  "class", "namespace", "assert", "typename",
                                  "static_assert", "public", "private")):
            continue
        code = line.split("//")[0]
        for k, (pattern, replacement) in enumerate(OPERATORS):
            for match in re.finditer(pattern, code):
                changed = code[:match.start()] + match.expand(
                    replacement) + code[match.end():]
                if changed != code:
                    found.append((path, i, k, changed))
    return found


def main():
    work, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    repo, verif = work + "/repo", work + "/verif"
    os.makedirs(work + "/survivors", exist_ok=True)
    if not os.path.exists(repo):
        subprocess.check_call(["cp", "-a", "/repo", repo])
    subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "/build",
                           "--exclude", ".git", VERIF + "/", verif + "/"]
                          if shutil.which("rsync") else
                          ["cp", "-a", VERIF + "/.", verif])
    subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
    properties = {}
    with open(VERIF + "/properties.jsonl") as f:
        for line in f:
            p = json.loads(line)
            properties[p["id"]] = p
    env = dict(os.environ, FERN_REPO=repo)
    for id in sys.argv[4:]:
        paths = []
        for a in properties[id]["anchors"]["files"]:
            a = os.path.join(repo, a)
            if os.path.isdir(a):
                for d, ds, fs in os.walk(a):
                    if "test" not in d.split("/"):
                        paths += [os.path.join(d, f) for f in fs]
            else:
                paths.append(a)
            stem = a[:-2]
            if a.endswith(".h") and not stem.endswith("detail"):
                d = os.path.join(os.path.dirname(a), "detail",
                                 os.path.basename(a))
                if os.path.exists(d):
                    paths.append(d)
                if os.path.exists(stem + ".cc"):
                    paths.append(stem + ".cc")
        paths = sorted({p for p in paths if p.endswith((".h", ".cc"))})
        by_file = {p: candidates(p, open(p).read()) for p in paths}
        by_file = {p: c for p, c in by_file.items() if c}
        chooser = random.Random("%s %d" % (id, seed))
        done = tried = 0
        seen = set()
        while done < n and tried < 4 * n:
            tried += 1
            path = chooser.choice(sorted(by_file))
            mutant = chooser.choice(by_file[path])
            if mutant in seen:
                continue
            seen.add(mutant)
            _, i, k, changed = mutant
            with open(path) as f:
                text = f.read()
            lines = text.split("\n")
            before = lines[i]
            lines[i] = changed
            with open(path, "w") as f:
                f.write("\n".join(lines))
            start = time.time()
            try:
                p = subprocess.run(
                    ["timeout", "-k", "5", "500", sys.executable,
                     verif + "/check.py", id, "quick"], env=env,
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    text=True, errors="replace")
                out = p.stdout
                result = {0: "SURVIVED", 1: "caught", 124: "hang"}.get(
                    p.returncode, "no answer")
                if p.returncode == 2 and "build failed" in out:
                    result = "invalid"
                else:
                    done += 1
                if result not in ("invalid", "caught"):
                    diff = subprocess.run(["git", "-C", repo, "diff"],
                                          stdout=subprocess.PIPE).stdout
                    name = "%s/survivors/%s-%d-%d" % (work, id, seed, tried)
                    with open(name + ".diff", "wb") as f:
                        f.write(diff)
            finally:
                with open(path, "w") as f:
                    f.write(text)
            print("%s %s %.0f s %s:%d\n    - %s\n    + %s" % (
                id, result, time.time() - start, os.path.relpath(path, repo),
                i + 1, before.strip(), changed.strip()), flush=True)


if __name__ == "__main__":
    main()
