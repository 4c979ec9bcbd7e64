"""Replays behaviours of the specification on other targets, and with an interpreter that watches the memory.

Miri interprets the harness and the crates for any target: other byte orders
and word sizes are at hand although the machine has only one.  It also stops at
a read of memory that is not initialised, out of bounds, or freed.
"""
import concurrent.futures
import json
import os
import re
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")

# Borrows are not judged: memory is.
FLAGS = {
    False: "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-disable-validation",
    True: "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows",
}
# Cases of these kinds that name a size of four digits or more take Miri too long.
SIZED = ("obj", "bld", "run", "blk", "wr")
LONGEST = 1500
LIMIT = 700


class Failed(Exception):
    """The machinery failed."""


class Uncompiled(Exception):
    """The crates do not compile for a target."""


def environment(env, target, memory):
    root = os.path.join(BUILD, "miri", target)
    os.makedirs(root, exist_ok=True)
    return dict(env, RUSTUP_TOOLCHAIN="nightly", XDG_CACHE_HOME=os.path.join(root, "cache"),
                CARGO_TARGET_DIR=os.path.join(root, "target"), MIRIFLAGS=FLAGS[memory])


def command(target, *args):
    return ["timeout", str(LIMIT), "cargo", "miri", "run", "-q", "--offline", "--locked", "--target", target, "--"] + list(args)


def prepare(env, target, memory):
    """Builds the standard library and the harness for a target."""
    e = environment(env, target, memory)
    s = dict(e)
    s.pop("CARGO_ENCODED_RUSTFLAGS", None)
    s.pop("CARGO_TARGET_DIR", None)
    p = subprocess.run(["cargo", "miri", "setup", "--target", target], env=s, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise Failed("no standard library for %s:\n%s" % (target, p.stdout[-2000:]))
    p = subprocess.run(command(target, "P00", "/dev/null"), cwd=os.path.join(HERE, "harness"), env=e, text=True, errors="replace",
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if "RESULT cases=0" not in p.stdout:
        m = re.search(r"could not compile `(bsn1\w*)`", p.stderr)
        if m:
            e = re.search(r"^error.*\n.*", p.stderr, re.M)
            raise Uncompiled("%s does not compile for %s: %s" % (m[1], target, e and e[0]))
        raise Failed("cannot build the harness for %s:\n%s" % (target, p.stderr[-4000:]))


def suits(case):
    if len(case) > LONGEST:
        return False
    k = re.search(r'"k":"(\w+)"', case)[1]
    return k not in SIZED or not re.search(r"(?<!\d)\d{4}", case)


def interpret(env, target, memory, judge, cases, scratch, name):
    """-> (cases, checks, list of (message, case))"""
    path = os.path.join(scratch, name + ".jsonl")
    with open(path, "w") as f:
        f.write("\n".join(cases) + "\n")
    prog = os.path.join(scratch, name + ".progress")
    args = [judge] + (["--memory"] if memory else []) + ["--threads", "1", "--progress", prog, path]
    p = subprocess.run(command(target, *args), cwd=os.path.join(HERE, "harness"), env=environment(env, target, memory),
                       text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    bad = []
    for line in p.stdout.splitlines():
        if line.startswith("MISMATCH "):
            _, msg, case = line[9:].split("\t", 2)
            bad.append((msg, case))
    if p.returncode == 3:
        raise Failed("harness: %s" % p.stdout[-2000:])
    m = re.search(r"^RESULT cases=(\d+) checks=(\d+)", p.stdout, re.M)
    if p.returncode == 0 and m or bad:
        return len(cases), int(m[2]), bad
    why = re.search(r"^error: (.*)", p.stderr, re.M)
    why = why[1] if why else p.stderr[-300:]
    if "unsupported" in why or p.returncode == 124:
        raise Failed("Miri gave up on %s %s (%d): %s" % (target, judge, p.returncode, why))
    if m:
        # Leaks are found at the end, when it is not known which case left them.
        return len(cases), int(m[2]), [(why, "\n".join(cases))]
    at = int(open(prog).read())
    return at + 1, 0, [(why, cases[at])]


def share(rng, cases, n):
    cases = [c for c in cases if suits(c)]
    return rng.sample(cases, min(n, len(cases)))


def replay(env, tasks, memory, scratch, chunk=18):
    """tasks: list of (target, judge, cases). -> (cases, checks, list of (message, target, judge, case))"""
    work = []
    for target, judge, cases in tasks:
        for i in range(0, len(cases), chunk):
            work.append((target, judge, cases[i:i + chunk]))
    total = checks = 0
    bad = []
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        runs = [(t, j, ex.submit(interpret, env, t, memory, j, c, scratch, "miri%d" % i)) for i, (t, j, c) in enumerate(work)]
        for t, j, r in runs:
            n, k, x = r.result()
            total += n
            checks += k
            bad += [(m, t, j, c) for m, c in x]
    return total, checks, bad


if __name__ == "__main__":
    import check
    import plan
    for pl in plan.PLAN.values():
        for t, _ in pl.get("on", {}).get("quick", []):
            prepare(check.cargo_env(), t, pl.get("memory", False))
