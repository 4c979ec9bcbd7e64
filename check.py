#!/usr/bin/env python3
"""Decides one property: explore the specification with TLC, replay what it
emits into the crates in /repo, report, and write the evidence.

usage: check.py PROPERTY [--tier quick|thorough] [--repo DIR] [--replay FILE]

exit 0: the property held on everything explored
exit 1: VIOLATION property=<id> replay=<path>
exit 2: the machinery itself failed (nothing is claimed)
"""

import argparse
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import attributes  # noqa: E402
import derive  # noqa: E402
import plan  # noqa: E402
import targets  # noqa: E402

BUILD = os.path.join(HERE, ".build")
SPEC = os.path.join(HERE, "spec")
TLC_TIMEOUT = {"quick": 600, "thorough": 5400}


class Broken(Exception):
    """The machinery failed; no verdict."""


def cargo_env():
    env = dict(os.environ)
    for v in ("RUSTFLAGS", "TRYBUILD", "CARGO_INCREMENTAL", "CARGO_BUILD_TARGET"):
        env.pop(v, None)
    env.update(
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        CARGO_ENCODED_RUSTFLAGS="-Ainvalid_reference_casting",
        CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
        RUST_BACKTRACE="0",
    )
    return env


def build(crate, profile="dev", binary=None):
    cmd = ["cargo", "build", "--offline", "--locked", "--profile", profile]
    p = subprocess.run(cmd, cwd=os.path.join(HERE, crate), env=cargo_env(), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise Broken("cannot build %s:\n%s" % (crate, p.stdout[-6000:]))
    sub = "debug" if profile == "dev" else profile
    return os.path.join(BUILD, "target", sub, binary or "bsnh")


def build_programs(prop, lines, units=8):
    """Writes and builds the derived programs of some cases.

    -> (list of (binary, cases), list of (message, case))
    """
    d = os.path.join(BUILD, "drv-%s" % prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    made = derive.generate(lines, d, min(units, len(lines)), HERE)
    shutil.copy(os.path.join(HERE, "harness", "Cargo.lock"), d)
    cmd = ["cargo", "build", "--offline", "--message-format", "short", "--keep-going"]
    p = subprocess.run(cmd, cwd=d, env=cargo_env(), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode == 0:
        return [(os.path.join(BUILD, "target", "debug", m["binary"]), m["cases"]) for m in made], []
    # The crates and the harness build, so these are programs the macros spoil.
    bad = {}
    for m in re.finditer(r"^src/bin/(\w+)\.rs:(\d+):\d+: error(.*)$", p.stdout, re.M):
        spans = next(x["spans"] for x in made if x["binary"] == m[1])
        for lo, hi, case in spans:
            if lo <= int(m[2]) < hi:
                bad.setdefault(case, "does not compile: error%s" % m[3])
    if not bad:
        raise Broken("cannot build the derived programs:\n%s" % p.stdout[-6000:])
    return [], [(msg, case) for case, msg in bad.items()]


def judge_attributes(prop, lines):
    """Compiles drafts of attributes; -> list of (message, case)."""
    said, text = attributes.judge(lines, os.path.join(BUILD, "attrs-%s" % prop), cargo_env(), HERE)
    if said is None:
        raise Broken("cannot compile the drafts:\n%s" % text[-6000:])
    bad = []
    for line, errors in zip(lines, said):
        if json.loads(line)["legal"]:
            if errors:
                bad.append(("a legal program does not compile: " + errors[0], line))
        elif not attributes.refused(errors):
            bad.append(("an illegal attribute is not refused", line))
    return bad


def run_tlc(job, scratch, tier, workers, seed, word=64):
    """A job of two explores a configuration exhaustively; (module, cfg, n, depth) walks through it at random, 4n times."""
    module, cfg, walk = job[0], job[1], job[2:]
    out = os.path.join(scratch, "%s_%s_%d.out" % (module, cfg, word))
    meta = os.path.join(scratch, "meta_%s_%s_%d" % (module, cfg, word))
    config = "%s_%s.cfg" % (module, cfg)
    if word != 64:
        with open(os.path.join(SPEC, config)) as f:
            text = f.read()
        config = os.path.join(scratch, "%s_%s_%d.cfg" % (module, cfg, word))
        with open(config, "w") as f:
            f.write(text + "\nCONSTANT WordBits <- Word%d\n" % word)
    cmd = ["timeout", str(TLC_TIMEOUT[tier]), "tlc", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", meta, "-config", config, "MC_%s.tla" % module]
    if walk:
        cmd[cmd.index("-workers") + 1] = "4"
        cmd[3:3] = ["-simulate", "num=%d" % walk[0], "-depth", str(walk[1]), "-seed", str(seed)]
    env = dict(os.environ, JAVA_TOOL_OPTIONS="-Xss256m")
    with open(out, "w") as f:
        p = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=env)
    shutil.rmtree(meta, ignore_errors=True)
    tail = []
    cases = 0
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"C '):
                cases += 1
            else:
                tail.append(line)
    text = "".join(tail)
    if walk:
        m = re.search(r"^The number of states generated: ()(\d+)", text, re.M)
        m = m and (m[0], m[2], m[2])
    else:
        m = "No error has been found" in text and \
            re.search(r"^(\d+) states generated, (\d+) distinct states found, 0 states left", text, re.M)
    if p.returncode != 0 or not m or "Error:" in text:
        raise Broken("TLC failed on %s_%s (exit %d):\n%s" % (module, cfg, p.returncode, text[-4000:]))
    if cases == 0:
        raise Broken("TLC emitted nothing for %s_%s" % (module, cfg))
    return dict(module=module, cfg=cfg, out=out, transitions=int(m[1]), states=int(m[2]), cases=cases)


def cases_of(path):
    with open(path, errors="replace") as f:
        for line in f:
            if line.startswith('"C '):
                yield json.loads(line)[2:]
            elif line.startswith("{"):
                yield line.strip()


def select(jobs, pl, scratch):
    """Keeps the cases that concern the property, one per line."""
    only, mode = pl.get("only"), pl.get("mode")
    path = os.path.join(scratch, "cases.jsonl")
    n = 0
    programs = []
    drafts = []
    with open(path, "w") as f:
        for j in jobs:
            for c in cases_of(j["out"]):
                if only and not any('"k":"%s"' % k in c for k in only):
                    continue
                if mode and '"m":"%s"' % mode not in c:
                    continue
                if c.startswith('{"k":"prog"') or '"k":"prog"' in c:
                    programs.append(c)
                    continue
                if '"k":"attr"' in c:
                    drafts.append(c)
                    continue
                f.write(c + "\n")
                n += 1
            os.remove(j["out"])
    if n == 0 and not programs and not drafts:
        raise Broken("no behaviour to replay")
    return path if n else None, programs, drafts


def nth_case(path, i):
    with open(path) as f:
        for k, line in enumerate(f):
            if k == i:
                return line.strip()
    raise Broken("no case %d in %s" % (i, path))


def replay(binary, prop, path, scratch, options=[]):
    """-> (result dict, list of (message, case))"""
    cmd = [binary, prop] + options + [path]
    p = subprocess.run(cmd, text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=cargo_env())
    bad = []
    result = None
    for line in p.stdout.splitlines():
        if line.startswith("MISMATCH "):
            _, msg, case = line[9:].split("\t", 2)
            bad.append((msg, case))
        elif line.startswith("HANG "):
            _, i, case = line.split(" ", 2)
            bad.append(("does not return", case))
        elif line.startswith("RESULT "):
            result = {k: int(v) for k, v in (x.split("=") for x in line.split()[1:])}
    if p.returncode == 3:
        raise Broken("harness: %s" % p.stdout[-2000:])
    m = re.search(r"^HUGE-ALLOC (\d+)", p.stderr, re.M)
    if p.returncode == 5 and m:
        bad.append(("requests an enormous allocation", nth_case(path, int(m[1]))))
        result = result or dict(cases=int(m[1]) + 1, checks=0, failed=1)
    elif p.returncode == 6:
        m = re.search(r"^OVERRUN (\d+)", p.stderr, re.M)
        bad.append(("writes past the end of an allocation, or frees it with a wrong size", nth_case(path, int(m[1]))))
        result = result or dict(cases=int(m[1]) + 1, checks=0, failed=1)
    elif p.returncode == 4:
        result = result or dict(cases=1, checks=0, failed=1)
    elif p.returncode not in (0, 1):
        # The process died: find the case that kills it.
        prog = os.path.join(scratch, "progress")
        q = subprocess.run([binary, prop] + options + ["--threads", "1", "--progress", prog, path], text=True, errors="replace",
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=cargo_env())
        if q.returncode in (0, 1, 3, 4):
            raise Broken("the harness died (%d) but not when run again: %s" % (p.returncode, p.stderr[-2000:]))
        i = int(open(prog).read())
        bad.append(("kills the process (%d): %s" % (q.returncode, q.stderr.strip()[-300:]), nth_case(path, i)))
        result = dict(cases=i + 1, checks=0, failed=1)
    if result is None:
        raise Broken("the harness gave no result (%d): %s" % (p.returncode, (p.stdout + p.stderr)[-2000:]))
    return result, bad


CORRUPT_KEYS = ["res", "out", "ids", "i", "t", "cmp", "root", "id"]


def corrupt(prop, case):
    """Makes the expectation of a case wrong."""
    c = json.loads(case)
    if c["k"] == "blk":
        if prop != "P17":
            return None
        c["head"][0] ^= 1
        return json.dumps(c)
    if c["k"] == "flt":
        c["at"] = [["777"]]
        return json.dumps(c)
    if c["k"] == "prog" and prop == "P31":
        for r in c["ins"]:
            for d in (r["b"], r["d"]):
                if d.get("at"):
                    d["at"] = [["elsewhere"]]
        return json.dumps(c)
    if c["k"] == "prog":
        for v in c["vals"]:
            v["out"][0] ^= 1
        for r in c["ins"]:
            if prop == "P20":
                r["in"].pop()
                continue
            r["b"] = r["d"] = {"e": ["BadEoc"]}
        return json.dumps(c)
    if c["k"] == "txt":
        if prop not in ("P19", "P30"):
            return None
        c["ok"] = not c["ok"]
        return json.dumps(c)
    if c["k"] == "cur":
        c["ops"][0][1] = "BadEoc"
        return json.dumps(c)
    if c["k"] == "de":
        rows = [r for r in c["rows"] if prop == "P19" or "v" in r["b"] and ("map" in r["t"] or "set" in r["t"] or prop != "P24")]
        for r in rows:
            r["b"] = {"e": ["BadEoc"]}
        return json.dumps(c) if rows else None
    if c["k"] == "tst":
        c["ops"][-1]["p"] += 1
        return json.dumps(c)
    if c["k"] == "ser" and prop in ("P16", "P20", "P21"):
        # The value is what is to come back.
        if prop == "P16" or not c["forms"]:
            return None
        c["forms"] = [f[:-1] for f in c["forms"]]
        return json.dumps(c)
    if c["k"] == "obj":
        h = c["h"][-1]
        if prop == "P14":
            return None
        o = h["st"][0]
        o["segs"] = o["segs"][:-1] if o["segs"] else [[9, 0, 1]]
        return json.dumps(c)
    for k in CORRUPT_KEYS:
        v = c.get(k)
        if isinstance(v, str):
            c[k] = "RedundantBytes" if v == "OverFlow" else "OverFlow"
            return json.dumps(c)
        if isinstance(v, list) and v and isinstance(v[0], int):
            c[k] = [(v[0] + 1) % 256] + v[1:]
            return json.dumps(c)
        if isinstance(v, list) and v and isinstance(v[0], list):
            c[k] = v[1:] + v[:1]
            if c[k] != v:
                return json.dumps(c)
    return None


def control(binary, prop, path, scratch, rng):
    """The harness has to notice wrong expectations."""
    wrong = []
    with open(path) as f:
        lines = f.readlines()
    for line in rng.sample(lines, min(200, len(lines))):
        c = corrupt(prop, line)
        if c:
            wrong.append(c)
    if not wrong:
        return 0
    p = os.path.join(scratch, "control.jsonl")
    with open(p, "w") as f:
        f.write("\n".join(wrong) + "\n")
    r, bad = replay(binary, prop, p, scratch)
    if not bad:
        raise Broken("the harness accepted %d corrupted behaviours" % len(wrong))
    return r["failed"]


def known_findings(prop):
    """Cases listed as findings: 'finding: property=<id> case=<json> <text>'."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    for line in open(path):
        m = re.match(r"finding: property=(\S+) case=(\{.*?\}) (.*)", line)
        if m and m[1] == prop:
            out.append((m[2], m[3]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    pl = plan.PLAN[prop]
    profiles = pl.get("profiles", ["dev"])
    scratch = os.path.join(BUILD, "run-%s-%s" % (prop, tier))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        if "on" in pl:
            if a.replay:
                return again_elsewhere(os.path.abspath(a.replay), pl, profiles, scratch)
            return elsewhere(prop, tier, seed, pl, scratch, t0)
        if a.replay:
            return again(prop, os.path.abspath(a.replay), profiles, scratch)
        return decide(prop, tier, seed, pl, profiles, scratch, t0)
    except Broken as e:
        print("BROKEN property=%s %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def again(prop, path, profiles, scratch):
    """Replays a file of behaviours."""
    lines = list(cases_of(path))
    programs = [c for c in lines if '"k":"prog"' in c]
    drafts = [c for c in lines if '"k":"attr"' in c]
    aims = [(build("harness", prof), path) for prof in profiles] if len(lines) > len(programs) + len(drafts) else []
    bad = judge_attributes(prop, drafts) if drafts else []
    if programs:
        build("harness")
        made, spoilt = build_programs(prop, programs)
        bad += spoilt
        aims += made
    for binary, p in aims:
        bad += replay(binary, prop, p, scratch)[1]
    for msg, case in bad:
        print("%s\n  %s" % (msg, case))
    return 1 if bad else 0


def decide(prop, tier, seed, pl, profiles, scratch, t0):
    rng = random.Random(seed)
    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
        built = {p: ex.submit(build, "harness", p) for p in profiles[:1]}
        wanted = pl[tier]
        par = 3 if tier == "quick" and len(wanted) > 1 else 1
        with concurrent.futures.ThreadPoolExecutor(max_workers=par) as tl:
            jobs = list(tl.map(lambda j: run_tlc(j, scratch, tier, 8 if par == 1 else 4, seed), wanted))
        binaries = [built[p].result() if p in built else build("harness", p) for p in profiles]

    path, programs, drafts = select(jobs, pl, scratch)
    aims = [(b, path) for b in binaries] if path else []
    bad = []
    extra = {}
    checks = 0
    replayed = 0
    if programs:
        made, bad = build_programs(prop, programs)
        aims += made
        extra["derived_programs_compiled"] = len(programs)
    if drafts:
        bad += judge_attributes(prop, drafts)
        extra["attribute_drafts_compiled"] = len(drafts)
        replayed += len(drafts)
        checks += len(drafts)
    for b, p in aims:
        r, x = replay(b, prop, p, scratch)
        checks += r["checks"]
        replayed += r["cases"]
        bad += x
    if not bad and pl.get("control", True):
        extra["corrupted_behaviours_rejected"] = sum(control(b, prop, p, scratch, rng) for b, p in aims)

    lines = programs + drafts
    if path:
        with open(path) as f:
            lines += f.readlines()
    return conclude(prop, tier, seed, pl, profiles, jobs, replayed, checks, bad, lines, extra, rng, t0)


def wanted_by(judge, case):
    pl = plan.PLAN[judge]
    only, mode = pl.get("only"), pl.get("mode")
    return (not only or any('"k":"%s"' % k in case for k in only)) and (not mode or '"m":"%s"' % mode in case)


MISBEHAVE = ['{"k":"mem","how":"%s"}' % h for h in ("leak", "overrun", "unset")]


def elsewhere(prop, tier, seed, pl, scratch, t0):
    """Decides a property by what happens on other targets, or to the memory."""
    rng = random.Random(seed)
    memory = pl.get("memory", False)
    on = pl["on"][tier]
    env = cargo_env()
    profiles = pl.get("profiles", ["dev"])
    judges = pl[tier]
    words = sorted({w for _, w in on} | {64})
    todo = []
    for _, jobs, dependent in judges:
        for j in jobs:
            for w in words if dependent else [64]:
                if (j, w) not in todo:
                    todo.append((j, w))
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        made = [ex.submit(targets.prepare, env, t, memory) for t, _ in on]
        built = ex.submit(lambda: [build("harness", p) for p in profiles])
        par = 3 if tier == "quick" else 1
        with concurrent.futures.ThreadPoolExecutor(max_workers=par) as tl:
            runs = list(tl.map(lambda x: run_tlc(x[0], scratch, tier, 4 if par == 3 else 8, seed, x[1]), todo))
        emitted = dict(zip(todo, runs))
        binaries = built.result()
        bad = []
        for m in made:
            try:
                m.result()
            except targets.Failed as e:
                raise Broken(str(e))
            except targets.Uncompiled as e:
                bad.append((str(e), "{}"))
    if bad:
        return conclude(prop, tier, seed, pl, profiles, runs, len(bad), len(bad), bad, ["{}"], {}, rng, t0)

    tasks = []
    native = {}
    for judge, jobs, dependent in judges:
        for target, word in on:
            cases = []
            for j in jobs:
                mine = [c for c in cases_of(emitted[j, word if dependent else 64]["out"]) if wanted_by(judge, c)]
                cases += targets.share(rng, mine, pl["share"][tier] // plan.COST.get(judge, 1) // len(jobs))
            tasks.append((target, judge, cases))
        native[judge] = [c for j in jobs for c in cases_of(emitted[j, 64]["out"]) if wanted_by(judge, c)]
        if memory and len(native[judge]) > pl["native"][tier]:
            native[judge] = rng.sample(native[judge], pl["native"][tier])
    for r in runs:
        os.remove(r["out"])

    bad = []
    checks = replayed = 0
    extra = {}
    lines = [c for _, _, cases in tasks for c in cases]
    try:
        n, k, x = targets.replay(env, tasks, memory, scratch)
        replayed += n
        checks += k
        extra["behaviours_interpreted_per_target"] = {t: sum(len(c) for u, _, c in tasks if u == t) for t, _ in on}
        if memory:
            bad += [(m, wrap(t, j, c)) for m, t, j, c in x]
        else:
            # What goes wrong here as well has nothing to do with the target.
            for j in sorted({j for _, _, j, _ in x}):
                mine = {c for _, _, i, c in x if i == j} & set(native[j])
                fails = set()
                if mine:
                    p = os.path.join(scratch, "here.jsonl")
                    for c in mine:
                        with open(p, "w") as f:
                            f.write(c + "\n")
                        if replay(binaries[0], j, p, scratch)[1]:
                            fails.add(c)
                bad += [("on %s: %s" % (t, m), wrap(t, j, c)) for m, t, i, c in x if i == j and c not in fails]
            if not bad:
                wrong = []
                for target, judge, cases in tasks:
                    w = [c for c in (corrupt(judge, c) for c in cases[:3]) if c]
                    if w and judge in pl["control"]:
                        wrong.append((target, judge, w))
                _, _, y = targets.replay(env, wrong, memory, scratch)
                for target, judge, _ in wrong:
                    if not any((t, j) == (target, judge) for _, t, j, _ in y):
                        raise Broken("corrupted behaviours of %s are accepted on %s" % (judge, target))
                extra["corrupted_behaviours_rejected"] = len(y)
        if memory:
            for b in binaries:
                for judge, cases in native.items():
                    p = os.path.join(scratch, "native.jsonl")
                    with open(p, "w") as f:
                        f.write("\n".join(cases) + "\n")
                    r, y = replay(b, judge, p, scratch, ["--memory"])
                    checks += r["checks"]
                    replayed += r["cases"]
                    bad += [(m, wrap("", judge, c)) for m, c in y]
            if not bad:
                for how in MISBEHAVE:
                    p = os.path.join(scratch, "misbehave.jsonl")
                    with open(p, "w") as f:
                        f.write(how + "\n")
                    if "unset" not in how and not replay(binaries[0], "P13", p, scratch, ["--memory"])[1]:
                        raise Broken("not noticed: " + how)
                    if not targets.replay(env, [(on[0][0], "P13", [how])], memory, scratch)[2]:
                        raise Broken("not noticed by Miri: " + how)
                extra["misbehaviours_noticed"] = len(MISBEHAVE)
    except targets.Failed as e:
        raise Broken(str(e))
    return conclude(prop, tier, seed, pl, profiles, runs, replayed, checks, bad, lines, extra, rng, t0)


def wrap(target, judge, cases):
    return "\n".join('{"on":"%s","as":"%s","case":%s}' % (target, judge, c) for c in cases.split("\n"))


def again_elsewhere(path, pl, profiles, scratch):
    env, memory = cargo_env(), pl.get("memory", False)
    groups = {}
    for line in open(path):
        c = json.loads(line)
        groups.setdefault((c["on"], c["as"]), []).append(json.dumps(c["case"]))
    bad = []
    for (target, judge), cases in groups.items():
        if target:
            targets.prepare(env, target, memory)
            bad += [(m, c) for m, _, _, c in targets.replay(env, [(target, judge, cases)], memory, scratch)[2]]
            continue
        p = os.path.join(scratch, "cases.jsonl")
        with open(p, "w") as f:
            f.write("\n".join(cases) + "\n")
        for prof in profiles:
            bad += replay(build("harness", prof), judge, p, scratch, ["--memory"])[1]
    for msg, case in bad:
        print("%s\n  %s" % (msg, case))
    return 1 if bad else 0


def conclude(prop, tier, seed, pl, profiles, jobs, replayed, checks, bad, lines, extra, rng, t0):
    known = known_findings(prop)
    listed = {c for c, _ in known}
    for c, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    fresh = [(m, c) for m, c in bad if c not in listed]
    samples = [s if len(s) < 600 else s[:600] + "..." for s in (x.strip() for x in rng.sample(lines, min(5, len(lines))))]

    evidence = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=sum(j["states"] for j in jobs),
            transitions=sum(j["transitions"] for j in jobs),
            traces_validated_against_impl=replayed,
            samples=samples,
            comparisons_with_the_code=checks,
            runs=[dict(module=j["module"], cfg=j["cfg"], states=j["states"], behaviours=j["cases"]) for j in jobs],
            profiles=profiles,
            **extra),
        assumptions=plan.ASSUMPTIONS + pl.get("assumptions", []),
        wall_s=round(time.time() - t0, 1),
        violations=len(fresh))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if not fresh:
        print("OK property=%s states=%d behaviours=%d comparisons=%d wall=%.1fs"
              % (prop, evidence["coverage"]["states"], replayed, checks, time.time() - t0))
        return 0
    rdir = os.path.join(HERE, "replays", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    for i, (msg, case) in enumerate(fresh[:5]):
        rp = os.path.join(rdir, "%d.jsonl" % i)
        with open(rp, "w") as f:
            f.write(case + "\n")
        print("%s\n  %s" % (msg, case[:1000]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1


if __name__ == "__main__":
    sys.exit(main())
