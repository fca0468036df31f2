#!/usr/bin/env python3
"""Driver of the checks: builds the monitors against /repo's working tree and runs one.

  python3 check.py ID [--tier quick|thorough] [--seed N] [--case SUB:INDEX]
  python3 check.py --setup          build once, to warm the build cache
  python3 check.py --list

Exit 0: the property held on everything the monitors observed.
Exit 1: a line "VIOLATION property=<id> replay=<path>" says what broke it.
Exit 2: the check itself could not run (the code does not build, for example).
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
RACE = {"C28"}           # properties whose run needs the race detector
TIMEOUT = {"quick": 840, "thorough": 6 * 3600}


def go_env():
    env = dict(os.environ)
    home = env.get("HOME") or "/root"
    if not os.path.isdir(home) or not os.access(home, os.W_OK):
        home = "/root"
    env["HOME"] = home
    env["PATH"] = env.get("PATH", "") + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for var, val in (("GOPATH", "/root/go"), ("GOMODCACHE", "/root/go/pkg/mod"), ("GOCACHE", "/root/.cache/go-build")):
        if not env.get(var):
            env[var] = val
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GONOSUMDB="*",
               GOSUMDB="off", LANG="C.UTF-8")
    return env


def overlay(work, dropped):
    rep = {}
    adapters = os.path.join(work, "adapters")
    for f in sorted(os.listdir(adapters)):
        if not f.endswith(".go") or f in dropped:
            continue
        pkg, name = f[:-3].split("__")
        rep[os.path.join(REPO, pkg, "zz_verif_%s.go" % name)] = os.path.join(adapters, f)
    path = os.path.join(work, "overlay.json")
    with open(path, "w") as fh:
        json.dump({"Replace": rep}, fh)
    return path


def build(work, race):
    """Builds the harness against the working tree. Adapters to internal
    functions that no longer exist (or changed type) are left out one by one;
    their monitors are then reported as inconclusive."""
    for d in ("h", "reg", "adapters"):
        shutil.copytree(os.path.join(HERE, "harness", d), os.path.join(work, d))
    env = go_env()
    gomod = os.path.join(work, "h", "go.mod")
    with open(gomod) as fh:
        text = fh.read()
    with open(gomod, "w") as fh:
        fh.write(text.replace("=> /repo", "=> " + REPO))
    dropped = set()
    out = os.path.join(work, "verifharness")
    for _ in range(40):
        cmd = ["go", "build", "-overlay", overlay(work, dropped), "-o", out]
        if race:
            cmd.append("-race")
        cmd.append(".")
        r = subprocess.run(cmd, cwd=os.path.join(work, "h"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return out, dropped
        new = set()
        for pkg, name in re.findall(r"(?:^|[/\s])([A-Za-z0-9_]+)/(?:zz_verif_)?([A-Za-z0-9_]+)\.go:\d+", r.stdout):
            f = "%s__%s.go" % (pkg, name)
            if os.path.exists(os.path.join(work, "adapters", f)):
                new.add(f)
        for f in re.findall(r"adapters/([A-Za-z0-9_]+__[A-Za-z0-9_]+\.go)", r.stdout):
            new.add(f)
        new -= dropped
        if not new:
            sys.stderr.write(r.stdout)
            return None, dropped
        dropped |= new
    return None, dropped


def violation(prop, message, extra, work_stderr):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-crash.json" % prop)
    extra = dict(extra, property=prop, message=message, stderr=work_stderr[-20000:])
    with open(path, "w") as fh:
        json.dump(extra, fh, indent=1)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    print("  " + message)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--case", default="")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.tier not in TIMEOUT:
        a.tier = "quick"
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        if a.setup:
            for race in (False, True):
                sub = os.path.join(work, "race" if race else "plain")
                os.mkdir(sub)
                out, dropped = build(sub, race)
                if out is None:
                    print("setup: build failed")
                    return 2
                print("built", "with" if race else "without", "race detector; adapters left out:", sorted(dropped))
            return 0
        return run(a, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(a, work):
    prop = a.id
    start = time.time()
    out, dropped = build(work, prop in RACE)
    if out is None:
        print("%s: the code under test does not build with the monitors" % prop)
        return 2
    if dropped:
        print("left out (internal functions not found):", ", ".join(sorted(dropped)))
    evidence = os.path.join(HERE, "evidence", prop + ".json")
    if a.case:
        evidence = os.path.join(work, "evidence.json")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replays = os.path.join(HERE, "replays")
    journal = os.path.join(work, "journal")
    scratch = os.path.join(work, "scratch")
    os.mkdir(scratch)
    env = go_env()
    env.update(TMPDIR=scratch, GORACE="halt_on_error=0 exitcode=66 history_size=3")
    cmd = [out, prop, a.tier, str(a.seed), evidence, journal, replays, os.path.join(HERE, "known_findings.jsonl"), a.case]
    errpath = os.path.join(work, "stderr")
    timed_out = False
    for attempt in range(2):
        with open(errpath, "wb") as err:
            p = subprocess.Popen(cmd, cwd=scratch, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=err)
            try:
                stdout, _ = p.communicate(timeout=TIMEOUT[a.tier] - (time.time() - start))
            except subprocess.TimeoutExpired:
                p.kill()
                stdout, _ = p.communicate()
                timed_out = True
        if p.returncode == -9 and not timed_out and attempt == 0:
            continue  # ended from outside (memory guard of the sandbox)
        break
    stdout = stdout.decode("utf-8", "replace")
    with open(errpath, "rb") as fh:
        stderr = fh.read().decode("utf-8", "replace")
    sys.stdout.write(stdout)
    sys.stderr.write(stderr[-6000:])
    rc = p.returncode
    case = ""
    try:
        with open(journal) as fh:
            case = fh.read().strip()
    except OSError:
        pass
    info = {"tier": a.tier, "seed": a.seed, "case": case, "exit": rc,
            "replay_cmd": "python3 %s %s --tier %s --seed %s --case %r" % (os.path.abspath(__file__), prop, a.tier, a.seed, case)}
    if timed_out:
        print("%s: not finished in time, last case %s: inconclusive" % (prop, case))
        return 2
    races = stderr.count("WARNING: DATA RACE")
    verdict = None
    if prop in RACE and races:
        verdict = "the race detector reported %d data races" % races
    elif rc == 97:
        verdict = "case %s did not finish within its CPU budget" % case
    elif rc == 98:
        verdict = "case %s exceeded its memory budget" % case
    elif rc == 96:
        verdict = "case %s blocked for ever" % case
    elif rc not in (0, 1) and "harnessError" not in stderr and re.search(r"^(fatal error: |panic: |runtime: goroutine stack exceeds)", stderr, re.M):
        verdict = "case %s crashed the process" % case
    if verdict:
        if rc != 1 or "VIOLATION property=" not in stdout:
            violation(prop, verdict, info, stderr)
        if not a.case and not os.path.exists(evidence):
            pass
        if rc not in (0, 1, 66) and not a.case:
            # the harness was cut short: record what is known
            with open(evidence, "w") as fh:
                json.dump({"property": prop, "tier": a.tier, "seed": int(a.seed) if str(a.seed).isdigit() else 0, "level": "exploration",
                           "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "run cut short by the reported violation",
                                        "samples": [info]},
                           "wall_s": time.time() - start, "violations": 1}, fh, indent=1)
        return 1
    if rc in (0, 1):
        return rc
    return 2


if __name__ == "__main__":
    sys.exit(main())
