#!/usr/bin/env python3
"""Runs the check of one property:  check.py P01 [--tier quick|thorough]
                                    check.py --replay replays/P01-1.json

Builds the drivers named in checks.json against /repo's working tree, runs their
cases in parallel processes, and turns what the monitors reported into a verdict:
exit 0 (held), exit 1 with VIOLATION lines, exit 2 (no verdict: harness error).
"""
import concurrent.futures
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import build as builder  # noqa: E402

NPROC = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
MAX_RESTARTS = 12

ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:"
                    "allocator_may_return_null=1:handle_abort=1:detect_container_overflow=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1",
    "OMP_NUM_THREADS": "1",
    "MALLOC_PERTURB_": "90",  # what was never written is not zero
})


def load_known(prop):
    known = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def crash_key(scenario, rc, err):
    m = re.search(r"EIGEN-MONITOR: (.*?) at (\S+):\d+", err)
    if m:
        return "eigen-assert:%s" % scenario, "Eigen precondition violated: %s in %s" % (m.group(1), m.group(2))
    m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+)", err)
    if m:
        f = re.search(r"#\d+ 0x\w+ in (.*?/repo/\S+)", err)
        return ("sanitizer:%s" % scenario,
                "%s: %s %s" % (m.group(1), m.group(2), f.group(1)[:200] if f else ""))
    m = re.search(r"runtime error: (.*)", err)
    if m:
        f = re.search(r"(\S+): runtime error", err)
        return "ubsan:%s" % scenario, "undefined behaviour: %s at %s" % (m.group(1), f.group(1) if f else "?")
    m = re.search(r"Assertion .* failed|terminate called.*|what\(\):.*|Assertion '.*' failed", err)
    what = m.group(0) if m else ""
    if rc < 0:
        try:
            name = signal.Signals(-rc).name
        except ValueError:
            name = str(-rc)
        return "crash:%s" % scenario, "process died with %s %s" % (name, what)
    return "exit:%s" % scenario, "process ended with status %d %s" % (rc, what or err[-300:])


class Shard:
    """One process after another until every case of the shard has run."""

    def __init__(self, stage, exe, seed, tier, shard, nshards, tmp):
        self.stage, self.exe, self.seed, self.tier = stage, exe, seed, tier
        self.shard, self.n, self.tmp = shard, nshards, tmp
        self.violations, self.summaries, self.errors, self.inconclusive = [], [], [], []

    def command(self, out, progress, extra):
        cmd = list(self.stage.get("wrap", [])) + [
            self.exe, "--out", out, "--progress", progress, "--seed", str(self.seed),
            "--tier", self.tier, "--timeout", str(self.stage.get("timeout", 60))]
        if "scenario" in self.stage:
            cmd += ["--scenario", self.stage["scenario"]]
        scale = self.stage.get("scale", {}).get(self.tier)
        if scale:
            cmd += ["--scale", str(scale)]
        return cmd + extra

    def run_once(self, tag, extra):
        out = os.path.join(self.tmp, tag + ".out")
        prog = os.path.join(self.tmp, tag + ".progress")
        errf = os.path.join(self.tmp, tag + ".err")
        with open(errf, "wb") as ef:
            r = subprocess.run(self.command(out, prog, extra), stdout=subprocess.DEVNULL, stderr=ef,
                               stdin=subprocess.DEVNULL, env=ENV, cwd=self.tmp)
        with open(errf, "rb") as ef:
            err = ef.read(400000).decode("utf-8", "replace")
        lines = []
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    lines.append(json.loads(l))
                except ValueError:
                    pass
        where = None
        if os.path.exists(prog):
            m = re.match(r"(\S+),(\d+)", open(prog).read())
            if m:
                where = (m.group(1), int(m.group(2)))
        return r.returncode, err, lines, where

    def run(self):
        extra = ["--shard", "%d/%d" % (self.shard, self.n)]
        start = []
        for attempt in range(MAX_RESTARTS + 1):
            tag = "%s-%s-%d-%d" % (self.stage["variant"], self.stage["driver"], self.shard, attempt)
            rc, err, lines, where = self.run_once(tag, extra + start)
            done = False
            for l in lines:
                if l["t"] == "violation":
                    # Stages that run the workload of another property under a
                    # sanitizer leave its own monitors to that property.
                    if self.stage.get("monitors") != "memory":
                        self.violations.append(l)
                elif l["t"] == "summary":
                    self.summaries.append(l)
                    done = True
            if done:
                if rc != 0:  # e.g. a leak reported at exit, or a valgrind error status
                    key, msg = crash_key("at-exit", rc, err)
                    self.violations.append(dict(t="violation", scenario="at-exit", case=-1, key=key, msg=msg,
                                                stderr=err[-3000:]))
                return self
            if where is None:
                self.errors.append("driver %s did not start (status %s): %s" % (self.exe, rc, err[-500:]))
                return self
            scen, case = where
            if rc == 97:  # watchdog: inconclusive until it repeats alone, with more time
                rc2, err2, _, _ = self.run_once(tag + "-again", [
                    "--scenario", scen, "--case", str(case), "--timeout", str(4 * self.stage.get("timeout", 60))])
                if rc2 == 97:
                    self.violations.append(dict(t="violation", scenario=scen, case=case, key="hang:%s" % scen,
                                                msg="does not terminate"))
                elif rc2 != 0:
                    key, msg = crash_key(scen, rc2, err2)
                    self.violations.append(dict(t="violation", scenario=scen, case=case, key=key, msg=msg))
                else:
                    self.inconclusive.append("%s,%d slow" % where)
            elif rc == 3:
                self.errors.append("harness error in %s,%d" % where)
                return self
            else:
                key, msg = crash_key(scen, rc, err)
                self.violations.append(dict(t="violation", scenario=scen, case=case, key=key, msg=msg,
                                            stderr=err[-3000:]))
            start = ["--from", "%s,%d" % (scen, case)]
        self.inconclusive.append("shard %d gave up after %d restarts" % (self.shard, MAX_RESTARTS))
        return self


def merge(total, s):
    total["cases"] += s["cases"]
    for k, v in s["counts"].items():
        total["counts"][k] = total["counts"].get(k, 0) + v
    for k, v in s["maxima"].items():
        total["maxima"][k] = max(total["maxima"].get(k, v), v)
    total["distinct"].update(s["distinct"])
    for x in s["samples"]:
        if len(total["samples"]) < 6 and x not in total["samples"]:
            total["samples"].append(x)


def main():
    args = sys.argv[1:]
    specs = json.load(open(os.path.join(ROOT, "checks.json")))
    if args and args[0] == "--replay":
        rp = json.load(open(args[1]))
        stage = rp["stage"]
        exe = builder.build(stage["variant"], stage["driver"], stage.get("extra_sources", ()))
        cmd = stage.get("wrap", []) + [exe, "--seed", str(rp["seed"]), "--tier", rp["tier"], "--scenario",
                                       rp["scenario"], "--case", str(rp["case"]), "--timeout", "600"]
        print(" ".join(cmd))
        return subprocess.run(cmd, env=ENV).returncode
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = specs[prop]
    t0 = time.time()
    total = dict(cases=0, counts={}, maxima={}, distinct=set(), samples=[])
    violations, errors, inconclusive, stages_info = [], [], [], []
    replay_dir = os.path.join(ROOT, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    for f in os.listdir(replay_dir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(replay_dir, f))

    for stage in spec["stages"]:
        if stage.get("tier") and stage["tier"] != tier:
            continue
        t1 = time.time()
        exe = builder.build(stage["variant"], stage["driver"], stage.get("extra_sources", ()))
        if exe is None:
            print("ERROR property=%s: cannot build %s/%s" % (prop, stage["variant"], stage["driver"]))
            return 2
        tb = time.time() - t1
        tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        n = min(NPROC, stage.get("jobs", NPROC))
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            shards = list(ex.map(lambda i: Shard(stage, exe, seed, tier, i, n, tmp).run(), range(n)))
        stage_cases = 0
        for s in shards:
            errors += s.errors
            inconclusive += s.inconclusive
            for x in s.summaries:
                merge(total, x)
                stage_cases += x["cases"]
            for v in s.violations:
                v["stage"] = stage
                violations.append(v)
        shutil.rmtree(tmp, ignore_errors=True)
        stages_info.append(dict(driver=stage["driver"], variant=stage["variant"], cases=stage_cases,
                                build_s=round(tb, 1), run_s=round(time.time() - t1 - tb, 1)))
        if stage_cases == 0 and not any(s.violations for s in shards):
            errors.append("stage %s/%s ran no case to the end" % (stage["variant"], stage["driver"]))

    known = load_known(prop)
    seen_known, fresh = {}, []
    for v in violations:
        if v["key"] in known:
            seen_known[v["key"]] = v
        else:
            fresh.append(v)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2),
        violations=len(fresh),
        coverage=dict(
            evaluations=total["cases"], distinct_nontrivial=len(total["distinct"]), rule=spec["rule"],
            samples=total["samples"], monitor_evaluations=int(total["counts"].pop("monitor_evaluations", 0)),
            observed={k: (int(v) if float(v).is_integer() else v) for k, v in sorted(total["counts"].items())},
            maxima=total["maxima"], stages=stages_info, inconclusive=inconclusive,
            known_findings_seen=sorted(seen_known)),
        assumptions=spec.get("assumptions", []))
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for k, v in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    if fresh:
        by_key = {}
        for v in fresh:
            by_key.setdefault(v["key"], []).append(v)
        for i, (k, vs) in enumerate(sorted(by_key.items())[:10]):
            v = vs[0]
            rel = os.path.join("replays", "%s-%d.json" % (prop, i + 1))
            with open(os.path.join(ROOT, rel), "w") as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, scenario=v["scenario"], case=v["case"],
                               key=k, message=v["msg"], stage=v["stage"], stderr=v.get("stderr", ""),
                               others=len(vs) - 1), f, indent=1)
            print("  [%s] case %s,%s (%d in all): %s" % (k, v["scenario"], v["case"], len(vs), v["msg"][:400]))
            print("VIOLATION property=%s replay=%s" % (prop, rel))
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR property=%s: %s" % (prop, e))
        return 2
    if evidence["coverage"]["distinct_nontrivial"] < 2 or evidence["coverage"]["monitor_evaluations"] == 0:
        print("ERROR property=%s: the monitors observed nothing" % prop)
        return 2
    print("held property=%s cases=%d distinct=%d monitors=%d wall=%.1fs" % (
        prop, total["cases"], len(total["distinct"]), evidence["coverage"]["monitor_evaluations"],
        evidence["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
