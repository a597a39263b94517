#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--only scenario] | check.py --replay FILE

Runs every scenario of a property (seeded generation, shrinking, replay; coverage-guided segments for the
scenarios marked fuzzable) against libraries built from /repo's working tree and rewrites evidence/<id>.json."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

import vbuild

VERIF = vbuild.VERIF
EVID = os.path.join(VERIF, "evidence")
FUZZABLE = 2
THREADED = 8
SLOW = 16
# seconds of coverage-guided search per fuzzable scenario
FUZZ_QUICK = {"P13": 8, "P18": 8}
FUZZ_THOROUGH = 240
LEVELS = {"P05": "fault_enumeration"}
ASAN = "detect_odr_violation=0:detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:max_allocation_size_mb=4096:quarantine_size_mb=32"
TSAN = "halt_on_error=0:exitcode=0:report_signal_unsafe=0:log_path=/dev/null:die_after_fork=0:flush_memory_ms=0"


def env_for(variant, libdir, scratch="/tmp"):
    e = dict(os.environ, DSTU_LIBDIR=libdir, LC_ALL="C.UTF-8", ASAN_OPTIONS=ASAN, TSAN_OPTIONS=TSAN,
             UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=0:exitcode=99")
    if variant == "opt":
        e["ASAN_OPTIONS"] = ASAN.replace("quarantine_size_mb=32", "quarantine_size_mb=0:thread_local_quarantine_size_kb=0")
    e.pop("OPENSSL_ENGINES", None)
    e["DSTU_SCRATCH"] = scratch
    e["DSTU_SHIM"] = vbuild.build_shim()
    e["DSTU_JAVA"] = vbuild.build_java()
    e["DSTU_SAN_LIBDIR"] = vbuild.build_libs("asan")
    e["DSTU_SAN_RT"] = vbuild.asan_runtime()
    e["DSTU_FIXTURES"] = os.path.join(VERIF, "fixtures")
    return e


def known_findings(prop):
    """open findings: lines 'KNOWN-FINDING: property=<id> scenario=<name> match=<substring of the failure> :: <what fails>'"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN-FINDING: property=" + prop + " "):
                out.append(line.strip())
    return out


class Checker:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.results, self.violations, self.fuzz = [], [], []
        self.tmp = tempfile.mkdtemp(prefix="dstuv-")
        self.rdir = os.path.join(EVID, "replay")
        os.makedirs(self.rdir, exist_ok=True)

    def known_hit(self, sc, msg):
        for k in known_findings(self.prop):
            f = dict(x.split("=", 1) for x in k.split(" :: ")[0].split(" ", 1)[1].split(" ", 2) if "=" in x)
            if f.get("scenario") == sc and f.get("match") and f["match"] in msg:
                return k
        return None

    def scenario_list(self, exe, env):
        out = subprocess.run([exe, "list"], env=env, stdout=subprocess.PIPE, text=True, check=True).stdout
        r = []
        for line in out.splitlines():
            p, n, q, t, fl, var = line.split()
            if p == self.prop:
                r.append(dict(name=n, quick=int(q), thorough=int(t), flags=int(fl), variant=var))
        return r

    def run(self, only=None):
        exe = {"asan": vbuild.build_harness("asan")}
        lib = {"asan": vbuild.build_libs("asan")}
        env = {"asan": env_for("asan", lib["asan"], self.tmp)}
        scen = self.scenario_list(exe["asan"], env["asan"])
        if only:
            scen = [s for s in scen if s["name"] == only]
        if not scen:
            raise SystemExit(f"no scenario for {self.prop}")
        for v in {s["variant"] for s in scen} - {"asan"}:
            exe[v], lib[v] = vbuild.build_harness(v), vbuild.build_libs(v)
            env[v] = env_for(v, lib[v], self.tmp)
        for s in scen:
            v = s["variant"]
            n = s[self.tier]
            if not n:
                continue
            wall = 300 if self.tier == "quick" else 3000
            if self.tier == "quick":
                wall = max(60, 420 / len(scen))
            out = os.path.join(self.tmp, s["name"] + ".json")
            rep = os.path.join(self.rdir, f"{self.prop}-{s['name']}.txt")
            if os.path.exists(rep):
                os.unlink(rep)
            w = 8
            if s["flags"] & THREADED:
                w = 2
            if s["flags"] & SLOW:
                w = 1
            cmd = [exe[v], "run", s["name"], str(self.seed), str(n), str(w), str(wall), out, rep]
            p = subprocess.run(cmd, env=env[v], stdout=sys.stderr)
            if not os.path.exists(out):
                raise RuntimeError(f"scenario {s['name']} gave no report (status {p.returncode})")
            r = json.load(open(out))
            r["variant"] = v
            self.results.append(r)
            print(f"  {s['name']}: {r['evaluations']}/{r['planned']} cases, {r['distinct_nontrivial']} distinct non-trivial, "
                  f"{r['checks']} comparisons, {r['wall_s']} s" + (f", {r['unconfirmed']} unconfirmed" if r["unconfirmed"] else "") +
                  (", time up" if r["timeup"] else ""), flush=True)
            if r["violated"] and self.known_hit(s["name"], r["message"]):
                print(f"  {s['name']}: listed finding: {r['message']}", flush=True)
                continue
            if r["violated"]:
                print(f"  FAILURE {s['name']}: {r['message']}", flush=True)
                self.violations.append((s["name"], r["message"], r["replay"]))
                break
        if not self.violations:
            for s in scen:
                if not s["flags"] & FUZZABLE:
                    continue
                secs = FUZZ_QUICK.get(self.prop, 0) if self.tier == "quick" else FUZZ_THOROUGH
                if secs:
                    self.run_fuzz(s, exe["asan"], env["asan"], secs)
                if self.violations:
                    break

    def run_fuzz(self, s, exe, env, secs):
        base = os.path.join(self.tmp, "fuzz-" + s["name"])
        corpus, art = base + "-corpus", base + "-art"
        os.makedirs(corpus)
        os.makedirs(art)
        subprocess.run([exe, "seedcorpus", s["name"], str(self.seed), "60", corpus], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        jobs = 8
        procs = []
        for j in range(jobs):
            log = open(f"{base}-{j}.log", "w")
            procs.append(subprocess.Popen(
                [exe, "fuzz", s["name"], f"-seed={self.seed * 100 + j + 1}", f"-max_total_time={secs}", "-max_len=6000", "-reload=1", "-timeout=120",
                 "-rss_limit_mb=3500", "-detect_leaks=0", "-print_final_stats=1", "-verbosity=1", f"-artifact_prefix={art}/{j}-", corpus],
                env=env, stdout=log, stderr=subprocess.STDOUT))
        for p in procs:
            try:
                p.wait(secs + 200)
            except subprocess.TimeoutExpired:
                p.kill()
        execs, cov = 0, 0
        for j in range(jobs):
            for line in open(f"{base}-{j}.log", errors="replace"):
                if "stat::number_of_executed_units" in line:
                    execs += int(line.split(":")[-1])
                if " cov: " in line:
                    try:
                        cov = max(cov, int(line.split(" cov: ")[1].split()[0]))
                    except ValueError:
                        pass
        self.fuzz.append(dict(scenario=s["name"], executions=execs, coverage_edges=cov, corpus=len(os.listdir(corpus)), seconds=secs))
        print(f"  {s['name']} (coverage-guided): {execs} executions, {cov} edges", flush=True)
        for a in sorted(os.listdir(art)):
            if "timeout-" in a or "slow-unit" in a or "oom-" in a:
                if "oom-" not in a and "timeout-" not in a:
                    continue
            rep = os.path.join(self.rdir, f"{self.prop}-{s['name']}-fuzz.txt")
            p = subprocess.run([exe, "confirm", s["name"], os.path.join(art, a), rep], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            if p.returncode == 1:
                msg = p.stdout.strip().splitlines()[-1]
                print(f"  FAILURE {s['name']}: {msg}", flush=True)
                self.violations.append((s["name"], msg, rep))
                return

    def evidence(self, wall, viol):
        ev = sum(r["evaluations"] for r in self.results) + sum(f["executions"] for f in self.fuzz)
        rule = "; ".join(f"{r['scenario']}: {r['rule']}" for r in self.results)
        samples = []
        for r in self.results:
            for x in r["samples"][:3]:
                samples.append({"scenario": r["scenario"], "case": x})
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level=LEVELS.get(self.prop, "exploration"),
                 coverage=dict(
                     evaluations=ev,
                     distinct_nontrivial=sum(r["distinct_nontrivial"] for r in self.results),
                     rule="cases are decoded from choice bytes (seeded by VERIF_SEED, scenario name and case number). Non-trivial: " + rule,
                     samples=samples,
                     oracle_comparisons=sum(r["checks"] for r in self.results),
                     scenarios=[{k: r[k] for k in ("scenario", "variant", "planned", "evaluations", "checks", "nontrivial", "distinct_nontrivial", "discards",
                                                   "labels", "wall_s", "unconfirmed", "unconfirmed_msgs", "timeup")} for r in self.results],
                     coverage_guided=self.fuzz),
                 assumptions=["OpenSSL 3.0 as installed (big numbers, GF(2^m) point arithmetic, ASN.1 and EVP dispatch) is correct",
                              "the reference models in harness/ref.cpp and harness/dk.cpp follow the standards (checked against published vectors at start-up)"],
                 wall_s=round(wall, 2), violations=viol)
        os.makedirs(EVID, exist_ok=True)
        p = os.path.join(EVID, self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(e, f, indent=1)
        os.rename(p + ".tmp", p)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        first = open(a.replay).read().split("\nscenario ")[1].split()[0]
        exe = vbuild.build_harness("asan")
        out = subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True).stdout
        var = [x.split()[5] for x in out.splitlines() if x.split()[1] == first][0]
        exe, lib = vbuild.build_harness(var), vbuild.build_libs(var)
        return subprocess.run([exe, "replay", a.replay], env=env_for(var, lib)).returncode
    c = Checker(a.property, a.tier, a.seed)
    try:
        c.run(a.only)
    except vbuild.BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    known = known_findings(a.property)
    real = []
    for (sc, msg, rep) in c.violations:
        hit = c.known_hit(sc, msg)
        if not hit:
            real.append((sc, msg, rep))
    for k in known:
        print(k.split(" :: ")[0].split(" scenario=")[0] + " " + k.split(" :: ")[1])
    c.evidence(time.time() - t0, len(real))
    for (sc, msg, rep) in real:
        print(f"VIOLATION property={a.property} replay={rep}")
    print(f"{a.property} {a.tier}: {'violated' if real else 'held'} in {time.time() - t0:.1f} s")
    return 1 if real else 0


if __name__ == "__main__":
    sys.exit(main())
