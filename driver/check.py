#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's current working tree.
  1. contracts: the VC generator in /verif/govc re-reads the source, generates every obligation of the
     contracts the property rests on and has the solvers discharge them;
  2. bounded stand-in: a concrete harness compiled against the same source (labelled bounded).
Exit 0: held; exit 1 with a VIOLATION line otherwise.
"""
import glob
import json
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.27.3"
NCPU = max(1, min(8, os.cpu_count() or 1))
T0 = time.time()
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")

sys.path.insert(0, os.path.join(VERIF, "driver"))
from config import PROPS  # noqa: E402


def env():
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH=GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", ""),
        GOROOT=GOROOT, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
        GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOTRACEBACK="single",
    )
    return e


def sh(cmd, cwd, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout: " + str(e)


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.cfg = PROPS[prop]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.notes = []
        self.known = []
        self.cov = {}
        self.assumptions = []
        self.violation = None

    # ---- bounded concrete harness ----

    def build(self, kind, flags, exclude):
        pkg = self.cfg["harness"]
        ov = {}
        for f in glob.glob(os.path.join(VERIF, "harness", pkg, "*.go")):
            if os.path.basename(f) in exclude:
                continue
            ov["%s/internal/zzverif/%s/%s" % (REPO, pkg, os.path.basename(f))] = f
        ovf = os.path.join(self.tmp, "overlay-%s.json" % kind)
        with open(ovf, "w") as fp:
            json.dump({"Replace": ov}, fp)
        exe = os.path.join(self.tmp, "h-" + kind)
        rc, out = sh(["go", "build"] + flags + ["-overlay", ovf, "-o", exe, "./internal/zzverif/" + pkg], REPO)
        if rc != 0:
            return None, out
        return exe, ""

    def shard(self, exe, i, n, secs, seed, extra, tag):
        base = os.path.join(self.tmp, "%s-%d" % (tag, i))
        cmd = [exe, "-prop", self.prop, "-seed", str(seed), "-from", str(i), "-step", str(n), "-n", "1000000000",
               "-time", "%ds" % secs, "-out", base + ".json", "-journal", base + ".j"] + extra
        log = open(base + ".log", "w")
        e = env()
        e["GOMAXPROCS"] = "2" if n > 1 else "8"
        e["GOMEMLIMIT"] = "1500MiB"
        e["VERIF_SCRATCH"] = self.tmp
        p = subprocess.Popen(cmd, cwd=self.tmp, env=e, stdout=log, stderr=subprocess.STDOUT)
        return p, base, cmd

    def collect(self, p, base, cmd, deadline):
        try:
            rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -99
        res = None
        try:
            with open(base + ".json") as fp:
                res = json.load(fp)
        except (OSError, ValueError):
            pass
        log = ""
        try:
            with open(base + ".log", errors="replace") as fp:
                log = fp.read(20000)
        except OSError:
            pass
        case = -1
        try:
            with open(base + ".j", "rb") as fp:
                case = struct.unpack("<q", fp.read(8))[0]
        except (OSError, struct.error):
            pass
        return rc, res, log, case, cmd

    def harness(self, secs, extra=(), seed=None):
        """Runs the harness over all cores; returns a violation dict or None."""
        total, nontriv, samples = 0, 0, []
        seed = self.seed if seed is None else seed
        viol = None
        builds = self.cfg.get("builds", [("plain", [], 1.0)])
        for kind, flags, share in builds:
            exe, out = self.build(kind, flags, self.cfg.get("exclude", []))
            if exe is None:
                rc, o2 = sh(["go", "build", "./..."], REPO)
                if rc != 0:
                    print("the repository does not build:\n" + o2[-3000:])
                    sys.exit(2)
                self.notes.append("harness (%s) does not build against this tree: %s" % (kind, out[-1500:]))
                continue
            n = 1 if kind == "race" else NCPU
            s = max(3, int(secs * share))
            ps = [self.shard(exe, i, n, s, seed, list(extra) + (["-probes"] if i == 0 else []), kind) for i in range(n)]
            deadline = time.time() + s + 180
            for p in ps:
                rc, res, log, case, cmd = self.collect(*p, deadline)
                if res:
                    total += res.get("evals", 0)
                    nontriv += res.get("nontrivial", 0)
                    if len(samples) < 4:
                        samples += [x[:400] for x in (res.get("samples") or [])][:2]
                    for k in res.get("known") or []:
                        if k not in self.known:
                            self.known.append(k)
                if rc == 0 and res:
                    continue
                if rc == 1 and res and res.get("violation"):
                    v = res["violation"]
                    v["build"] = kind
                    viol = viol or v
                    continue
                # a crash, a data race report, a kill or a hang: confirm it on its own
                v = self.confirm(exe, kind, cmd, rc, case, log, seed)
                if v:
                    viol = viol or v
        self.cov["evaluations"] = self.cov.get("evaluations", 0) + total
        self.cov["distinct_nontrivial"] = self.cov.get("distinct_nontrivial", 0) + nontriv
        self.cov["samples"] = (self.cov.get("samples") or []) + samples
        return viol

    def confirm(self, exe, kind, cmd, rc, case, log, seed):
        race = "WARNING: DATA RACE" in log
        one = dict(zip(cmd[1::2], cmd[2::2]))
        v = {"prop": self.prop, "seed": seed, "case": case, "build": kind, "exit": rc, "msg": "process died with status %d" % rc, "output": log[:8000]}
        if race:
            v["msg"] = "data race reported by the race detector"
            return v
        for _ in range(2):
            p, base, c2 = self.shard(exe, 0, 1, 60, seed, [], "confirm")
            p.kill()
            p.wait()
            c2 = [exe, "-prop", self.prop, "-seed", str(seed), "-from", str(max(case, 0)), "-step", one.get("-step", "1"), "-n", "1" if self.cfg.get("independent", True) else "50", "-time", "60s", "-out", base + ".json"]
            rc2, out = sh(c2, self.tmp, 130)
            if rc2 == 1:
                try:
                    with open(base + ".json") as fp:
                        r = json.load(fp)
                    if r.get("violation"):
                        r["violation"]["build"] = kind
                        return r["violation"]
                except (OSError, ValueError):
                    pass
            if rc2 not in (0, 1, -9, 137):
                v["output"] = out[:8000]
                return v
        if rc not in (-9, 137, -99, 0) and any(x in log for x in ("fatal error:", "panic:", "SIGSEGV", "unexpected fault address", "found bad pointer", "SIGABRT")):
            if "out of memory" not in log and "cannot allocate" not in log:
                return v
        self.notes.append("a harness process ended with status %d and did not do so again: %s" % (rc, log[-300:]))
        return None

    # ---- contracts ----

    def contracts(self):
        """Runs the verifier; returns (failed obligations, report) or None when nothing is under contract."""
        import proof
        return proof.run(self)

    def main(self):
        try:
            return self.main2()
        finally:
            if os.environ.get("VERIF_KEEP"):
                print("kept", self.tmp)
            else:
                shutil.rmtree(self.tmp, ignore_errors=True)

    def main2(self):
        secs = self.cfg.get(self.tier, 25 if self.tier == "quick" else 300)
        failed = []
        rep = None
        if self.cfg.get("contracts"):
            failed, rep = self.contracts()
        viol = None
        if self.cfg.get("harness"):
            viol = self.harness(secs)
            if failed and not viol:
                # the proof fails: look harder for an input that shows it
                viol = self.harness(max(45, secs), seed=self.seed + 7919)
        replay = os.path.join(EVID, self.prop + ".replay.json")
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        if os.path.exists(replay):
            os.remove(replay)
        line = None
        if viol or failed:
            doc = {"property": self.prop, "tier": self.tier, "failed_obligations": failed[:50]}
            if viol:
                doc["violation"] = viol
                doc["how_to_replay"] = "VERIF_SEED=%s python3 /verif/driver/check.py %s replays the run; the single case: harness %s (build %s) -prop %s -seed %s -from %s -n 1" % (
                    self.seed, self.prop, self.cfg.get("harness"), viol.get("build"), self.prop, viol.get("seed"), viol.get("case"))
            with open(replay, "w") as fp:
                json.dump(doc, fp, indent=1)
            line = "VIOLATION property=%s replay=%s" % (self.prop, replay)
            if not viol and not any(f.get("confirmed") for f in failed):
                line += " no-failing-input-found"
        self.evidence(rep, failed, viol)
        for k in self.known:
            if line is None:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for n in self.notes:
            print("note:", n[:600])
        if line:
            for f in failed[:10]:
                print("failed obligation: %s: %s" % (f.get("name"), str(f.get("detail"))[:300]))
            if viol:
                print("failing case:", str(viol.get("msg"))[:1500])
            print(line)
            return 1
        print("OK property=%s %s %.1fs" % (self.prop, json.dumps({k: v for k, v in self.cov.items() if isinstance(v, int)}), time.time() - T0))
        return 0

    def evidence(self, rep, failed, viol):
        level = self.cfg["level"]
        cov = self.cov
        cov.setdefault("evaluations", 0)
        cov["rule"] = "bounded stand-in: " + self.cfg["rule"]
        if rep:
            cov.update(rep)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions + self.cfg.get("assumptions", []), "wall_s": round(time.time() - T0, 2),
              "violations": 1 if (viol or failed) else 0, "notes": [n[:500] for n in self.notes], "known_findings": self.known}
        os.makedirs(os.path.join(EVID), exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1)


if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(Check(prop, tier).main())
