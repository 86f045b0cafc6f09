"""Runs the verifier (govc) on the contracts a property rests on."""
import fnmatch
import json
import os
import re
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = [
    "the go/ssa front end (golang.org/x/tools) translating the source that is compiled",
    "the verification condition generator /verif/govc (path execution, sequence normalisation, loop invariant inference checked inductively)",
    "z3 (two versions) and cvc5",
    "partial correctness: termination is not proved",
    "64-bit little-endian machine (amd64/arm64 layout); objects and slices shorter than 2^47 bytes",
    "distinct allocations and distinct typed regions do not overlap; spare capacity of a caller's buffer is not shared with the message",
    "error values are compared by nilness only; results other than the error are not compared when it is non-nil",
]


# Functions only reached through others under contract: when one is gone (renamed, inlined, given
# other parameters) its callers are verified against the code that replaced it.
HELPER = re.compile(r"wire\.(AppendMap_|DecodeMap_|UnsafeAppend|UnsafeSize|DecodePacked|[a-z])|protowire\.[a-z]|prutal\.(size|append|[A-Z]\w*_[a-z]|[a-z])|desc\.[a-z]|prutalgen\.([a-z]|[A-Z]\w*_[a-z])")


def run(check):
    cfg = check.cfg
    exe = os.path.join(check.tmp, "govc")
    from check import sh, REPO, NCPU
    t0 = time.time()
    rc, out = sh(["go", "build", "-o", exe, "."], os.path.join(VERIF, "govc"), 600)
    if rc != 0:
        print("the verifier does not build:\n" + out[-3000:])
        raise SystemExit(2)
    build = time.time() - t0
    js = os.path.join(check.tmp, "proof.json")
    per = 480 if check.tier == "quick" else 600
    globs = cfg["contracts"] + (cfg.get("deep", []) if check.tier == "thorough" else [])
    cmd = [exe, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-j", str(NCPU), "-t", str(per),
           "-targets", ",".join(globs), "-o", js]
    rc, out = sh(cmd, check.tmp, 600 if check.tier == "quick" else 800)
    failed = []
    try:
        with open(js) as fp:
            rep = json.load(fp)
    except (OSError, ValueError):
        # the tree does not load with the contracts, or the verifier died
        return [{"name": "the contracts load against this tree", "detail": out[-3000:]}], {
            "obligations": 1, "discharged": 0, "checker_cmd": " ".join(cmd[1:]), "trusted_base": TRUSTED}
    with open(os.path.join(VERIF, "driver", "targets.txt")) as fp:
        want = [t for t in fp.read().split() if any(fnmatch.fnmatchcase(t, g.replace("[", "[[]")) for g in globs)]
    seen = set()
    obs = dis = 0
    backs, assumed, table, slow = {}, {}, [], 0.0
    for t in rep.get("targets") or []:
        seen.add(t["name"])
        od = sum(1 for o in t.get("obligations") or [] if o["result"] == "discharged")
        oo = len(t.get("obligations") or [])
        for k, v in (t.get("backends") or {}).items():
            backs[k] = backs.get(k, 0) + v
        for a in t.get("assumptions") or []:
            assumed.setdefault(a, []).append(t["name"])
        slow += t.get("solver_seconds", 0)
        if t["status"] != "proved" and od == oo:
            oo += 1
        obs, dis = obs + oo, dis + od
        table.append("%s (%s): %d/%d obligations, %d paths, inlined: %s" % (t["name"], t.get("kind"), od, oo, t.get("paths", 0), ", ".join(t.get("inlined") or []) or "-"))
        if t["status"] != "proved":
            hit = False
            for o in t.get("obligations") or []:
                if o["result"] != "discharged":
                    hit = True
                    failed.append({"name": "%s: %s" % (t["name"], o["name"]), "pos": o.get("pos"), "result": o["result"], "detail": (o.get("detail") or "")[:4000]})
            if not hit:
                failed.append({"name": "%s: %s" % (t["name"], t["status"]), "detail": t.get("why")})
    dropped = "; ".join(rep.get("dropped") or [])
    gone = []
    for t in want:
        if t not in seen and HELPER.match(t) and not dropped:
            gone.append(t)
        elif t not in seen:
            obs += 1
            failed.append({"name": "%s: the contract attaches to the code" % t, "detail": "function not found with the signature of its contract " + dropped})
    r = {
        "obligations": obs, "discharged": dis,
        "checker_cmd": "govc " + " ".join(cmd[1:]),
        "trusted_base": TRUSTED + ["%s [%s]" % (k, ", ".join(v[:6]) + (", ..." if len(v) > 6 else "")) for k, v in sorted(assumed.items())],
        "functions_under_contract": table, "solver_answers_by_back_end": backs, "solver_s": round(slow, 1), "verifier_build_s": round(build, 1),
        "source_load_s": rep.get("load_seconds"),
        "helpers_without_counterpart": gone,
        "not_discharged": [f["name"] for f in failed],
    }
    return failed, r
