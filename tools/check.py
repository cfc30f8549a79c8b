#!/usr/bin/env python3
"""One check: deductive verification of the functions a property depends on, then a bounded run of the oracle.

usage: check.py PROPERTY [quick|thorough]
"""
import json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
t0 = time.time()
thorough = tier == "thorough"
GCV_WALL = 600 if thorough else 330
BOUND_T = 120 if thorough else 12
BOUND_N = 20000000 if thorough else 150000
SEARCH_T = 240 if thorough else 100
race = prop == "C10"
for l in open(os.path.join(HERE, "tools", "env.sh")).read().split()[1:]:
    k, _, v = l.partition("=")
    os.environ[k] = v.replace("$PATH", os.environ.get("PATH", ""))


def run(cmd, limit, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=limit)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return -9, o, e


def fail_internal(msg):
    print("check error: " + msg)
    sys.exit(2)


work = tempfile.mkdtemp(prefix="verif-" + prop + "-")
import atexit
atexit.register(lambda: shutil.rmtree(work, ignore_errors=True))

build = os.path.join(HERE, "tools", "build.sh")
jobs = [subprocess.Popen([build, work, k], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for k in ["gcv", "oracle"] + (["race"] if race else [])]
outs = [j.communicate()[0] for j in jobs]
if jobs[0].returncode:
    fail_internal("building the verifier: " + outs[0])
for j, o in list(zip(jobs, outs))[1:]:
    if j.returncode:
        fail_internal("building the oracle against /repo: " + o)

# 1. deductive verification
gjson = os.path.join(work, "gcv.json")
cmd = [os.path.join(work, "gcv"), "-property", prop, "-json", gjson, "-contracts", os.path.join(HERE, "contracts"), "-repo", "/repo"]
if thorough:
    cmd += ["-timeout", "15000", "-ptimeout", "60"]
tg = time.time()
rc, gout, gerr = run(cmd, GCV_WALL)
if rc not in (0, 1, -9) and not os.path.exists(gjson):
    rc, gout, gerr = run(cmd, GCV_WALL)
gwall = time.time() - tg
failed, mine, results, backends = [], [], [], {}
timed_out = False
if os.path.exists(gjson):
    g = json.load(open(gjson))
    results = g["results"] or []
    backends = g["backends"]
    for r in results:
        for o in r["Obs"] or []:
            if prop in (o.get("Tags") or []):
                mine.append(o)
                if not o["OK"]:
                    failed.append(o)
elif rc == -9:
    timed_out = True
else:
    fail_internal("verifier: " + (gerr or gout)[:1000] + " ... " + (gerr or gout)[-1000:])
if not timed_out and not mine:
    fail_internal("no obligation carries " + prop)

# 2. bounded run of the oracle on the real code; the search budget grows when an obligation failed
broken = bool(failed) or timed_out
orc = os.path.join(work, "oracle-race" if race else "oracle")


def oracle(exe, s, n, t):
    rc, o, e = run([exe, "-property", prop, "-seed", str(s), "-n", str(n), "-t", str(t)], t + 120)
    for line in reversed(o.strip().splitlines()):
        try:
            return json.loads(line)
        except ValueError:
            pass
    fail_internal("oracle: rc=%s %s %s" % (rc, o[-500:], e[-1000:]))


runs = []
found = None
budget = SEARCH_T if broken else BOUND_T
end = time.time() + budget
s = seed
while True:
    left = end - time.time()
    if left <= 1:
        break
    r = oracle(orc, s, BOUND_N if not broken else 10**9, max(2, left))
    runs.append(r)
    if r.get("fail"):
        found = r
        break
    if not broken:
        break
    s += 1000003

cases = sum(r["cases"] for r in runs)
known = [l for l in open(os.path.join(HERE, "known_findings.txt")).read().splitlines() if l.startswith("finding: property=" + prop + " ")] if os.path.exists(os.path.join(HERE, "known_findings.txt")) else []

# 3. evidence
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
fns = [r for r in results if any(prop in (o.get("Tags") or []) for o in (r["Obs"] or []))]
trusted = sorted({t for r in results for t in (r.get("Trusted") or [])})
relied = sorted({c for r in fns for c in (r.get("Called") or [])} - {r["Name"] for r in fns})
ev = {
    "property": prop, "tier": tier, "seed": seed, "level": "proof",
    "coverage": {
        "obligations": len(mine), "discharged": len(mine) - len(failed),
        "checker_cmd": "gcv -property %s -contracts /verif/contracts -repo /repo" % prop,
        "trusted_base": ["gcv (VC generator of /verif/gcv over golang.org/x/tools/go/ssa)", "z3 4.8.12", "z3 5.3.2", "cvc5 1.1.2"] + trusted,
        "functions_under_contract": [{"name": r["Name"], "obligations": sum(prop in (o.get("Tags") or []) for o in r["Obs"] or []), "paths": r["Paths"], "queries": r["Queries"], "solver_s": round(r["Solver"], 2)} for r in fns],
        "functions_verified": len(fns),
        "queries_by_backend": backends,
        "solver_s": round(sum(r["Solver"] for r in results), 2),
        "verifier_wall_s": round(gwall, 2),
        "contracts_relied_on_from_other_checks": relied,
        "bounded": {"what": "seeded cases of this property against the real library, compared with the reference reading (never counted as proved)", "cases": cases, "seconds": round(sum(r["seconds"] for r in runs), 2), "seed": seed, "race_detector": race},
        "explanation": "Obligations generated from /repo's current source by the verifier, each discharged for all inputs; the bounded part stands in for code outside the contracts.",
    },
    "assumptions": [
        "package reflect, strconv, maps, fmt and the Go runtime behave as their contracts in /verif/contracts state (trusted externs)",
        "integers are 64-bit; arithmetic on machine integers is checked for overflow or wrapped as the width demands",
        "a clause tagged with another property is proved by that property's check",
    ],
    "wall_s": round(time.time() - t0, 2),
    "violations": 1 if (found or broken) else 0,
}
with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
    json.dump(ev, f, indent=1)

for l in known:
    print("KNOWN-FINDING: " + l[len("finding: "):])
print("%s: %d obligations in %d functions, %d not discharged%s; bounded: %d cases; %.1f s" % (prop, len(mine), len(fns), len(failed), " (verifier ran out of time)" if timed_out else "", cases, time.time() - t0))
if not found and not broken:
    sys.exit(0)
rdir = os.path.join(HERE, "evidence", "replay")
os.makedirs(rdir, exist_ok=True)
rpath = os.path.join(rdir, prop + ".json")
with open(rpath, "w") as f:
    json.dump({
        "property": prop,
        "failed_obligations": [{k: o.get(k) for k in ("Fn", "Kind", "Desc", "Pos", "Why", "Model", "Path")} for o in failed[:20]],
        "verifier_timed_out": timed_out,
        "verifier_output": gout[-6000:],
        "case": found,
        "replay_cmd": "tools/build.sh DIR && DIR/%s -property %s -seed %d -replay %d" % ("oracle-race" if race else "oracle", prop, found["seed"], found["iter"]) if found else None,
    }, f, indent=1)
for o in failed[:8]:
    print("failed obligation: %s: %s: %s (%s)" % (o["Fn"], o["Kind"], o["Desc"], o["Pos"]))
if found:
    print("failing case %d of seed %d: %s" % (found["iter"], found["seed"], json.dumps(found["fail"])[:1500]))
    print("VIOLATION property=%s replay=%s" % (prop, rpath))
else:
    print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rpath))
sys.exit(1)
