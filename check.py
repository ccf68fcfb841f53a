#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  - decide one property on /repo's working tree.
check.py --replay FILE               - run a saved failing case again."""
import json, os, subprocess, sys, time, tempfile, shutil, struct, re
ASSUME = [
    "The repository sources are compiled by clang 18 with AddressSanitizer and UBSan (pointer-overflow, function and vptr checks off); a fault they report is a violation.",
    "The oracle is the independent model in /verif/harness; generated cases are bounded in size as the rule states.",
    "emv_utils_config.h is replaced by the harness configuration (JSON paths); no network or card reader is used.",
]
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build as bld

QSCALE = {"tlv": 8, "ttl": 12, "C15": 24, "C09": 4, "C01": 5, "C16": 2, "C17": 2, "C18": 4, "C19": 8, "C20": 6, "C21": 10, "C23": 4, "C32": 3, "C29": 3, "C30": 2, "C33": 5, "C35": 5, "C36": 3, "C31": 2, "C24": 10, "C25": 3, "C26": 4, "C27": 8, "C28": 4, "C34": 8, "view": 8}  # multiplies the quick case counts (per property or per binary)

# C37 runs the generators of all other properties under memcheck; C38 runs under ThreadSanitizer
VALGRIND = ["valgrind", "-q", "--leak-check=no", "--log-file=/dev/null"]
VARIANT = {"C37": ("mc", VALGRIND), "C38": ("tsan", [])}
def memcheck_runs(tier):
    k = 1 if tier == "quick" else 40
    return [(n, ["--all", "--count", str(c * k)]) for n, c in (("tlv", 16000), ("ttl", 30000), ("card", 3000), ("str", 6000), ("enc", 600), ("print", 800), ("tool", 200), ("pcsc", 30000), ("view", 100))]
def thread_runs(tier): return [(n, ["--scale", "15"]) for n in ("tlv", "ttl", "card", "str", "enc")]
RUNS = {"C37": memcheck_runs, "C38": thread_runs}
RULES = {"C38": "concurrent: two to four threads that each run one to three generated cases of the other checks (half of the time mostly of one check), twice, after the same cases were run one after another; non-trivial: all cases hold alone", "C37": "cases of every subtest of every other property (enumerations: a random sample of their indices), run under valgrind memcheck; non-trivial: as that subtest states"}
ASSUMES = {"C38": ["The repository sources are compiled by clang 18 with ThreadSanitizer; a data race it reports, or an oracle that fails only while other threads run, is a violation.",
    "Configuration of the whole process (tracing, code tables, fault injection) is done before the threads start; the dynamic loader, ICU and gconv modules are not instrumented.", "Schedules are those the operating system produces; one observed failure is enough."] + ASSUME[2:],
    "C37": ["The repository sources are compiled by clang 18 at -O1 without sanitizers and run under valgrind memcheck; any report it makes during a case is a violation.",
    "memcheck reports a use of an unwritten value when it decides a branch, an address or data given to the system; the oracles of the other properties compare every output, so an unwritten output octet is reported at the comparison."] + ASSUME[1:]}

def known(prop):
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) replay=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append((os.path.join(V, m.group(2)), m.group(3)))
    return out

def main():
    if sys.argv[1] == "--replay":
        f = os.path.abspath(sys.argv[2]); t = open(f, errors="replace").read()
        prop = re.search(r"^property (\S+)", t, re.M).group(1); own = re.search(r"^subtest (?:(\w+)/)?", t, re.M).group(1) or prop
        variant, wrap = VARIANT.get(prop, ("asan", [])); exe = bld.build(bld.PROPS[own], variant); tmp = tempfile.mkdtemp(prefix="vh")
        rr = re.search(r"^rerun (.*)", t, re.M)
        r = subprocess.run(wrap + [exe] + (["--property", prop, "--tmp", tmp, "--replay-out", "/dev/null"] + rr.group(1).split() if rr else ["--replay", f, "--tmp", tmp]), env=dict(os.environ, LC_ALL="C", TZ="UTC"), cwd=tmp).returncode
        shutil.rmtree(tmp); sys.exit(r)
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    variant, wrap = VARIANT.get(prop, ("asan", []))
    runs = RUNS[prop](tier) if prop in RUNS else [(bld.PROPS[prop], [])]
    exes = [bld.build(n, variant) for n, _ in runs]
    bld.prune()
    tb = time.time() - t0
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True); os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    ev = os.path.join(V, "evidence", prop + ".json")
    if os.path.exists(ev): os.unlink(ev)
    rout = os.path.join(V, "replays", "%s-%s-%d.txt" % (prop, tier, seed))
    if os.path.exists(rout): os.unlink(rout)
    env = dict(os.environ, LC_ALL="C", TZ="UTC")
    evals = 0; samples = []; subs = {}; trunc = False; edges = 0; distinct = set(); rc = 0
    for (name, extra), exe in zip(runs, exes):
        tmp = tempfile.mkdtemp(prefix="vh_" + prop + "_")
        maxs = 420 if tier == "quick" else 3 * 3600
        qs = QSCALE.get(prop, QSCALE.get(name, 1))
        cmd = wrap + [exe, "--property", prop, "--tier", tier, "--seed", str(seed), "--tmp", tmp, "--replay-out", rout, "--max-seconds", str(maxs)] + (["--scale", str(qs)] if tier == "quick" and not extra else []) + extra + sys.argv[3:]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, env=env, cwd=tmp)
        txt = r.stdout.decode(errors="replace")
        sys.stdout.write(txt[:1500] + ("...\n" if len(txt) > 1500 else ""))
        for w in range(8):
            p = os.path.join(tmp, "w%d.json" % w)
            if not os.path.exists(p): continue
            try: d = json.load(open(p))
            except ValueError: continue
            trunc |= d["truncated"]; edges = max(edges, d["edges"])
            for n, x in d["subs"].items():
                s = subs.setdefault(n, dict(cases=0, nontrivial=0, labels={}))
                s["cases"] += x["evals"]; s["nontrivial"] += x["nontrivial"]
                for l, c in x["labels"].items(): s["labels"][l] = s["labels"].get(l, 0) + c
                evals += x["evals"]
            if w < 3: samples += d["samples"][:12 if len(runs) == 1 else 2]
            hp = p + ".h"
            if os.path.exists(hp):
                b = open(hp, "rb").read(); distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        shutil.rmtree(tmp, ignore_errors=True)
        rc = r.returncode
        if rc: break
    viol = 1 if rc == 1 else 0
    if viol and os.path.exists(rout):
        samples = ["VIOLATION " + open(rout, errors="replace").read()[:4000]] + samples; evals = max(evals, 1)
    lst = [l.split("\t") for l in subprocess.run([exes[0], "--list"], stdout=subprocess.PIPE).stdout.decode().splitlines()]
    rule = RULES.get(prop) or "; ".join("%s%s: %s" % (l[1], " (complete enumeration)" if l[3] == "1" else "", l[4]) for l in lst if l[0] == prop)
    e = dict(property=prop, tier=tier, seed=seed, level="exploration",
             coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct),
                           rule=rule, samples=samples[:12],
                           subtests=subs, truncated_by_time=trunc, edges_covered_in_repo_code_by_best_worker=edges),
             assumptions=ASSUMES.get(prop, ASSUME), wall_s=round(time.time() - t0, 2), build_s=round(tb, 2), violations=viol)
    with open(ev + ".tmp", "w") as f: json.dump(e, f, indent=1)
    os.replace(ev + ".tmp", ev)
    for f, what in known(prop):
        t2 = tempfile.mkdtemp(prefix="vh")
        k = subprocess.run(wrap + [exes[0], "--replay", f, "--tmp", t2], stdout=subprocess.PIPE)
        shutil.rmtree(t2)
        if k.returncode == 1: print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if rc == 0:
        print("%s %s: held on %d cases (%d distinct non-trivial), %.1fs" % (prop, tier, evals, len(distinct), time.time() - t0)); sys.exit(0)
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (prop, rout)); sys.exit(1)
    print("check error: harness exit %d" % rc); sys.exit(3)
main()
