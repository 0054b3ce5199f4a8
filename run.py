#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]  - build and run the exploration that decides one property.

exit 0: held on everything explored (KNOWN-FINDING lines for listed findings)
exit 1: VIOLATION property=<id> replay=<path>
exit 2: the check itself could not run (harness does not build, crashed, ...)
"""
import json, os, re, subprocess, sys, time, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ZPL_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS

WRAP = ["malloc", "free", "calloc", "realloc", "aligned_alloc", "posix_memalign"]

def known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) suite=(\S+) match=/(.*)/ :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append(dict(suite=m.group(2), rx=re.compile(m.group(3), re.S), what=m.group(4), hits=0))
    return out

def build(prop, h, bdir):
    src = os.path.join(HERE, "harness", h["src"])
    exe = os.path.join(bdir, h["src"].replace(".c", "") + "." + h.get("tag", "x"))
    cc = h.get("cc", "gcc")
    cmd = [cc, "-std=gnu11", "-g", h.get("opt", "-O1"), "-w", "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer", "-I" + os.path.join(REPO, "code"), "-I" + os.path.join(HERE, "harness")]
    if h.get("asan", True):
        cmd += ["-fsanitize=address"]
    cmd += h.get("cflags", [])
    if h.get("wrap", True):
        cmd += ["-DMC_WRAP_MALLOC"] + ["-Wl,--wrap=" + w for w in WRAP]
    cmd += [src] + [os.path.join(HERE, "harness", x) for x in h.get("extra", [])] + ["-o", exe, "-pthread", "-lm", "-ldl"] + h.get("ldflags", [])
    objs = []
    r = None
    for osrc, ocmd in h.get("objs", []):     # translation units with flags of their own
        obj = os.path.join(bdir, osrc + "." + h.get("tag", "x") + ".o")
        r = subprocess.run(ocmd + ["-c", "-I" + os.path.join(REPO, "code"), "-I" + os.path.join(HERE, "harness"), os.path.join(HERE, "harness", osrc), "-o", obj], capture_output=True, text=True)
        if r.returncode: break
        objs.append(obj)
    else:
        k = cmd.index(src); r = subprocess.run(cmd[:k] + objs + cmd[k:], capture_output=True, text=True)
    if r.returncode:
        print(f"{prop}: harness {h['src']} does not build against {REPO}/code", file=sys.stderr)
        print(r.stderr[:6000], file=sys.stderr)
        sys.exit(2)
    return exe

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[prop]
    t0 = time.time()
    evdir = os.path.join(HERE, "evidence"); os.makedirs(evdir, exist_ok=True)
    bdir = os.path.join(HERE, "build", prop); os.makedirs(bdir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    env = dict(os.environ, VERIF_TIER=tier, MC_SCRATCH=scratch)
    total = dict(ex=0, tr=0, st=0)
    suites, samples, fails, sat, trunc = [], [], [], False, False
    try:
        for h in cfg["harness"]:
            exe = build(prop, h, bdir)
            for args in h.get("runs", [[]]):
                out = os.path.join(bdir, "out.json")
                if os.path.exists(out): os.unlink(out)
                left = (760 if tier == "quick" else 14400) - (time.time() - t0)
                budget = max(20, min(left, h.get("budget", {}).get(tier, left)))
                lim = budget + 240
                try:
                    r = subprocess.run([exe, "-o", out, "-j", str(h.get("jobs", 8)), "-t", tier, "-T", "%.0f" % budget] + args, env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=lim, errors="replace")
                except subprocess.TimeoutExpired:
                    print(f"{prop}: exploration exceeded its time limit of {lim}s", file=sys.stderr); sys.exit(2)
                if r.returncode or not os.path.exists(out):
                    print(f"{prop}: explorer failed ({r.returncode}): {r.stderr[-2000:]}", file=sys.stderr); sys.exit(2)
                d = json.load(open(out))
                for s in d["suites"]:
                    s["harness"] = h["src"]; suites.append(s)
                    total["ex"] += s["executions"]; total["tr"] += s["transitions"]; total["st"] += s["states"] or s["executions"]   # a suite of plain inputs: every input is its own state
                    trunc = trunc or s["truncated"]
                sat = sat or d["states_saturated"]
                samples += d["samples"]
                for f in d["failures"]:
                    f["exe_src"] = h["src"]; f["args"] = args; fails.append(f)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    kf = known(prop)
    bad = []
    for f in fails:
        text = f["msg"] + "\n" + f["log"]
        hit = [k for k in kf if k["suite"] == f["suite"] and k["rx"].search(text)]
        if hit: hit[0]["hits"] += 1
        else: bad.append(f)
    wall = time.time() - t0
    lvl = cfg["level"]
    cov = {"samples": [{"suite": s["suite"], "choices": s["choices"], "trace": s["log"][:600]} for s in samples[:12]] or ["none"],
           "suites": suites, "exhaustive": not trunc, "bounds": cfg["bounds"][tier] if isinstance(cfg["bounds"], dict) else cfg["bounds"]}
    if lvl == "model_checking":
        cov.update(states=total["st"], transitions=total["tr"], traces_validated_against_impl=total["ex"], states_counter_saturated=sat)
    else:
        cov.update(evaluations=total["ex"], distinct_nontrivial=total["st"], rule=cfg.get("rule", ""), steps=total["tr"], states_counter_saturated=sat)
    ev = dict(property=prop, tier=tier, seed=seed, level=lvl, coverage=cov, assumptions=cfg.get("assumptions", []), wall_s=round(wall, 2), violations=len(bad))
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    for k in kf:
        # listed findings are announced whether or not this tier's bounds reach them again
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop} [{tier}] executions={total['ex']} states={total['st']} transitions={total['tr']} suites={len(suites)} wall={wall:.1f}s")
    if bad:
        rdir = os.path.join(evdir, "replay"); os.makedirs(rdir, exist_ok=True)
        seen = set(); n = 0
        for f in bad:
            key = (f["suite"], re.sub(r"\d+", "#", f["msg"])[:80])
            if key in seen: continue
            seen.add(key)
            p = os.path.join(rdir, f"{prop}-{n}.txt"); n += 1
            with open(p, "w") as o:
                o.write(f"property {prop}\nharness {f['exe_src']} suite {f['suite']}\nmessage {f['msg']}\nchoices {f['choices']}\nreproduced {f['reproduced']}\nreplay: cd /verif && build/{prop}/<exe> -s {f['suite']} -r {f['choices']}\n\n{f['log']}\n")
            print(f"VIOLATION property={prop} replay={p}")
            print(f"  suite={f['suite']} {f['msg'][:300]}")
            if n >= 12: break
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__":
    main()
