"""development helper: seed(id, prop, [(file, old, new[, nth])], demo_c, needs, breaks, flags) plants one bug in a scratch copy,
confirms it (builds, stable tests pass, demo fails with it and passes without) and stores it under seeded/"""
import subprocess, os, json, shutil, sys
W = "/tmp/seedwt"
def sh(c, cwd=None, t=300):
    try: return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=t)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, "", "timeout")
def seed(id, prop, edits, demo, needs, breaks, flags="-fsanitize=address", pre="#define ZPL_IMPLEMENTATION\n#include \"zpl.h\"\n", timeout=60, leaks=0):
    shutil.rmtree(W, ignore_errors=True); sh("git -C /repo worktree prune"); r = sh("git -C /repo archive HEAD | (mkdir -p %s && tar x -C %s)" % (W, W)); d = "/verif/seeded/" + id
    for e in edits:
        p = W + "/code/" + e[0]; s = open(p).read(); n = e[3] if len(e) > 3 else 0; parts = s.split(e[1])
        assert len(parts) > n + 1, ("not found", e[0], e[1]); s = e[1].join(parts[:n + 1]) + e[2] + e[1].join(parts[n + 1:]); open(p, "w").write(s)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.c", "w").write("/* shows the planted bug: exit 0 without it, nonzero with it */\n" + pre + demo)
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
gcc -std=gnu11 -g -O1 -w %s -Icode "$here/demo.c" -o "$t/demo" -pthread -lm -ldl || exit 98
cd "$t" && ASAN_OPTIONS=detect_leaks=%d timeout %d ./demo
""" % (flags, leaks, timeout)); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    sh("git init -q; git add -A; git -c user.name=a -c user.email=a@a commit -qm x", W)
    p = sh("diff -ruN --no-dereference /repo/code %s/code" % W).stdout
    # a git-style patch
    g = sh("cp -a /repo/code /tmp/seed_a; git diff --no-index --no-prefix /tmp/seed_a %s/code" % W).stdout.replace("/tmp/seed_a/", "a/code/").replace(W[0:0] + "/tmp/seedwt/code/", "b/code/"); shutil.rmtree("/tmp/seed_a", ignore_errors=True)
    g = g.replace("a/code/", "a/code/").replace("tmp/seed_a/", "a/code/").replace("tmp/seedwt/code/", "b/code/"); open(d + "/patch.diff", "w").write(g)
    ok = sh("git apply --check %s/patch.diff" % d, "/repo"); assert ok.returncode == 0, ok.stderr + g
    # only lines of the original repository count
    import re as _re
    for f, body in _re.findall(r"^\+\+\+ b/(\S+)\n((?:(?!^diff ).*\n)*)", g, _re.M):
        ln = 0
        for l in body.splitlines():
            m = _re.match(r"@@ -(\d+)", l)
            if m: ln = int(m.group(1)); continue
            if l.startswith("+"): continue
            if l.startswith("-"):
                bl = sh("git blame -s -L %d,%d %s" % (ln, ln, f), "/repo").stdout
                if not bl.startswith(("^", "2091f51")): print(id, "** touches a line of a later commit:", bl.strip())
            ln += 1
    a = sh("bash %s/demo.sh" % d, "/repo"); b = sh("bash %s/demo.sh" % d, W)
    # stable tests: in place, restored straight afterwards
    sh("git -C /repo apply %s/patch.diff" % d)
    try: t = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed.json")
    finally: sh("git -C /repo checkout -- .")
    try: o = json.load(open("/tmp/seed.json")); n = len(o["passed"])
    except Exception: n = -1
    good = a.returncode == 0 and b.returncode not in (0, 98, 99) and n == 108
    print("%-28s demo %d/%d tests %d %s" % (id, a.returncode, b.returncode, n, "OK" if good else "** REJECTED"))
    if not good: print(a.stdout[-300:], a.stderr[-1500:], b.stdout[-300:], b.stderr[-300:])
    shutil.rmtree(W, ignore_errors=True)
    return good
def caught(id, tier="quick"):
    d = "/verif/seeded/" + id; prop = json.load(open(d + "/meta.json"))["property"]
    sh("git -C /repo apply %s/patch.diff" % d)
    try: r = sh("python3 run.py %s %s" % (prop, tier), "/verif", 1200)
    finally: sh("git -C /repo checkout -- .")
    print("%-28s %s rc=%d %s" % (id, prop, r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + prop in r.stdout else "** MISSED"), r.stdout.strip().splitlines()[-1][:160] if r.stdout.strip() else r.stderr[-300:])
if __name__ == "__main__":
    for i in sys.argv[1:] or sorted(os.listdir("/verif/seeded")): caught(i)
