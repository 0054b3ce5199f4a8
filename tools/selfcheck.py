#!/usr/bin/env python3
"""setup: verify the tools needed are present and that the explorer itself works (it must find a planted failure and count a known tree)"""
import subprocess, tempfile, os, json, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix="mc-self-")
try:
    src = d + "/t.c"
    open(src, "w").write('#include "mc.h"\nstatic void b(void){int x=mc_choose(3),y=mc_choose(4),z=mc_choose(5);mc_state(x*20+y*5+z);if(x==2&&y==3&&z==4)mc_fail("planted");}\n'
        'static void c(void){int x=mc_choose(7);if(x==5){volatile int*p=malloc(4);p[1]=1;free((void*)p);}}\nmc_suite mc_suites[]={{"b",b},{"c",c},{0}};\n')
    subprocess.check_call(["gcc", "-std=gnu11", "-g", "-O1", "-w", "-fsanitize=address", "-I" + HERE + "/harness", src, "-o", d + "/t", "-lm"])
    subprocess.check_call([d + "/t", "-o", d + "/o.json", "-j", "4"], env=dict(os.environ, MC_SCRATCH=d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    o = json.load(open(d + "/o.json")); s = {x["name"]: x for x in o["suites"]}
    assert s["b"]["executions"] == 59 and s["b"]["failures"] == 1 and s["b"]["states"] == 60, s
    assert s["c"]["executions"] == 6 and s["c"]["failures"] == 1, s
    msgs = " ".join(f["msg"] for f in o["failures"]); assert "planted" in msgs and "heap-buffer-overflow" in msgs, msgs
    print("explorer self-check passed")
finally: shutil.rmtree(d)
