#!/usr/bin/env python3
"""Developer helper: dev.py build <harness> <profile> <srcs-expr>; dev.py run <exe> <np> [args...]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import build as B, core as C
if sys.argv[1] == "build":
    name, prof = sys.argv[2], sys.argv[3]
    expr = sys.argv[4] if len(sys.argv) > 4 else "DNDS_LITE"
    exe = B.build(name, [B.VERIF + "/harness/" + name + ".cpp"] + eval(expr, vars(B)), prof, tag="dev_")
    dst = "/tmp/w/" + name + "." + prof
    os.makedirs("/tmp/w", exist_ok=True)
    os.replace(exe, dst)
    os.rmdir(os.path.dirname(exe))
    print(dst)
else:
    c = C.Check("DEV")
    r = c._run1(sys.argv[2], int(sys.argv[3]), sys.argv[4:], int(os.environ.get("TMO", "60")), None, "dev", None)
    print("rc", r.rc, "hang", r.hang, "done", r.done, "cases", len(r.cases), "open", r.open_case)
    for v in r.viol[:20]:
        print(v["key"], "|", v.get("case"), "|", v["msg"][:int(os.environ.get("ML", "600"))])
    print(sum(r.counts.values()), {k: v for k, v in list(r.counts.items())[:int(os.environ.get("NC","80"))]})
    for s in r.results[:int(os.environ.get("NR", "40"))]:
        print(s)
    if os.environ.get("ERR"):
        print(r.out[-3000:])
        print(r.err[-int(os.environ["ERR"]):])
    c.cleanup()
