#!/usr/bin/env python3
"""Developer helper for planted bugs.
mkseed.py new ID PROPERTY file <<< JSON {"edits":[[file,old,new],...],"needs":..,"breaks":..,"srcs":"...","np":N}
Writes seeded/ID/{patch.diff,meta.json} and a demo.sh that compiles the demo.cpp beside it."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID, PROP = sys.argv[1], sys.argv[2]
d = json.load(sys.stdin)
out = os.path.join(ROOT, "seeded", ID)
os.makedirs(out, exist_ok=True)
wt = "/tmp/seedwt"
subprocess.run("git -C /repo worktree prune; rm -rf /tmp/seedwt; git -C /repo worktree add -f --detach /tmp/seedwt HEAD -q", shell=True, check=True)
for f, old, new in d["edits"]:
    p = os.path.join(wt, f)
    s = open(p).read()
    assert s.count(old) >= 1, (f, "not found")
    n = d.get("nth", 0)
    if s.count(old) > 1 and "nth" not in d:
        raise SystemExit("%s: %d matches" % (f, s.count(old)))
    i = -1
    for _ in range(n + 1):
        i = s.index(old, i + 1)
    s = s[:i] + new + s[i + len(old):]
    open(p, "w").write(s)
diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
open(os.path.join(out, "patch.diff"), "w").write(diff)
json.dump({"property": PROP, "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
demo = r'''#!/bin/bash
# Builds the small program beside this script against the sources of the current tree and runs it; exit 0: behaves.
HERE=$(cd "$(dirname "$0")" && pwd)
R=${DEMO_REPO:-$PWD}
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1
export OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_oob_tcp_if_include=lo OMP_NUM_THREADS=1 LC_ALL=C.UTF-8
H5=/usr/lib/x86_64-linux-gnu/hdf5/openmpi
OMPI=/usr/lib/x86_64-linux-gnu/openmpi
INC="-DDNDS_USE_OMP -DNINSERT -D__DNDS_REALLY_COMPILING__ -I$HERE -isystem/usr/include/superlu-dist -isystem$OMPI/include -isystem$OMPI/include/openmpi -isystem/usr/include/hdf5/openmpi -isystem/usr/include/eigen3 -isystem/usr/include/argparse -I$R/src -std=c++17 -fopenmp -UNDEBUG -w -fPIC"
SRCS="@SRCS@"
pids=()
n=0
for s in "$HERE/demo.cpp" $(for x in $SRCS; do echo "$R/src/$x"; done); do
    n=$((n+1))
    g++ $INC @OPT@ -c "$s" -o "$W/$n.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p || { echo "does not compile"; exit 3; }; done
g++ -fopenmp @LINK@ "$W"/*.o -o "$W/demo" -lmpi_cxx -lmpi -lcgns $H5/libhdf5.so -Wl,-rpath,$H5 -lparmetis -lmetis -lz -lfmt -lstdc++fs -ldl -lsuperlu_dist -L$OMPI/lib || exit 3
cd "$W"
for np in @NP@; do
    timeout -k 5 @TMO@ mpirun --quiet -np $np "$W/demo" || { echo "demo fails on $np ranks"; exit 1; }
done
exit 0
'''
link = d.get("link", "")
demo = (demo.replace("@SRCS@", d.get("srcs", "")).replace("@NP@", d.get("np", "1")).replace("@OPT@", d.get("opt", "-O1"))
        .replace("@LINK@", link).replace("@TMO@", str(d.get("tmo", 60))))
open(os.path.join(out, "demo.sh"), "w").write(demo)
os.chmod(os.path.join(out, "demo.sh"), 0o755)
subprocess.run("git -C /repo worktree remove --force /tmp/seedwt", shell=True)
print(diff)
