"""Runs harness executables, collects what their monitors observed, decides."""
import fcntl
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from . import build as B

VERIF = B.VERIF
ENV = {
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_plm": "isolated", "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_oob_tcp_if_include": "lo",
    "OMP_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8",
    "HDF5_USE_FILE_LOCKING": "FALSE",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1",
    "TMPDIR": "/tmp",
}
for k in ("MALLOC_PERTURB_",):
    pass


class InfraError(Exception):
    pass


class Run:
    def __init__(self):
        self.rc = None
        self.hang = False
        self.viol = []      # dicts key,msg,case
        self.cases = []     # dicts id,sig,nt
        self.counts = {}
        self.samples = []
        self.done = False
        self.open_case = None
        self.err = ""
        self.cmd = ""
        self.results = []   # free-form records


_ASSERT = re.compile(r'DNDS_assertion failed.*?: "(.*?)"  at \[  (.*?):(\d+)  \]')
_SAN = re.compile(r"ERROR: AddressSanitizer: (\S+)")
_UB = re.compile(r"(\S+?):(\d+):\d+: runtime error: (.*)")
_FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.*?) (/repo/\S+?):(\d+)")


def crash_key(err, rc, open_case):
    m = _UB.search(err)
    if m:
        return "ub:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"[0-9x]+[0-9a-f]*", "N", m.group(3))[:60]), m.group(0)[:300]
    m = _SAN.search(err)
    if m:
        f = _FRAME.search(err[m.start():])
        where = os.path.basename(f.group(2)) if f else "?"
        return "asan:%s:%s" % (m.group(1), where), err[m.start():m.start() + 1500]
    m = _ASSERT.search(err)
    if m:
        p = err.find("DNDS_assertion")
        return "assert:%s:%s" % (os.path.basename(m.group(2)), m.group(1)[:80]), err[p:p + 400]
    m = re.search(r"(\S+?):(\d+): .*?Assertion `(.*?)' failed", err)
    if m:
        return "cassert:%s:%s" % (os.path.basename(m.group(1)), m.group(3)[:80]), m.group(0)[:600]
    m = re.search(r"terminate called.*?\n(.*what\(\).*)", err)
    if m:
        return "exception:%s" % m.group(1).strip()[:80], m.group(0)[:400]
    return "crash:rc=%s" % rc, err[-1200:]


class Check:
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.viol = []
        self.evals = 0
        self.sigs = set()
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.runs = 0
        self.rule = ""
        self.sem = threading.Semaphore(1)
        self.lock = threading.Lock()
        self.work = tempfile.mkdtemp(prefix="vt_%s_" % prop)
        self.exes = []
        self.notes = []
        self.known = load_known(prop)
        self.known_hit = {}

    quick = property(lambda s: s.tier == "quick")

    # ------------------------------------------------------------------
    def build(self, name, srcs, profile, **kw):
        exe = B.build(name, srcs, profile, tag=self.prop + "_", **kw)
        self.exes.append(exe)
        return exe

    def run(self, exe, np=1, args=(), timeout=120, env=None, label="", case_filter=True, cwd=None, retry_hang=True, raw=False):
        """One execution of the harness. Results are merged unless raw."""
        r = self._run1(exe, np, args, timeout, env, label, cwd)
        if r.hang and retry_hang:
            r2 = self._run1(exe, np, args, timeout * 2, env, label + "#retry", cwd)
            if not r2.hang:
                self.notes.append("a run of %s timed out once and finished when run again" % label)
            r = r2
        if r.rc not in (0, None) and not r.viol and is_infra(r):
            r = self._run1(exe, np, args, timeout * 2, env, label + "#again", cwd)
            if r.rc != 0 and is_infra(r):
                raise InfraError("run could not be made: %s\n%s" % (r.cmd, r.err[-1500:]))
        if not raw:
            self.merge(r)
        return r

    def _run1(self, exe, np, args, timeout, env, label, cwd):
        with self.lock:
            self.runs += 1
            n = self.runs
        od = os.path.join(self.work, "run%d" % n)
        os.makedirs(od)
        e = dict(os.environ)
        e.update(ENV)
        e.update({"VT_OUT": od, "VT_SEED": str(self.seed), "VT_TIER": self.tier, "VT_SCRATCH": od})
        if env:
            e.update({k: str(v) for k, v in env.items()})
        e["OMPI_MCA_orte_tmpdir_base"] = od
        cmd = ["mpirun", "--quiet", "-np", str(np), exe] + [str(a) for a in args]
        r = Run()
        r.cmd = " ".join(cmd)
        errf = open(os.path.join(od, "stderr"), "wb")
        outf = open(os.path.join(od, "stdout"), "wb")
        p = subprocess.Popen(cmd, stdout=outf, stderr=errf, stdin=subprocess.DEVNULL, env=e,
                             cwd=cwd or od, start_new_session=True)
        # progress-based watchdog: a run that still reports is not hung
        deadline = time.time() + timeout
        hard = time.time() + max(4 * timeout, 300)
        last = -1
        while True:
            try:
                r.rc = p.wait(timeout=0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            if now > deadline:
                sz = progress(od)
                if sz != last and now < hard:
                    last = sz
                    deadline = now + timeout
                    continue
                r.hang = True
                killtree(p)
                r.rc = -9
                break
        errf.close()
        outf.close()
        with open(os.path.join(od, "stderr"), "rb") as f:
            r.err = f.read().decode("utf-8", "replace")
        with open(os.path.join(od, "stdout"), "rb") as f:
            r.out = f.read().decode("utf-8", "replace")
        parse(od, np, r)
        if r.hang:
            r.viol.append({"key": "hang:" + (r.open_case or label or "run"), "case": r.open_case or "",
                           "msg": "no rank reported progress for %d s; the run was ended" % timeout})
        elif r.rc != 0 or not r.done:
            if not (r.viol and r.done):
                k, m = crash_key(r.err, r.rc, r.open_case)
                r.crash = k
                r.viol.append({"key": k, "case": r.open_case or "", "msg": m})
        for v in r.viol:
            v["cmd"] = r.cmd
            v["np"] = np
            v["env"] = env or {}
        shutil.rmtree(od, ignore_errors=True)
        return r

    def merge(self, r):
        with self.lock:
            self.evals += len(r.cases)
            for c in r.cases:
                if c.get("nt"):
                    self.sigs.add(c.get("sig") or c["id"])
            for k, v in r.counts.items():
                self.counts[k] = self.counts.get(k, 0) + v
            if len(self.samples) < 40:
                self.samples.extend(r.samples[:4])
            self.viol.extend(r.viol)

    def parallel(self, jobs, width=8):
        """jobs: list of (cost_in_cores, callable). Runs them within `width` cores."""
        cond = threading.Condition()
        free = [width]
        errs = []

        def work(c, f):
            try:
                f()
            except BaseException as ex:  # noqa
                errs.append(ex)
            finally:
                with cond:
                    free[0] += c
                    cond.notify_all()
        ths = []
        for c, f in jobs:
            c = min(c, width)
            with cond:
                while free[0] < c:
                    cond.wait()
                free[0] -= c
            t = threading.Thread(target=work, args=(c, f))
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
        if errs:
            raise errs[0]

    # ------------------------------------------------------------------
    def violation(self, key, msg, case=""):
        self.viol.append({"key": key, "msg": msg, "case": case})

    def finish(self, min_cases=1, min_nontrivial=1):
        wall = time.time() - self.t0
        fresh = []
        for v in self.viol:
            k = self.match_known(v)
            if k:
                self.known_hit.setdefault(k, v)
            else:
                fresh.append(v)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": self.evals, "distinct_nontrivial": len(self.sigs),
                "rule": self.rule, "samples": self.samples[:12],
                "monitor_events": self.counts, "process_runs": self.runs,
            },
            "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(fresh),
        }
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.cleanup()
        for k, v in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if fresh:
            rd = os.path.join(B.CACHE, "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s_seed%d.json" % (self.prop, self.seed))
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "replay": "VERIF_SEED=%d VERIF_TIER=%s python3 /verif/check.py %s" % (self.seed, self.tier, self.prop),
                           "violations": fresh[:50]}, f, indent=1)
            for v in fresh[:8]:
                print("  %s | case %s | %s" % (v["key"], v.get("case", ""), str(v["msg"])[:400].replace("\n", " ")))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            sys.stdout.flush()
            sys.exit(1)
        if self.evals < min_cases or len(self.sigs) < min_nontrivial:
            print("ERROR: the monitors observed too little (%d cases, %d distinct non-trivial; expected %d, %d)"
                  % (self.evals, len(self.sigs), min_cases, min_nontrivial))
            sys.exit(2)
        print("OK property=%s tier=%s seed=%d cases=%d distinct=%d events=%s wall=%.1fs"
              % (self.prop, self.tier, self.seed, self.evals, len(self.sigs),
                 sum(self.counts.values()), wall))
        sys.stdout.flush()
        sys.exit(0)

    def match_known(self, v):
        for k in self.known:
            if re.fullmatch(k["key"], v["key"]) and re.fullmatch(k.get("case", ".*"), v.get("case", "") or ""):
                return k["what"]
        return None

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)
        for e in self.exes:
            shutil.rmtree(os.path.dirname(e), ignore_errors=True)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get("known", []) if k["property"] == prop]


def progress(od):
    n = 0
    try:
        for f in os.listdir(od):
            if f.endswith(".jsonl"):
                n += os.path.getsize(os.path.join(od, f))
    except OSError:
        pass
    return n


def killtree(p):
    # mpirun puts its children into process groups of their own
    kids = descendants(p.pid)
    for pid in kids + [p.pid]:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        p.wait(timeout=10)
    except subprocess.TimeoutExpired:
        pass


def descendants(root):
    par = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    s = f.read()
                par.setdefault(int(s[s.rindex(")") + 2:].split()[1]), []).append(int(d))
            except (OSError, ValueError):
                pass
    out, st = [], [root]
    while st:
        for c in par.get(st.pop(), []):
            out.append(c)
            st.append(c)
    return out


def is_infra(r):
    """Did the run fail before or outside the code under test?"""
    if r.hang:
        return False
    if "exited on signal 9" in r.err or "Killed" in r.err[-300:]:
        return True
    if not r.cases and r.open_case is None and ("ORTE" in r.err or "orte" in r.err or "PMIX" in r.err or "Unable to start" in r.err):
        return "DNDS_assertion" not in r.err and "Sanitizer" not in r.err and "runtime error" not in r.err
    return False


def parse(od, np, r):
    done = 0
    for rank in range(np):
        p = os.path.join(od, "r%d.jsonl" % rank)
        if not os.path.exists(p):
            continue
        opened = None
        with open(p, "rb") as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                t = d.pop("t", None)
                if t == "begin":
                    opened = d["id"]
                elif t == "case":
                    opened = None
                    if rank == 0:
                        r.cases.append(d)
                elif t == "viol":
                    d["rank"] = rank
                    r.viol.append(d)
                elif t == "count":
                    r.counts[d["name"]] = r.counts.get(d["name"], 0) + d["n"]
                elif t == "sample":
                    r.samples.append(d.get("v"))
                elif t == "res":
                    d["rank"] = rank
                    r.results.append(d)
                elif t == "done":
                    done += 1
        if opened and not r.open_case:
            r.open_case = opened
    r.done = done == np
