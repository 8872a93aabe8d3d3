"""C01: ghost exchange."""
from vt.build import H, DNDS_LITE
BUILDS = [("h_comm", [H("h_comm")] + DNDS_LITE, "san")]
RULE = ("distinct (element type, row layout, strategy, operation history, rank count) exchange histories in which at "
        "least one row crossed a rank boundary; every row of every rank is compared with a global reference after every step")
EXPECT = (100, 50)
VARIANTS = [{}, {"DNDS_USE_STRONG_SYNC_WAIT": 1}, {"DNDS_USE_ASYNC_ONE_BY_ONE": 1}, {"DNDS_USE_LAZY_WAIT": 1}]


def run(c):
    exe = c.exe["h_comm.san"]
    jobs = []
    nps = [2, 3, 5, 8] if c.quick else [1, 2, 3, 4, 5, 6, 7, 8]
    n = 104 if c.quick else 1000
    for np in nps:
        for vi, v in enumerate(VARIANTS):
            for sync in (0, 1):
                if c.quick and (vi + sync + np) % 2:
                    continue
                args = ["--n", n, "--base", 1000 * np + 100000 * vi, "--sync", sync, "--delays", 1 - sync if c.quick else (vi + np) % 2]
                jobs.append((min(np, 4), lambda np=np, v=v, args=args: c.run(
                    exe, np, args, timeout=60, env=v, label="np%d %s" % (np, v))))
    jobs.append((1, lambda: c.run(exe, 1, ["--n", n], timeout=60, label="np1")))
    c.parallel(jobs)
