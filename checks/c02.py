"""C02: local/global/ghost index mapping."""
from vt.build import H, DNDS_LITE
BUILDS = [("h_comm", [H("h_comm")] + DNDS_LITE, "san")]
RULE = ("distinct (ownership distribution, ghost request set, rank count) mappings with at least one ghost on a remote "
        "rank; every global index and every local appended index of every rank is looked up and inverted")
EXPECT = (100, 50)


def run(c):
    exe = c.exe["h_comm.san"]
    jobs = []
    n = 200 if c.quick else 3000
    for np in ([1, 2, 3, 4, 5, 8] if c.quick else [1, 2, 3, 4, 5, 6, 7, 8]):
        args = ["--n", n, "--map", 1, "--base", 7000 * np]
        jobs.append((min(np, 4), lambda np=np, args=args: c.run(exe, np, args, timeout=60, label="np%d" % np)))
    c.parallel(jobs)
