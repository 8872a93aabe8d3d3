"""C19: smoothness indicators and limiters."""
from checks.vr_common import BUILDS, vr_jobs, same_everywhere  # noqa: F401
RULE = "distinct (mesh, rank count, order, limiter, characteristic map) cases and limiter kernel batches, plus agreement over rank counts"
EXPECT = (60, 50)


def run(c):
    q = c.quick
    nps = [1, 2, 4] if q else [1, 2, 3, 4, 5, 8]
    j, _ = vr_jobs(c, [("lim", 24 if q else 150, nps, 1 if q else 3), ("kernels", 4 if q else 30, [1], 1)])
    k, cmp = same_everywhere(c, "proj", 24 if q else 150, [1, 3], 1 if q else 2, "limiter-partition", 1e-8)
    c.parallel(j + k)
    cmp()
