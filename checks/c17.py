"""C17: metrics and base functions."""
from checks.vr_common import BUILDS, vr_jobs, same_everywhere  # noqa: F401
RULE = ("distinct (mesh, rank count, settings) cases whose metrics are compared with the generator, with the divergence theorem, with the owners of ghosts and with other rank counts")
EXPECT = (60, 50)


def run(c):
    q = c.quick
    j, _ = vr_jobs(c, [("metrics", 40 if q else 300, [1, 2, 3, 5] if q else [1, 2, 3, 4, 5, 8], 1 if q else 3)])
    k, cmp = same_everywhere(c, "metrics", 40 if q else 200, [1, 2, 4], 1 if q else 3, "metrics-partition", 1e-9)
    c.parallel(j + k)
    cmp()
