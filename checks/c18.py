"""C18: variational reconstruction."""
from checks.vr_common import BUILDS, vr_jobs, same_everywhere  # noqa: F401
RULE = ("distinct (mesh, rank count, order, functional, sweep) cases: residual of exact polynomials, steps against the recorded residual, linearised sweeps, symmetry, second-order "
        "methods and agreement over rank counts")
EXPECT = (90, 80)


def run(c):
    q = c.quick
    nps = [1, 2, 4] if q else [1, 2, 3, 4, 5, 8]
    j, _ = vr_jobs(c, [("rec", 50 if q else 300, nps, 1 if q else 3), ("rec2", 40 if q else 200, nps, 1 if q else 2)])
    k, cmp = same_everywhere(c, "proj", 24 if q else 150, [1, 2, 4], 1 if q else 2, "reconstruction-partition", 1e-8)
    c.parallel(j + k)
    cmp()
