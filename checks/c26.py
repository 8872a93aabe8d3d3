"""C26: wave speeds, time steps and wall distance."""
from checks.euler_common import builds, jobs
RULE = "distinct (mesh, periodicity, order, model, gas, rotation, boundary kinds, limits, wall-distance scheme, rank count) time-step and wall-distance evaluations"
EXPECT = (900, 700)
BUILDS = builds(m2d="san", m3d="opt", msa="opt", mke="opt")


def run(c):
    q = c.quick
    k = 1 if q else 5
    nps = [1, 2, 3] if q else [1, 2, 3, 4, 6]
    rep = 1 if q else 3
    c.parallel(jobs(c, [(m, d, k * (70 if m == "dt" else 40), nps, rep) for m in ("dt", "wall") for d in ("2d", "3d", "sa", "ke")]))
