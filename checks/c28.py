"""C28: positivity."""
from checks.euler_common import builds, jobs
RULE = "distinct (mesh, periodicity, order, model, gas, eps option, amplitude, limiting option, rank count) positivity evaluations"
EXPECT = (500, 400)
BUILDS = builds(m2d="san", m3d="opt", msa="opt", mke="opt")


def run(c):
    q = c.quick
    k = 1 if q else 6
    c.parallel(jobs(c, [("pos", d, k * (120 if d == "ke" else 60), [1, 2, 3] if q else [1, 2, 3, 4, 6], 1 if q else 3) for d in ("2d", "3d", "sa", "ke")]))
