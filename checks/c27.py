"""C27: implicit operators."""
from checks.euler_common import builds, jobs
RULE = "distinct (mesh, periodicity, order, model, gas, rotation, Jacobian option, sweep order, rank count) implicit-operator applications"
EXPECT = (500, 400)
BUILDS = builds(m2d="san", m3d="opt", msa="opt", mke="opt")


def run(c):
    q = c.quick
    k = 1 if q else 5
    c.parallel(jobs(c, [("imp", d, k * 60, [1, 2, 3] if q else [1, 2, 3, 4, 6], 1 if q else 3) for d in ("2d", "3d", "sa", "ke")]))
