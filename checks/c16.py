"""C16: distributed unknown vectors."""
from checks.solver_common import BUILDS, solver_runs
RULE = "distinct (array kind, size, distribution, history of vector operations) cases compared element by element with a plain mirror"
EXPECT = (40, 40)


def run(c):
    q = c.quick
    solver_runs(c, [("dof", 60 if q else 200, [1, 2, 3, 5] if q else [1, 2, 3, 4, 5, 6, 7, 8], 1 if q else 4)])
