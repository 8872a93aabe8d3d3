"""C14: Krylov solvers."""
from checks.solver_common import BUILDS, solver_runs
RULE = "distinct (operator, preconditioner, subspace size, restart count, start vector, rank count) solves, each compared with the exact minimiser or solution"
EXPECT = (60, 50)


def run(c):
    q = c.quick
    solver_runs(c, [("krylov", 100 if q else 300, [1, 2, 3, 5] if q else [1, 2, 3, 4, 5, 8], 1 if q else 4)])
