"""C15: time integrators."""
from checks.solver_common import BUILDS, solver_runs
RULE = "distinct (scheme, options, problem, history of steps) integrations compared step by step with an independent implementation of the published scheme, and by order"
EXPECT = (40, 40)


def run(c):
    q = c.quick
    solver_runs(c, [("ode", 60 if q else 200, [1, 2] if q else [1, 2, 3, 4], 1 if q else 4)])
