"""C13: direct solvers and orderings."""
from checks.solver_common import BUILDS, solver_runs
RULE = ("distinct (graph or mesh part, ordering, fill level, scalar/block type) cases: ordering checked to be a permutation, factor and solve compared with dense "
        "algebra")
EXPECT = (300, 200)


def run(c):
    q = c.quick
    solver_runs(c, [("lu", 150, [1], 6 if q else 48), ("lumesh", 16 if q else 40, [1, 2, 3, 4, 6] if q else [1, 2, 3, 4, 5, 6, 7, 8], 1 if q else 3),
                    ("lucomplete", 2, [1], 1)])
