"""C11: order elevation and subdivision."""
from checks.mesh_common import BUILDS, mesh_runs
RULE = ("distinct (mesh, rank count) cases raised to second order (compared with an independent elevation) and subdivided once or twice (parts fill each parent, "
        "conform, keep boundary zones); faces and adjacency rebuilt and compared each time")
EXPECT = (40, 50)


def run(c):
    mesh_runs(c, [("elev", 0), ("elev", 3)], [1, 2, 3, 5, 8] if c.quick else [1, 2, 3, 4, 5, 6, 7, 8], 12 if c.quick else 40)
