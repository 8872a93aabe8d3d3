"""C12: saved partitions and local reordering."""
from checks.mesh_common import BUILDS, mesh_runs
RULE = ("distinct (mesh, rank count, back end, state) cases: mesh written and read back compared word for word and then used; local cells renumbered before and "
        "after faces exist, with every relation compared with the generator")
EXPECT = (60, 50)


def run(c):
    mesh_runs(c, [("ser", 3), ("reorder", 3)], [1, 2, 3, 5, 8] if c.quick else [1, 2, 3, 4, 5, 6, 7, 8], 24 if c.quick else 50)
