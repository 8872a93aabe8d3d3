"""C08: reading and distributing a mesh."""
from checks.mesh_common import BUILDS, mesh_runs
RULE = ("distinct (generated mesh, file layout, partitioner setting, rank count) cases: the mesh is written as CGNS or OpenFOAM by an independent writer, "
        "read and distributed by the real pipeline, and every node, cell, boundary element, neighbour list and ghost of every rank is compared with the generator")
EXPECT = (60, 50)


def run(c):
    mesh_runs(c, [("base", 0), ("base", 0)], [1, 2, 3, 5, 8] if c.quick else [1, 2, 3, 4, 5, 6, 7, 8], 30 if c.quick else 60)
