"""C09: faces and derived adjacency."""
from checks.mesh_common import BUILDS, mesh_runs
RULE = ("distinct (mesh, file layout, partition, rank count) cases in which faces, face neighbours, boundary links, node adjacency, the boundary mesh and "
        "index conversions of every rank were compared with those computed from the generator")
EXPECT = (60, 50)


def run(c):
    mesh_runs(c, [("face", 0), ("face", 3)], [1, 2, 3, 5, 8] if c.quick else [1, 2, 3, 4, 5, 6, 7, 8], 30 if c.quick else 60)
