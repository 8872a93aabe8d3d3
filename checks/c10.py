"""C10: periodic meshes."""
from checks.mesh_common import BUILDS, mesh_runs
RULE = ("distinct periodic meshes (translations in 1-3 directions, rotated sectors, linear and curved) per partition and rank count; node merging, glued faces, "
        "image coordinates and what each side sees across every face are compared with the generator")
EXPECT = (60, 50)


def run(c):
    mesh_runs(c, [("per", 1), ("per", 2)], [1, 2, 3, 5, 8] if c.quick else [1, 2, 3, 4, 5, 6, 7, 8], 24 if c.quick else 60)
