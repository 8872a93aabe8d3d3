"""C06: element library."""
from vt.build import H, DNDS_LITE, R
BUILDS = [("h_elem", [H("h_elem")] + DNDS_LITE + [R + "DNDS/HardEigen.cpp", R + "Geom/Elements.cpp"], "san")]
RULE = ("one case per element type and aspect (shape functions, faces, quadrature, refinement patches, VTK order) plus random face-connection "
        "queries; each evaluates hundreds of random points against closed-form references")
EXPECT = (50, 50)


def run(c):
    exe = c.exe["h_elem.san"]
    n = 40 if c.quick else 1500
    c.run(exe, 1, ["--mode", "elem", "--n", n], timeout=300)
