"""C07: derivative algebra."""
from vt.build import H, DNDS_LITE, R
BUILDS = [("h_elem", [H("h_elem")] + DNDS_LITE + [R + "DNDS/HardEigen.cpp", R + "Geom/Elements.cpp"], "san")]
RULE = ("random polynomials, nonlinear and linear coordinate maps of both dimensions; every derivative up to third order compared with a "
        "truncated power-series calculus that shares no code with the library")
EXPECT = (20, 4)


def run(c):
    exe = c.exe["h_elem.san"]
    n = 60 if c.quick else 3000
    c.parallel([(1, lambda k=k: c.run(exe, 1, ["--mode", "diff", "--n", n + k], timeout=300)) for k in range(4)])
