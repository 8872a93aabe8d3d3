"""C21: turbulence closures."""
from vt.build import H, DNDS_LITE
RULE = "distinct (dimension, layer, compressibility) draws; every closure, source, implicit term and turbulent flux of every model is compared with an independent formula"
EXPECT = (300, 12)
BUILDS = [("h_gas", [H("h_gas")] + DNDS_LITE, "san")]


def run(c):
    q = c.quick
    exe = c.exe["h_gas.san"]
    c.parallel([(2, lambda b=b: c.run(exe, 2, ["--mode", "rans", "--n", 1500 if q else 20000, "--base", b], timeout=400, label="rans %d" % b))
                for b in range(4 if q else 16)])
