"""C20: gas kernels."""
from vt.build import H, DNDS_LITE
RULE = "distinct (dimension, jump kind, Mach decade, gamma, moving face, mean states) draws, each passed through every Riemann solver, the batch versions, the viscous flux and the positivity compression"
EXPECT = (1000, 100)
BUILDS = [("h_gas", [H("h_gas")] + DNDS_LITE, "san")]


def run(c):
    q = c.quick
    exe = c.exe["h_gas.san"]
    c.parallel([(2, lambda b=b: c.run(exe, 2, ["--mode", "gas", "--n", 1500 if q else 20000, "--base", b], timeout=400, label="gas %d" % b))
                for b in range(4 if q else 16)])
