"""C23: recorders, profiles and the lift driver."""
from vt.build import H, DNDS_LITE
RULE = "distinct (kind, component count, empty rank, driver axis, number of angle changes, window) histories of additions, reductions and driver updates"
EXPECT = (800, 30)
BUILDS = [("h_cfg", [H("h_cfg")] + DNDS_LITE, "san")]


def run(c):
    q = c.quick
    exe = c.exe["h_cfg.san"]
    c.parallel([(2, lambda b=b: c.run(exe, 1 + b % 3, ["--mode", "rec", "--n", 250 if q else 4000, "--base", b], timeout=400, label="rec %d" % b))
                for b in range(4 if q else 12)])
