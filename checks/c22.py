"""C22: configuration."""
from vt.build import H, DNDS_LITE
RULE = "distinct (section, model, choice of boundary kinds / initializers / enumerations / patch and override use) configurations written, read, patched, logged and re-read"
EXPECT = (1500, 300)
BUILDS = [("h_cfg", [H("h_cfg")] + DNDS_LITE, "san")]


def run(c):
    q = c.quick
    exe = c.exe["h_cfg.san"]
    c.parallel([(2, lambda b=b: c.run(exe, 1 + b % 3, ["--mode", "cfg", "--n", 250 if q else 4000, "--base", b], timeout=400, label="cfg %d" % b))
                for b in range(4 if q else 12)])
