"""C05: object pool."""
from vt.build import H, DNDS_LITE
BUILDS = [("h_array", [H("h_array")] + DNDS_LITE, "san")]
RULE = ("distinct random histories of acquiring, moving, releasing, resizing, destroying the pool under live holders; "
        "object identities, live-object counts and pool size compared with a model after every step, under ASan/UBSan")
EXPECT = (500, 500)


def run(c):
    exe = c.exe["h_array.san"]
    n = 200 if c.quick else 4000
    c.parallel([(1, lambda k=k: c.run(exe, 1, ["--mode", "pool", "--n", n, "--base", 100000 * k], timeout=120)) for k in range(4)])
