"""C03: array containers."""
from vt.build import H, DNDS_LITE
BUILDS = [("h_array", [H("h_array")] + DNDS_LITE, "san")]
RULE = ("distinct (element type, storage layout, random operation history) runs of three co-existing arrays against a "
        "list-of-lists model, every element of every array read back through every accessor after every operation, under ASan/UBSan")
EXPECT = (200, 200)


def run(c):
    exe = c.exe["h_array.san"]
    n = 12 if c.quick else 150
    c.parallel([(1, lambda k=k: c.run(exe, 1, ["--n", n, "--base", 10000 * k], timeout=120)) for k in range(8)])
