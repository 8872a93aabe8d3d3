"""C04: serializer round trip."""
from vt.build import H, DNDS_LITE
BUILDS = [("h_serial", [H("h_serial")] + DNDS_LITE, "san")]
RULE = ("distinct (back end and its settings, rank count, random document) triples: documents of nested groups with scalars, "
        "strings, distributed and common vectors, shared vectors, arrays of every layout, derived arrays and owned/ghost "
        "pairs, with empty ranks; every value read back bit for bit, in another order, under ASan/UBSan")
EXPECT = (100, 100)


def run(c):
    exe = c.exe["h_serial.san"]
    n = 12 if c.quick else 150
    jobs = []
    for np in ([1, 2, 3, 5] if c.quick else [1, 2, 3, 4, 5, 6, 7, 8]):
        jobs.append((min(np, 4), lambda np=np: c.run(exe, np, ["--n", n, "--base", 1000 * np], timeout=60, label="np%d" % np)))
    c.parallel(jobs)
