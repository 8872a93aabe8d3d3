"""C25: boundary states."""
from checks.euler_common import builds, jobs
RULE = "distinct (boundary kind, options, model, frame, state regime) boundary-state evaluations on real boundary faces"
EXPECT = (900, 700)
BUILDS = builds(m2d="san", m3d="opt", msa="opt", mke="opt")


def run(c):
    q = c.quick
    k = 1 if q else 10
    c.parallel(jobs(c, [("bnd", d, k * (120 if d == "2d" else 80), [1, 2, 3] if q else [1, 2, 3, 4, 6], 1 if q else 3) for d in ("2d", "3d", "sa", "ke")]))
