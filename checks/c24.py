"""C24: the spatial residual."""
from checks.euler_common import builds, jobs, same_everywhere
RULE = "distinct (mesh, periodicity, order, model, Riemann solver, flag, gas, rotation, boundary kinds, rank count) residual evaluations and uniform-flow cases"
EXPECT = (1500, 1200)
BUILDS = builds(m2d="opt", m3d="opt", msa="opt", mke="opt")


def run(c):
    q = c.quick
    nps = [1, 2, 3] if q else [1, 2, 3, 4, 5, 8]
    rep = 1 if q else 3
    k = 1 if q else 4
    j = jobs(c, [(m, d, k * (120 if d == "2d" else 60), nps, rep) for m in ("rhs", "uniform") for d in ("2d", "3d", "sa", "ke")])
    cmps = []
    for d in ("2d", "3d", "sa", "ke"):
        js, cm = same_everywhere(c, "proj", d, 30 * k, [1, 2, 4] if q else [1, 2, 3, 4, 6], rep, "residual-partition", 1e-7)
        j += js
        cmps.append(cm)
    c.parallel(j)
    for cm in cmps:
        cm()
