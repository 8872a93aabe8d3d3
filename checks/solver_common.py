from vt.build import H, DNDS, GEOM
BUILDS = [("h_solver", [H("h_solver")] + DNDS + GEOM, "san")]


def solver_runs(c, modes, timeout=300):
    """modes: list of (mode, n, rank counts, repeats)"""
    exe = c.exe["h_solver.san"]
    jobs = []
    for k, (mode, n, nps, rep) in enumerate(modes):
        for np in nps:
            for b in range(rep):
                args = ["--mode", mode, "--n", n, "--base", 100 * np + 7 * k + 10000 * b]
                jobs.append((min(np, 8), lambda np=np, args=args, mode=mode: c.run(
                    exe, np, args, timeout=timeout, label="%s np%d" % (mode, np))))
    c.parallel(jobs)
