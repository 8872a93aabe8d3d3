from vt.build import H, DNDS, GEOM
BUILDS = [("h_mesh", [H("h_mesh")] + DNDS + GEOM, "san")]


def mesh_runs(c, modes, nps, n, big=0, timeout=400):
    """modes: list of (mode, per)"""
    exe = c.exe["h_mesh.san"]
    jobs = []
    for np in nps:
        for k, (mode, per) in enumerate(modes):
            for b in range(1 if c.quick else 6):
                args = ["--mode", mode, "--per", per, "--n", n, "--base", 100 * np + 7 * k + 10000 * b, "--big", 1 if (big or b % 2) else 0]
                jobs.append((min(np, 8), lambda np=np, args=args, mode=mode, per=per: c.run(
                    exe, np, args, timeout=timeout, label="%s per%d np%d" % (mode, per, np))))
    c.parallel(jobs)
