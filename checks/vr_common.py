from vt.build import H, DNDS, GEOM, cfv
BUILDS = [("h_vr", [H("h_vr")] + DNDS + GEOM + cfv("2_4", "3_5"), "san")]


def vr_jobs(c, modes, timeout=400):
    """modes: list of (mode, n, rank counts, repeats); returns the records of each run"""
    exe = c.exe["h_vr.san"]
    jobs, out = [], []
    for k, (mode, n, nps, rep) in enumerate(modes):
        for np in nps:
            for b in range(rep):
                args = ["--mode", mode, "--n", n, "--base", 100 * np + 7 * k + 10000 * b]

                def go(np=np, args=args, mode=mode):
                    r = c.run(exe, np, args, timeout=timeout, label="%s np%d" % (mode, np))
                    out.append((mode, np, r))
                jobs.append((min(np, 8), go))
    return jobs, out


def same_everywhere(c, mode, n, nps, rep, key, tol, timeout=400):
    """The same cases on several rank counts: the emitted projections must agree."""
    exe = c.exe["h_vr.san"]
    jobs, out = [], []
    for b in range(rep):
        for np in nps:
            args = ["--mode", mode, "--n", n, "--base", 5000 + 10000 * b]

            def go(np=np, args=args, b=b):
                r = c.run(exe, np, args, timeout=timeout, label="%s (projections) np%d" % (mode, np))
                out.append((b, np, r))
            jobs.append((min(np, 8), go))

    def compare():
        table = {}
        for b, np, r in out:
            for rec in r.results:
                table.setdefault((b, rec["name"]), {})[np] = rec["v"]
        for (b, name), row in sorted(table.items()):
            if len(row) < 2:
                continue
            np0 = min(row)
            for np in sorted(row):
                if np == np0:
                    continue
                c.counts["chk:" + key] = c.counts.get("chk:" + key, 0) + 1
                v, w = row[np0], row[np]
                ok = len(v) == len(w) and all(abs(p - q) <= tol * (abs(p) + abs(q)) + tol * max(1.0, max(map(abs, v))) for p, q in zip(v, w))
                if not ok:
                    c.violation(key, "%s: %d ranks give %s, %d ranks give %s" % (name, np0, v, np, w), case="%s np%d" % (name, np))
    return jobs, compare
