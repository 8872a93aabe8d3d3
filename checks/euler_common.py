from vt.build import H, DNDS, GEOM, cfv, euler
_TAIL = GEOM + DNDS + [H("exprtk_stub")]
MODELS = {"2d": ("NS_2D", "2_4"), "3d": ("NS_3D", "3_5"), "sa": ("NS_SA", "2_6"), "ke": ("NS_2EQ", "2_7")}


def builds(**profiles):
    out = []
    for m, p in profiles.items():
        m = m[1:]
        model, inst = MODELS[m]
        out.append(("h_euler_" + m, [H("h_euler_" + m)] + euler(model, False) + cfv(inst) + _TAIL, p))
    return out


def exes(c):
    """model -> executable"""
    return {k.split(".")[0].split("_")[2]: v for k, v in c.exe.items()}


def jobs(c, modes, timeout=400):
    """modes: (mode, model, n, rank counts, repeats)"""
    ex = exes(c)
    out = []
    for k, (mode, model, n, nps, rep) in enumerate(modes):
        for np in nps:
            for b in range(rep):
                args = ["--mode", mode, "--n", n, "--base", 1000 * np + 17 * k + 100000 * b]
                out.append((min(np, 8), lambda np=np, args=args, mode=mode, model=model:
                            c.run(ex[model], np, args, timeout=timeout, label="%s %s np%d" % (mode, model, np))))
    return out


def same_everywhere(c, mode, model, n, nps, rep, key, tol, timeout=400):
    """The same cases on several rank counts: the emitted projections must agree."""
    exe = exes(c)[model]
    js, out = [], []
    for b in range(rep):
        for np in nps:
            args = ["--mode", mode, "--n", n, "--base", 5000 + 10000 * b]

            def go(np=np, args=args, b=b):
                r = c.run(exe, np, args, timeout=timeout, label="%s %s np%d" % (mode, model, np))
                out.append((b, np, r))
            js.append((min(np, 8), go))

    def compare():
        table = {}
        for b, np, r in out:
            for rec in r.results:
                table.setdefault((b, rec["name"]), {})[np] = rec["v"]
        for (b, name), row in sorted(table.items()):
            np0 = min(row)
            for np in sorted(row):
                if np == np0:
                    continue
                c.counts["chk:" + key] = c.counts.get("chk:" + key, 0) + 1
                v, w = row[np0], row[np]
                ok = len(v) == len(w) and all(abs(p - q) <= tol * (abs(p) + abs(q)) + tol * max(1.0, max(map(abs, v))) for p, q in zip(v, w))
                if not ok:
                    c.violation(key, "%s: %d ranks give %s, %d ranks give %s" % (name, np0, v, np, w), case="%s np%d" % (name, np))
    return js, compare
