"""Trees the code builds against spec/SortedTree.tla."""
from vv.common import Violation, build, q
from vv.drive import Script


def points(rng, n, kind, size):
    r = lambda: rng.randint(0, size)
    if kind == "uniform":
        return [(r(), r()) for _ in range(n)]
    if kind == "line":
        return [(r(), 7) for _ in range(n)] if rng.random() < 0.5 else [(-3, r()) for _ in range(n)]
    if kind == "same":
        return [(5, 5)] * n
    if kind == "diagonal":
        return [(k * 3, k * 3) for k in range(n)]
    if kind == "spread":
        return [(2 ** rng.randint(0, 9), -2 ** rng.randint(0, 9)) for _ in range(n)]
    cs = [(r(), r()) for _ in range(3)]
    return [(c[0] + rng.randint(-2, 2), c[1] + rng.randint(-2, 2)) for c in (rng.choice(cs) for _ in range(n))]


SHAPES = [[(0, 0), (0, 4), (4, 4), (4, 0)],
          [(0, 0), (0, 2), (0, 4), (0, 6), (2, 6), (4, 6), (4, 4), (4, 2), (4, 0), (2, 0)],
          [(-20, -20), (20, -20), (20, 20), (-20, 20)],
          [(2 * k, 0) for k in range(20)] + [(2 * k, 2) for k in range(19, -1, -1)]]


def check(c):
    b = build(["vvhd"], ["drv_flow"])
    c.model("SortedTreeMC",
            "CONSTANTS W = 5 H = 2 Limit = 2 Crits = {1,8} Mins = {0,1} Maxs = {3,100} MaxN = %d\n" % c.n(4, 6)
            + "INIT Init\nNEXT Next\nINVARIANT Promises\n")
    rng = c.rng
    s = Script(b.driver("drv_flow"))
    jobs = []
    for k in range(c.n(220, 2500)):
        s.do("new", 0)
        kind = rng.choice(["uniform", "uniform", "line", "same", "cluster", "cluster", "spread", "diagonal"])
        size = rng.choice([4, 30, 200])
        n = rng.choice([0, 1, 2, 15, 16, 17, 33, 50]) if not c.thorough else rng.choice([1, 5, 16, 17, 40, 90, 150])
        lists = {"vort": [], "heat": [], "streak": []}
        for name in lists:
            m = n if name == "vort" else rng.choice([0, 0, 1, 16, 20])
            for x, y in points(rng, m, kind, size):
                g = rng.choice([-3, -2, -1, 1, 1, 2, 5, 0 if rng.random() < 0.2 else 4])
                if rng.random() < 0.2:
                    g = abs(g)
                lists[name].append((x, y, g))
                s.do(name, x, y, g, 0, 0)
        segs = []
        for nb in range(rng.choice([0, 0, 1, 2])):
            sh = rng.choice(SHAPES)
            ox, oy = 2 * rng.randint(-5, 20), 2 * rng.randint(-5, 20)
            s.do("body", len(sh), " ".join("%d %d 0" % (x + ox, y + oy) for x, y in sh))
            for j, (x, y) in enumerate(sh):
                x2, y2 = sh[(j + 1) % len(sh)]
                segs.append({"id": [nb, j], "x": (x + x2) // 2 + ox, "y": (y + y2) // 2 + oy, "g": 0})
        use = [rng.random() < 0.9, rng.random() < 0.9, rng.random() < 0.9]
        if not any(use[i] and l for i, l in ((0, lists["vort"]), (1, segs), (2, lists["heat"]))) and not lists["streak"]:
            lists["streak"].append((1, 1, 1))
            s.do("streak", 1, 1, 1, 0, 0)
        crit = rng.choice([8, 8, 8, 1, 2, 20])
        mn = rng.choice([0, 0, 0, 1, 3, 10, 1000])
        mx = rng.choice([1e300, 1e300, 3, 20, 1000])
        if mx <= mn:
            mx = 1e300
        s.ask("tree", crit, mn, mx, *[int(u) for u in use])
        jobs.append((lists, segs, use, crit, mn, mx, kind))
    answers = s.run("building the tree")
    events = []
    for (lists, segs, use, crit, mn, mx, kind), t in zip(jobs, answers):
        def box(x):
            return {"x2": q(x[0], 2), "y2": q(x[1], 2), "w": q(x[2]), "h": q(x[3])}

        def cm(x):
            from vv.common import qr
            return [qr(x[0], 1024), qr(x[1], 1024), q(x[2])]

        def objs(l):
            return [{"x": q(o[0]), "y": q(o[1]), "g": q(o[2])} for o in l]

        def before(l):
            return [{"x": o[0], "y": o[1], "g": o[2]} for o in l]
        # a list that was left out is not in the tree at all
        keep = {"vort": use[0], "heat": use[2], "streak": True}
        e = {"mn": mn, "mx": int(min(mx, 10**6)), "crit": crit, "kind": kind,
             "segs": segs if use[1] else [],
             "find": t["find"] if use[0] else [],
             "leaves": [{"box": box(l["box"]), "v": l["v"], "h": l["h"], "s": l["s"], "b": l["b"],
                         "near": l["near"], "p": cm(l["p"]), "m": cm(l["m"]),
                         "far": [{"box": box(f["box"]), "p": cm(f["p"]), "m": cm(f["m"]), "leaves": f["leaves"]}
                                 for f in l["far"]]}
                        for l in t["leaves"]]}
        for n in lists:
            e[n + "0"] = before(lists[n]) if keep[n] else []
            e[n] = objs(t[n]) if keep[n] else []
        events.append(e)
    c.notes["trees"] = len(events)
    c.notes["leaves"] = sum(len(e["leaves"]) for e in events)
    c.notes["far_cells"] = sum(len(l["far"]) for e in events for l in e["leaves"])
    for e in events[:6]:
        c.sample({"kind": e["kind"], "vortices": len(e["vort"]), "leaves": len(e["leaves"]),
                  "crit": e["crit"], "mn": e["mn"], "mx": e["mx"]})
    c.expect_all("SortedTreeTrace", events, "a tree")
