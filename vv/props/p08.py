"""Sizes and merging of particles against spec/Merge.tla."""
from vv.common import build, q, qr
from vv.drive import Script
from vv import history

SHAPES = [[(0, 0), (0, 2), (0, 4), (0, 6), (2, 6), (4, 6), (4, 4), (4, 2), (4, 0), (2, 0)],
          [(0, 0), (0, 1), (0, 2), (1, 2), (2, 2), (2, 1), (2, 0), (1, 0)],
          [(0, 0), (0, 3), (3, 3), (3, 0)],
          [(0, 0), (0, 1), (0, 4), (0, 6), (3, 6), (4, 6), (4, 0)]]


def cloud(rng, n, kind, where):
    """n places in 16ths of a unit"""
    if kind == "wide":
        return [(rng.randint(-500, 500), rng.randint(-500, 500)) for _ in range(n)]
    cs = [(rng.randint(-300, 300), rng.randint(-300, 300)) for _ in range(rng.choice([1, 2, 4]))] + where
    r = {"dense": 12, "loose": 60, "mixed": rng.choice([8, 30])}[kind]
    return [(x + rng.randint(-r, r), y + rng.randint(-r, r)) for x, y in (rng.choice(cs) for _ in range(n))]


def check(c):
    b = build(["vvhd", "vvflow"], ["drv_flow"])
    mc = "INIT Init\nNEXT Next\nINVARIANTS Off OneSign Bookkeeping\nPROPERTY Kept\n"
    c.model("MergeMC", "CONSTANTS N = 3 W = 2 Gs <- Both Crits = {0,150,600} Step = 16\n" + mc)
    if c.thorough:
        c.model("MergeMC", "CONSTANTS N = 4 W = 3 Gs <- Pair Crits = {0,150,600} Step = 16\n" + mc)
    rng = c.rng
    s = Script(b.driver("drv_flow"))
    jobs = []
    for n in range(c.n(500, 8000)):
        s.do("new", 0)
        segs = []
        where = []
        for nb in range(rng.choice([0, 1, 1, 1, 2])):
            sh = rng.choice(SHAPES)
            ox, oy = rng.randint(-6, 6), rng.randint(-6, 6)
            if nb:
                ox += 14
            s.do("body", len(sh), " ".join("%d %d 0" % (x + ox, y + oy) for x, y in sh))
            for j, (x, y) in enumerate(sh):
                x2, y2 = sh[(j + 1) % len(sh)]
                segs.append({"id": [nb, j], "x": (x + x2 + 2 * ox) * 32, "y": (y + y2 + 2 * oy) * 32,
                             "dl2": ((x2 - x) ** 2 + (y2 - y) ** 2) * 4096})
                where.append((16 * (x + ox), 16 * (y + oy)))
        kind = rng.choice(["wide", "dense", "dense", "loose", "mixed"])
        gs = rng.choice([[1], [-1, 1], [-1, 1], [-3, -2, -1, 1, 2, 3], [1, 1, 1, -5], [-7, 2, 3, 4, 0]])
        sizes = {"vort": rng.choice([0, 1, 2, 3, 8, 20, 34]), "heat": rng.choice([0, 0, 1, 2, 3, 8, 20])}
        for name, m in sizes.items():
            for x, y in cloud(rng, m, kind, where):
                s.do(name, x / 16, y / 16, rng.choice(gs), 0, 0)
        if not (sizes["vort"] or sizes["heat"] or segs):
            s.do("vort", 0, 0, 1, 0, 0)
        mn = rng.choice([0, 0, 1, 10, 1000])
        mx = rng.choice([1e300, 1e300, 5, 20])
        if mx <= mn:
            mx = 1e300
        merge = rng.random() < 0.8
        s.ask("tree", 8, mn, mx, 1, 1, 1)
        s.ask("eps", int(merge), mn, mx)
        s.ask("dump")
        jobs.append((segs, merge, kind))
    answers = s.run("merging")
    events = []

    def objs(l):
        return [{"x": q(o[0], 64), "y": q(o[1], 64), "g": q(o[2])} for o in l]

    def after(l):
        return [{"x": qr(o[0], 64), "y": qr(o[1], 64), "g": q(o[2]), "eps": min(qr(1 / o[5], 64), 10 ** 8) if o[2] else 0} for o in l]
    for k, (segs, merge, kind) in enumerate(jobs):
        t, m, d = answers[3 * k: 3 * k + 3]
        events.append({"segs": segs, "merge": merge, "kind": kind, "merged": m["merged"],
                       "leaves": [{"box": [qr(l["box"][0], 64), qr(l["box"][1], 64)], "v": l["v"], "h": l["h"], "b": l["b"],
                                   "near": l["near"]} for l in t["leaves"]],
                       "v0": objs(t["vort"]), "h0": objs(t["heat"]), "v1": after(d["vort"]), "h1": after(d["heat"])})
    # runs: a viscous flow merges, an inviscid one never
    for n in range(c.n(24, 200)):
        re = rng.choice(["inf", "300", "3000"])
        l = ["S.re=%s" % re]
        for x, y in cloud(rng, rng.choice([3, 6, 14]), rng.choice(["dense", "loose"]), []):
            l.append("S.vort_list:append{%r,%r,%d}" % (x / 64, y / 64, rng.choice([-2, -1, 1, 3])))
        h = history.record(b, c.scratch + "/run%d" % n, "\n".join(l), (1, 1000), 3, what="a flow without bodies")
        for x, y in zip(h, h[1:]):
            v = [[{"x": qr(p[0], 64 * 20), "y": qr(p[1], 64 * 20), "g": q(p[2])} for p in st["vort"]] for st in (x, y)]
            events.append({"kind": "run", "merge": re != "inf", "v0": v[0], "v1": v[1],
                           "merged": len(v[0]) - len(v[1])})
    c.notes["run_steps"] = sum(e["kind"] == "run" for e in events)
    c.notes["rounds"] = len(events)
    c.notes["merges"] = sum(e["merged"] for e in events)
    for e in events[:4]:
        c.sample({"kind": e["kind"], "vortices": len(e["v0"]), "merged": e["merged"], "merging": e["merge"]})
    c.expect_all("MergeTrace", events, "sizes and merging")
    c.notes["left_open_by_rounding"] = c.opens
