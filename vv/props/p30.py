"""Viscosity and conduction against spec/Diffusion.tla."""
from vv.common import build, q, qr
from vv.drive import Script

L = 6
SHAPES = [[(0, 0), (0, L), (L, L), (L, 0)],
          [(0, 0), (0, L), (0, 2 * L), (L, 2 * L), (2 * L, 2 * L), (2 * L, L), (2 * L, 0), (L, 0)],
          [(0, L), (0, 2 * L), (L, 3 * L), (2 * L, 3 * L), (3 * L, 2 * L), (3 * L, L), (2 * L, 0), (L, 0)],
          [(0, 0), (0, L), (2 * L, L), (2 * L, 0)]]


def scenario(c, s):
    rng = c.rng
    s.do("new", 0)
    re = rng.choice([1, 2, 10, 100])
    pr = rng.choice([1, 0.5, 4])
    s.do("set", "re", re)
    s.do("set", "pr", pr)
    bodies = []
    for k in range(rng.choice([0, 0, 1, 1, 1, 2])):
        o = rng.choice(SHAPES)
        if rng.random() < 0.1:
            o = o[::-1]
        ox, oy = 2 * rng.randint(-6, 0) + 24 * k, 2 * rng.randint(-6, 2)
        o = [(x + ox, y + oy) for x, y in o]
        s.do("body", len(o), " ".join("%d %d 0" % p for p in o))
        bodies.append(o)
    mids = [((a[0] + b[0]) // 2, (a[1] + b[1]) // 2) for o in bodies for a, b in zip(o, o[1:] + o[:1])]
    wide = rng.choice([6, 14, 30, 60])
    at = bodies[0][0] if bodies and rng.random() < 0.7 else (0, 0)
    for name in ("vort", "heat"):
        n = rng.choice([1, 2, 3, 6, 12, 30, 50])
        sign = rng.choice([0, 0, 1, -1])
        big = rng.choice([1, 9, 9])
        pts = []
        for _ in range(n):
            p = (at[0] + rng.randint(-wide, wide), at[1] + rng.randint(-wide, wide))
            if all((p[0] - m[0]) ** 2 + (p[1] - m[1]) ** 2 >= 4 for m in mids):
                pts.append(p)
        if pts and rng.random() < 0.15:
            pts += [rng.choice(pts)] * rng.choice([1, 2])
        for p in pts:
            g = rng.choice([1, 2, 3, 5, 9, 0 if rng.random() < 0.2 else 4])
            g = min(g, big) * (sign or rng.choice([1, -1]))
            s.do(name, p[0], p[1], g, 0, 0)
    s.do("streak", 290, 290, 1, 0, 0)
    return s.ask("spread", *rng.choice([(0, 1e300), (L * 5, L * 100), (2, 30)]), 0), bodies, re, pr


def check(c):
    b = build(["vvhd"], ["drv_flow"])
    for w, h, nv, sz in ((2, 2, 2, "{1,4}"),) + (((4, 2, 2, "{1,4,9}"), (1, 2, 3, "{1,4}")) if c.thorough else ()):
        c.model("DiffusionMC", "CONSTANTS W = %d H = %d NV = %d Sizes = %s\nINIT Init\nNEXT Next\n"
                "INVARIANTS Apart Unlike Alone Off Turns Opposite\n" % (w, h, nv, sz))
    s = Script(b.driver("drv_flow"))
    jobs = [scenario(c, s) for _ in range(c.n(200, 3000))]
    ans = s.run("viscosity")
    events = []
    for at, bodies, re, pr in jobs:
        t = ans[at]
        m = t["moving"]

        def part(l, scale):
            out = []
            for o in l:
                if not o[2]:
                    out.append([q(o[0]), q(o[1]), 0, 0, qr(o[3], 1e6), qr(o[4], 1e6)])
                    continue
                k = scale(o[5])
                e2 = qr(o[5] ** 2, 1)
                # of no size: nothing but itself is in sight
                out.append([q(o[0]), q(o[1]), q(o[2]), e2, qr(o[3] * k, 1e6), qr(o[4] * k, 1e6)])
            return out
        events.append({"vort": part(m["vort"], lambda e: e * re), "heat": part(m["heat"], lambda e: re * pr),
                       "bodies": bodies, "fric": [[qr(f, 1e6) for f in x] for x in m["fric"]],
                       "leaves": [{"v": l["v"], "h": l["h"], "b": l["b"], "near": l["near"]} for l in t["leaves"]]})
    c.notes["flows"] = len(events)
    c.notes["vortices"] = sum(len(e["vort"]) for e in events)
    c.notes["heat_particles"] = sum(len(e["heat"]) for e in events)
    c.notes["segments"] = sum(len(o) for e in events for o in e["bodies"])
    for e in events[:4]:
        c.sample({"vortices": len(e["vort"]), "heat": len(e["heat"]), "bodies": len(e["bodies"])})
    c.expect_all("DiffusionTrace", events, "viscosity")
