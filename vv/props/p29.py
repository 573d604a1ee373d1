"""Velocities the code finds against spec/Velocity.tla."""
import math

from vv.common import build, q, qr
from vv.drive import Script

TWOPI = 2 * math.pi


def clear_of(p, o, u):
    """not close to the edge of a moving body"""
    if not any(u):
        return True
    for (ax, ay), (bx, by) in zip(o, o[1:] + o[:1]):
        dx, dy = bx - ax, by - ay
        t = max(0, min(1, ((p[0] - ax) * dx + (p[1] - ay) * dy) / (dx * dx + dy * dy)))
        if math.hypot(ax + t * dx - p[0], ay + t * dy - p[1]) < math.hypot(dx, dy) / 4:
            return False
    return True


D = 48
SHAPES = [[(0, 0), (0, D), (D, D), (D, 0)],
          [(0, 0), (0, D), (0, 2 * D), (D, 2 * D), (2 * D, 2 * D), (2 * D, D), (2 * D, 0), (D, 0)],
          [(D, 0), (0, D), (D, 2 * D), (2 * D, D)],
          [(0, 0), (0, D), (D, D), (2 * D, D), (3 * D, D), (3 * D, 0), (2 * D, 0), (D, 0)],
          [(0, 0), (0, 2 * D), (D, 2 * D), (2 * D, 2 * D), (2 * D, 0)]]


def cloud(rng, n, kind):
    r = lambda s: rng.randint(-s, s)
    if kind == "clusters":
        m = rng.choice([2, 3, 5])
        cs = [(r(250), r(250), rng.choice([1, 4, 12, 25])) for _ in range(m)]
        out = []
        for _ in range(n):
            x, y, s = rng.choice(cs)
            out.append((x + r(s), y + r(s)))
        return out
    if kind == "lines":
        return [(r(250), rng.choice([-200, 0, 210])) for _ in range(n)]
    if kind == "small":
        return [(r(4), r(4)) for _ in range(n)]
    return [(r(270), r(270)) for _ in range(n)]


def strength(rng):
    return rng.choice([1, 2, 3, 5, 9, -1, -2, -4, -8, 0 if rng.random() < 0.3 else 4])


def scenario(c, s):
    rng = c.rng
    s.do("new", 0)
    # all lengths, times and strengths in this unit
    unit = rng.choice([1, 1 / 1024])
    L = lambda *a: " ".join(repr(float(v * unit)) for v in a)
    dt = rng.choice([1, 2, 5])
    s.do("set", "dt", dt, round(1 / unit))
    stream = [rng.choice([0, 0, 1, -2, 3]), rng.choice([0, 0, 1, -1])]
    s.do("set", "inf_vx", str(stream[0]))
    s.do("set", "inf_vy", str(stream[1]))
    bodies = []
    for k in range(rng.choice([0, 0, 0, 1, 1, 2])):
        o = rng.choice(SHAPES)
        u = [0, 0, 0] if rng.random() < 0.4 else [rng.randint(-3, 3), rng.randint(-3, 3), 0]
        if rng.random() < 0.2:
            o, u[2] = SHAPES[0], rng.choice([-1, 1])
        ox, oy = D * rng.randint(-5, 0) + 5 * D * k, D * rng.randint(-4, 2)
        o = [(x + ox, y + oy) for x, y in o]
        s.do("body", len(o), " ".join(L(*p) + " 0" for p in o))
        if u[2]:
            s.do("bset", k, "holder", L(o[0][0] + rng.choice([0, D // 2, 10]), o[0][1] + rng.choice([0, D // 2, -10])), 0)
        s.do("bset", k, "speed", u[0], u[1], u[2] / unit)
        slip = rng.random() < 0.4
        fl, gs = [], []
        for j in range(len(o)):
            sl = slip and rng.random() < 0.7
            g = rng.randint(-9, 9)
            s.do("seg", k, j, "g", L(g))
            s.do("seg", k, j, "slip", int(sl))
            fl.append(sl)
            gs.append(g)
        bodies.append({"c": o, "slip": fl, "g": gs, "u": u})
    ok = lambda p: abs(p[0]) < 300 and abs(p[1]) < 300 and all(clear_of(p, b["c"], b["u"]) for b in bodies)
    many = rng.random() < 0.5
    for name in ("vort", "heat", "streak"):
        n = rng.choice([1, 1, 2, 3, 5]) if not many else rng.choice([17, 30, 50] if name == "vort" else [0, 5, 20])
        if name == "vort" and rng.random() < 0.07:
            n = 0
        pts = [p for p in cloud(rng, n, rng.choice(["clusters", "clusters", "lines", "small", "any"])) if ok(p)]
        if pts and rng.random() < 0.2:
            pts += [rng.choice(pts)] * rng.choice([1, 2, 3])
        allg = rng.choice([None, None, None, 1, -3])
        for p in pts:
            g = strength(rng)
            if allg is not None and g:
                g = allg
            s.do(name, L(p[0], p[1], g), 0, 0)
    srcs = []
    for p in [p for p in cloud(rng, rng.choice([0, 0, 1, 2]), "any") if ok(p)]:
        g = rng.choice([-30, -2, 1, 4, 20, 0])
        s.do("src", L(p[0], p[1], g), 0, 0)
        srcs.append([p[0], p[1], g, dt])
        if rng.random() < 0.5:
            s.do("streak", L(p[0], p[1], 1), 0, 0)
    if not rng.random() < 0.05:
        s.do("streak", L(290, 290, 1), 0, 0)
    pts = [p for p in cloud(rng, 6, "any") + cloud(rng, 4, "small") if ok(p)]
    # on the walls themselves
    walls = [p for b in bodies for p in rng.sample(b["c"], 3)]
    walls += [((p[0] + w[0]) / 2, (p[1] + w[1]) / 2) for b in bodies for p, w in [rng.choice(list(zip(b["c"], b["c"][1:] + b["c"][:1])))]]
    at = s.ask("motion", L(*rng.choice([(0, 1e300), (0, 1e300), (D * 5, D * 100), (2, 30)])), len(pts + walls),
               " ".join(L(*p) for p in pts + walls))
    info = s.ask("dump")
    return at, info, dict(stream=stream, bodies=bodies, src=srcs), pts, unit


def velocity(v):
    return [qr(v[0] * TWOPI, 1e6), qr(v[1] * TWOPI, 1e6)]


def check(c):
    b = build(["vvhd"], ["drv_flow"])
    inv = "INIT Init\nNEXT Next\nINVARIANTS Symmetric AddUp GivenBack Alone Bounded\n"
    for far, s, a in ((0, "{3}", "{2}"), (6, "{1,3}", "{}")) + (((4, "{1,2,3}", "{}"), (0, "{1,3}", "{2}")) if c.thorough else ()):
        c.model("VelocityMC", "CONSTANTS W = 2 H = %d Strengths = %s Against = %s NV = 2 Far = %d\n"
                % (2 if c.thorough else 1, s, a, far) + inv)
    s = Script(b.driver("drv_flow"))
    jobs = [scenario(c, s) for _ in range(c.n(160, 2500))]
    ans = s.run("velocities")
    events = []
    for at, info, flow, pts, unit in jobs:
        t, d = ans[at], ans[info]
        m = t["moving"]
        for bd, db in zip(flow["bodies"], d["bodies"]):
            bd["axis"] = [q(round(db["axis"][k] / unit, 6)) for k in (0, 1)]

        def part(l):
            return [[q(o[0] / unit), q(o[1] / unit)] + velocity(o[3:5]) + [o[2] != 0] for o in l]
        e = {"vort": [[q(o[0] / unit), q(o[1] / unit), q(o[2] / unit), qr((o[5] / unit) ** 2, 1) if o[2] else 0] for o in m["vort"]],
             "src": flow["src"], "bodies": flow["bodies"], "stream": flow["stream"],
             "pv": part(m["vort"]), "ph": part(m["heat"]), "ps": part(m["streak"]),
             "leaves": [{"v": l["v"], "h": l["h"], "s": l["s"],
                         "mid2": [qr(l["box"][0] / unit, 2), qr(l["box"][1] / unit, 2)],
                         "far": [f["leaves"] for f in l["far"]]} for l in t["leaves"]],
             "walls": [velocity(x["v"]) for x in m["points"][len(pts):]],
             "points": [{"leaf": x["leaf"], "o": [p[0], p[1]] + velocity(x["v"])} for p, x in zip(pts, m["points"])],
             "round": 10 + 2 * len(m["vort"]) + 2 * len(flow["src"]) + 18 * sum(len(x["c"]) for x in flow["bodies"])}
        events.append(e)
    c.notes["flows"] = len(events)
    c.notes["velocities"] = sum(len(e["pv"]) + len(e["ph"]) + len(e["ps"]) + len(e["points"]) for e in events)
    c.notes["far_cells"] = sum(len(l["far"]) for e in events for l in e["leaves"])
    for e in events[:4]:
        c.sample({"vortices": len(e["vort"]), "bodies": len(e["bodies"]), "leaves": len(e["leaves"])})
    c.expect_all("VelocityTrace", events, "velocities")
