"""Maps of a flow against spec/Maps.tla."""
import math

from vv.common import build, q, qr
from vv.drive import Script
from vv.props.p29 import SHAPES, clear_of, cloud

TWOPI = 2 * math.pi
# the length of the outline over one less than its segments: 80, 40, 20 or 10
FIRST = [[(0, 0), (0, 30), (30, 30), (30, 0)],
         [(0, 0), (0, 60), (60, 60), (60, 0)],
         [(0, 0), (18, 24), (48, 24), (30, 0)],
         [(0, 0), (36, 48), (96, 48), (60, 0)],
         [(0, 0), (24, 18), (48, 0), (24, -18)],
         [(0, 0), (0, 10), (20, 10), (20, 0)],
         [(0, 0), (0, 10), (0, 20), (10, 20), (20, 20), (30, 20), (30, 10), (30, 0), (20, 0), (10, 0), (4, 0)]]


def away(p, b):
    """not on top of the middles nor the corners of its segments"""
    o = b["c"]
    return all(math.hypot(p[0] - x, p[1] - y) > 4 for x, y in o) and all(
        math.hypot(p[0] - (a[0] + c[0]) / 2, p[1] - (a[1] + c[1]) / 2) > 4 for a, c in zip(o, o[1:] + o[:1]))


def close(p, bodies):
    """nearer to a moving segment than it is long: P29 looks there"""
    return any(math.hypot(p[0] - (a[0] + c[0]) / 2, p[1] - (a[1] + c[1]) / 2) <= math.dist(a, c)
               for b in bodies if any(b["u"]) for a, c in zip(b["c"], b["c"][1:] + b["c"][:1]))


def scenario(c, s):
    rng = c.rng
    s.do("new", 0)
    # all lengths, times and strengths in this unit
    unit = rng.choice([1, 1 / 1024, 1 / 1024])
    L = lambda *a: " ".join(repr(float(v * unit)) for v in a)
    re, dt = rng.choice([1, 2, 100]), rng.choice([1, 2, 5])
    s.do("set", "re", re / unit)
    s.do("set", "dt", dt, round(1 / unit))
    stream = [rng.choice([0, 1, -2, 3]), rng.choice([0, 0, 1, -1])]
    s.do("set", "inf_vx", str(stream[0]))
    s.do("set", "inf_vy", str(stream[1]))
    bodies = []
    R = rng.choice([99, 250])
    for k in range(rng.choice([0, 0, 0, 1, 1, 1, 2])):
        o = rng.choice(SHAPES if k else FIRST)
        u = [0, 0, 0] if rng.random() < 0.4 else [rng.randint(-3, 3), rng.randint(-3, 3), 0]
        if rng.random() < 0.5 and o == FIRST[0]:
            u = rng.choice([u, u, [0, 0, 0]])[:2] + [rng.choice([-1, 1])]
        ox, oy = 2 * rng.randint(-40, -10) + 110 * k, 2 * rng.randint(-40, 10)
        if rng.random() < 0.3:
            o = o[::-1] if k else o
        o = [(x + ox, y + oy) for x, y in o]
        s.do("body", len(o), " ".join(L(*p) + " 0" for p in o))
        if u[2]:
            s.do("bset", k, "holder", L(o[0][0] + rng.choice([0, 10]), o[0][1] + rng.choice([0, -10])), 0)
        s.do("bset", k, "speed", u[0], u[1], u[2] / unit)
        slip = rng.random() < 0.4
        fl, gs, left = [], [], []
        for j in range(len(o)):
            sl = slip and rng.random() < 0.7
            g = rng.choice([0, 0, rng.randint(-9, 9), rng.randint(-9, 9)])
            before = rng.choice([0, 0, rng.randint(-5, 5)])
            s.do("seg", k, j, "g", L(g))
            s.do("seg", k, j, "gsum", L(before))
            s.do("seg", k, j, "slip", int(sl))
            fl.append(sl)
            gs.append(g)
            left.append(g + before)
        bodies.append({"c": o, "slip": fl, "g": gs, "left": left, "u": u})
    ok = lambda p: abs(p[0]) < 280 and abs(p[1]) < 280 and all(away(p, b) for b in bodies)
    n = rng.choice([0, 1, 2, 3, 5, 5, 17, 30] if R == 99 else [1, 5, 12, 17, 30])
    pts = [p for p in cloud(rng, n, rng.choice(["clusters", "clusters", "lines", "small"])) + [(rng.randint(-R, R), rng.randint(-R, R)) for _ in range(n)] if ok(p)]
    if pts and rng.random() < 0.2:
        pts += [rng.choice(pts)] * rng.choice([1, 2])
    one = rng.choice([None, None, 1, -3])
    for p in pts:
        s.do("vort", L(p[0], p[1], one or rng.choice([1, 2, 5, 9, -1, -4, -8, 3])), 0, 0)
    srcs = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        p = (rng.randint(-120, 120), rng.randint(-120, 120))
        if ok(p):
            g = rng.choice([-30, -2, 1, 4, 20, 0])
            s.do("src", L(p[0], p[1], g), 0, 0)
            srcs.append([p[0], p[1], g, dt])
    # what maps do not look at
    if rng.random() < 0.3:
        for name in ("heat", "streak"):
            for _ in range(3):
                s.do(name, L(rng.randint(-200, 200), rng.randint(-200, 200), 1), 0, 0)
    frame, mult = rng.choice(["o", "o", "f", "b"]), rng.choice([1, 1, 2, 3])
    d = rng.choice([3, 7, 16, 25, 40])
    nx, ny = rng.choice([(4, 3), (3, 5), (6, 2)])
    x, y = rng.randint(-R, R - d), rng.randint(-R, R - d)
    if rng.random() < 0.2:
        x, y = -d * rng.randint(0, 2), -d
    if rng.random() < 0.25 and pts:
        x, y = rng.choice(pts)
    maps = s.ask("maps", frame, mult, L(x, y, d), nx, ny)
    info = s.ask("dump")
    for name in ("heat", "streak"):
        s.do("clear", name)
    dl = 0
    if bodies:
        o = bodies[0]["c"]
        dl = round(sum(math.dist(a, b) for a, b in zip(o, o[1:] + o[:1])) / (len(o) - 1))
    grid = [(x + i * d, y + j * d) for j in range(ny) for i in range(nx)]
    at = (len(grid), " ".join(L(*p) for p in grid))
    psi = s.ask("moving", L(10 * dl, 20 * dl if dl else 1e300), *at)
    s.do("vortex_shed")
    vel = s.ask("moving", L(20 * dl), 0.1, *at)
    om = s.ask("moving", L(20 * dl), 1e300, *at)
    free = [all(clear_of(p, b["c"], b["u"]) and away(p, b) for b in bodies) for p in grid]
    return (maps, info, psi, vel, om, free,
            {"stream": stream, "bodies": bodies, "src": srcs, "frame": frame, "mult": mult, "d5": dl // 5, "dt": dt,
             "lns": round(-2 * math.log(unit) * 1e6)}, grid, unit)


def cells(t):
    return {"leaves": [{"v": l["v"], "near": l["near"], "far": [f["leaves"] for f in l["far"]]} for l in t["leaves"]]}


def check(c):
    b = build(["vvhd"], ["drv_flow"])
    c.model("MapsMC", "CONSTANTS W = 2 R = %d NV = 2\nINIT Init\nNEXT Next\nINVARIANTS IsFlow Along0 Together\n" % (12 if c.thorough else 8))
    s = Script(b.driver("drv_flow"))
    jobs = [scenario(c, s) for _ in range(c.n(250, 3000))]
    ans = s.run("maps")
    events = []
    for maps, info, psi, vel, om, free, flow, grid, unit in jobs:
        m, dmp, psi, vel, om = ans[maps], ans[info], ans[psi], ans[vel], ans[om]
        for bd, db in zip(flow["bodies"], dmp["bodies"]):
            bd["axis"] = [q(round(db["axis"][k] / unit, 6)) for k in (0, 1)]
            bd["cofm"] = [q(round(db["cofm"][k] / unit, 6)) for k in (0, 1)]
        vort = vel["moving"]["vort"]
        full = lambda l: [[qr(o[0] / unit, 1), qr(o[1] / unit, 1), q(o[2] / unit)] for o in l]
        e = dict(flow)
        e["vort"] = [[qr(o[0] / unit, 1), qr(o[1] / unit, 1), q(o[2] / unit), qr((o[5] / unit) ** 2, 1) if o[2] else 0] for o in vort]
        e["us"] = [[qr(o[3], 1e4), qr(o[4], 1e4)] for o in vort]
        e["unshed"] = full(psi["moving"]["vort"])
        e["oshed"] = full(om["moving"]["vort"])
        e["vtree"], e["ptree"], e["otree"] = cells(vel), cells(psi), cells(om)
        e["refused"] = [m[k] == "refused" for k in ("vx", "psi", "cp")]
        e["points"] = []
        sharp = {(o[0] / unit, o[1] / unit) for o in psi["moving"]["vort"]} if not flow["bodies"] else set()
        if not any(e["refused"]):
            for k, p in enumerate(grid):
                e["points"].append({
                    "p": list(p), "skip": not free[k], "close": close(p, flow["bodies"]), "sharp": p in sharp,
                    "v": [qr(m["vx"][k] * TWOPI, 1e6), qr(m["vy"][k] * TWOPI, 1e6)],
                    "vleaf": vel["moving"]["points"][k]["leaf"], "pleaf": psi["moving"]["points"][k]["leaf"],
                    "oleaf": om["moving"]["points"][k]["leaf"],
                    "psi": qr(m["psi"][k] / unit * 2 * TWOPI, 1e4), "at": qr(m["at"][k] / unit * 2 * TWOPI, 1e4),
                    "om": qr(m["om"][k] * unit * math.pi, 1e6),
                    "cp": qr(m["cp"][k] * TWOPI, 1e5), "cps": qr(m["cps"][k] * TWOPI, 1e5)})
        segs = sum(len(x["c"]) for x in flow["bodies"])
        e["round"] = 20 + 2 * len(vort) + 2 * len(flow["src"]) + 18 * segs
        e["psiround"] = 50 + 2 * len(vort) + 8 * segs + sum(60 * len(x["c"]) for x in flow["bodies"] if x["u"][2]) + sum(abs(v[2]) for v in e["vort"]) + sum(abs(v[2]) for v in flow["src"])
        e["pround"] = 20 + 30 * len(vort) + 10 * segs
        events.append(e)
    c.notes["maps"] = 6 * len(events)
    c.notes["refused"] = sum(1 for e in events if any(e["refused"]))
    c.notes["places"] = sum(len(e["points"]) for e in events)
    c.notes["far_cells"] = sum(len(l["far"]) for e in events for l in e["ptree"]["leaves"])
    c.notes["with_bodies"] = sum(1 for e in events if e["bodies"])
    for e in events[:4]:
        c.sample({"vortices": len(e["vort"]), "bodies": len(e["bodies"]), "places": len(e["points"]), "frame": e["frame"]})
    c.expect_all("MapsTrace", events, "maps")
