"""Heat bookkeeping of the real operations against spec/Heat.tla."""
import math
import os

from vv.common import BAD, Violation, build, qr
from vv.drive import Script
from vv.props.p06 import TINY
from vv import runs

NEGLECT, ISOLATE, CONST_T, CONST_W = 0, 1, 2, 3


def strength(g):
    """g as eighths and units of 2^-36; turned bodies have lengths of 2 - 4e-16"""
    if g != g or math.isinf(g):
        return [BAD, 0]
    n = round(g * 8)
    t = (g - n / 8) / TINY
    if abs(t) > 1e6 or abs(t - round(t)) > 0.01:
        return [BAD, 0]
    return [n, round(t)]


def state(d, extra):
    return {
        # centres of united particles can be halfway between units: they are all rounded to one side
        "heat": [[qr(o[0] + 0.13e-3, 1000), qr(o[1] + 0.13e-3, 1000), strength(o[2]), qr(o[3], 1000), qr(o[4], 1000)] for o in d["heat"]],
        "bodies": [{"c": [[qr(s["c"][0], 1000), qr(s["c"][1], 1000)] for s in b["segs"]],
                    "sum": [strength(s["hsum"]) for s in b["segs"]],
                    "kind": x[0], "heat": strength(x[1])} for b, x in zip(d["bodies"], extra)]}


def box(w, h, stepx, stepy):
    """clockwise, sides cut in steps"""
    p = [(0, y) for y in range(0, h, stepy)] + [(x, h) for x in range(0, w, stepx)]
    p += [(w, y) for y in range(h, 0, -stepy)] + [(x, 0) for x in range(w, 0, -stepx)]
    return p


SHAPES = [box(2, 2, 1, 1), box(3, 3, 1, 1), box(4, 2, 1, 1), box(4, 2, 2, 2), box(2, 2, 2, 2), box(3, 1, 1, 1),
          [(0, 0), (0, 2), (2, 2)], [(0, 1), (1, 2), (2, 1), (1, 0)], [(0, 1), (0, 2), (1, 3), (2, 3), (3, 2), (3, 1), (2, 0), (1, 0)],
          [(0, 0), (1, 3), (3, 1)], [(0, 2), (2, 4), (4, 2), (2, 0)]]


def scenario(s, rng, jobs):
    s.do("new", 0)
    dt = rng.choice([(1, 1), (1, 1), (1, 2), (2, 1)])
    s.do("set", "dt", *dt)
    unit = dt[1]
    bodies, extra = [], []
    for k in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        hollow = k == 0 and rng.random() < 0.1
        o = list(reversed(box(6, 6, rng.choice([1, 2]), 2))) if hollow else rng.choice(SHAPES)
        kind = rng.choice([NEGLECT, ISOLATE, CONST_W] + [CONST_T] * 4 * (not hollow))
        heat = rng.choice([0.125, -0.25, 1, 1.5, 0, 0.375, 3 * TINY])
        at = (rng.randint(-2, 2) + 16 * k, rng.randint(-2, 2))
        s.do("body", len(o), " ".join("%d %d 0" % (x + at[0], y + at[1]) for x, y in o))
        s.do("bset", k, "heat", kind)
        for i in range(len(o)):
            s.do("seg", k, i, "heat_const", repr(heat))
        bodies.append((o, at))
        extra.append((kind, heat))
        if hollow:
            break
    used = set()

    def particles(n):
        for _ in range(n):
            if bodies and rng.random() < 0.85:
                o, at = rng.choice(bodies)
                x, y = at[0] + rng.randint(-15, 60) / 10, at[1] + rng.randint(-15, 60) / 10
            else:
                x, y = rng.randint(-60, 200) / 10, rng.randint(-60, 60) / 10
            if (x, y) in used:
                continue
            used.add((x, y))
            r = rng.random()
            g = rng.choice([5, 6, 7, 8, -6, -7, 0, 1]) * TINY if r < 0.15 else rng.randint(-24, 24) / 8
            s.do("heat", "%.3f" % (x + 0.037), "%.3f" % (y + 0.041), repr(g), 0, 0)
    particles(rng.choice([0, 1, 3, 8, 25]))
    for _ in range(rng.choice([0, 2])):
        s.do("vort", rng.randint(-60, 60) / 10, rng.randint(-60, 60) / 10, 1, 0, 0)
    jobs.append(("new", None, None, {}, dt, extra))
    prev = [s.ask("dump")]

    def event(op, **kw):
        now = s.ask("dump")
        jobs.append((op, prev[0], now, kw, dt, extra))
        prev[0] = now

    def other(p):
        if rng.random() < p:
            what = rng.choice(["vortex_shed", "calc_forces", "streak_shed"])
            s.do(what)
            event("other")

    united = False
    for step in range(rng.choice([1, 2, 3, 4])):
        s.do("heat_shed")
        event("shed")
        other(0.3)
        if rng.random() < 0.1:
            s.do("heat_shed")
            event("shed")
        s.do("zero_forces")
        event("close")
        if rng.random() < 0.4:      # sizes of all, merging of vortices
            merge = rng.randint(0, 1)
            united = united or merge
            s.ask("eps", merge, 0, 1e300)
            event("merge" if merge else "other")
        for k in range(len(bodies)):
            if rng.random() < 0.4:
                s.do("bset", k, "speed", rng.randint(-1, 1) * unit, rng.randint(-1, 1) * unit,
                     repr(rng.choice([0, 0, math.pi / 2, -math.pi / 2]) * dt[1] / dt[0]))
        w = [rng.choice([0, 0, 0, 1, -1]) * unit for _ in range(4)]
        if united:      # at places between those of the units
            w[1] = w[3] = 0
        s.do("flow", "heat", *w)
        prev[0] = s.ask("dump")
        s.ask("move", int(rng.random() < 0.8))
        event("move")
        # moved again before the accounts are closed: no particle is in its layer twice
        if rng.random() < 0.8:
            sc = rng.choice([16, 16, 5.013, 2.013, -1, 17.013])
            if sc == 16 and rng.random() < 0.5:
                s.do("heat_crop", 0)
            elif sc > 0:
                s.do("heat_crop", sc)
            if sc > 0:
                event("crop", scale=round(sc * 1000))
        other(0.3)
        if rng.random() < 0.4:
            # the tree of what the solver sees
            s.ask("tree", 8, 0, 1e300, 1, 1, 0)
            event("other")
    s.do("heat_shed")
    event("shed")


def whole_runs(c, b, n):
    """flows with heat, by the program itself"""
    rng = c.rng
    events = []
    for k in range(n):
        d = c.scratch + "/run%d" % k
        os.mkdir(d)
        s = Script(b.driver("drv_flow"))
        s.do("new", 0)
        s.do("set", "caption", "-" + b"r".hex() + "-")
        still = k % 3 == 0
        s.do("set", "inf_vx", "0" if still else rng.choice(["0", "1", "2"]))
        s.do("set", "inf_vy", "0" if still else rng.choice(["0", "0.25"]))
        s.do("set", "re", "inf" if still else rng.choice(["inf", 100]))
        s.do("set", "pr", 1)
        D = 16
        s.do("set", "dt", 1, D)
        every = rng.choice([1, 1, 2, 3])
        s.do("set", "dt_save", every, D)
        steps = rng.randint(5, 12)
        s.do("set", "finish", (steps - 0.5) / D)
        extra = []
        for j in range(rng.choice([0, 1, 1, 1, 2])):
            o = rng.choice([box(2, 2, 1, 1), box(3, 3, 1, 1), SHAPES[8], box(3, 2, 1, 1)])
            kind = rng.choice([CONST_T, CONST_W, CONST_W, ISOLATE] if still else [CONST_T, CONST_T, CONST_T, CONST_W, ISOLATE])
            heat = rng.choice([0.125, 0.25, 1])
            s.do("body", len(o), " ".join("%d %d 0" % (x, y + 6 * j) for x, y in o))
            s.do("bset", j, "heat", kind)
            for i in range(len(o)):
                s.do("seg", j, i, "heat_const", repr(heat))
            extra.append((kind, heat))
        for _ in range(rng.choice([0, 5, 40, 200]) if extra else 30):
            s.do("heat", rng.uniform(-6, 16.2), rng.uniform(-3, 10), 0.5, 0, 0)
        s.do("save", d + "/f.h5")
        s.run("making a flow")
        p = runs.vvflow(b, d, ["f.h5"])
        runs.check_exit(p, "a flow with heat")
        names = sorted(os.listdir(d + "/results_r"))
        if len(names) < steps // every:
            raise Violation("a flow with heat left %d snapshots of %d" % (len(names), steps))
        s = Script(b.driver("drv_flow"))
        asked = []
        for name in names[1:]:      # the flow as given may have heat inside bodies
            s.do("new", 0)
            s.do("load", d + "/results_r/" + name)
            asked.append((s.ask("dump"), int(name[:-3])))
        ans = s.run("reading snapshots")
        for a, number in asked:
            st = state(ans[a], extra)
            # where exactly particles are that flew far away does not matter
            st["heat"] = [[max(-30000, min(30000, v[0])), max(-30000, min(30000, v[1])), v[2]] for v in st["heat"]]
            events.append({"op": "snap", "heat": st["heat"], "bodies": st["bodies"], "run": k,
                           # nothing moves: steps taken so far
                           "still": number + 1 if still else 0})
    return events


def check(c):
    b = build(["vvhd", "vvflow"], ["drv_flow"])
    cfg = "CONSTANTS Kind1 = %d Kind2 = %d Steps = %d MaxFree = %d\nINIT Init\nNEXT Next\nCONSTRAINT Bounded\nINVARIANTS Balance Wrapped Insulated\n"
    for k in ((2, 9, 2, 4), (1, 9, 3, 4), (3, 9, 2, 5), (1, 2, 1, 5)) + (((2, 9, 3, 5), (1, 2, 2, 6), (2, 2, 2, 6)) if c.thorough else ()):
        c.model("HeatMC", cfg % k)
    s = Script(b.driver("drv_flow"))
    jobs = []
    for _ in range(c.n(200, 3000)):
        scenario(s, c.rng, jobs)
    ans = s.run("shedding and moving heat")
    groups = []
    for op, pre, post, kw, dt, extra in jobs:
        if op == "new":
            groups.append([{"op": "new"}])
            continue
        e = {"op": op, "pre": state(ans[pre], extra), "post": state(ans[post], extra), "dt": list(dt)}
        e.update(kw)
        groups[-1].append(e)
    for op in ("shed", "move", "crop", "close", "merge", "other"):
        c.notes["events_" + op] = sum(e["op"] == op for g in groups for e in g)
    snaps = whole_runs(c, b, c.n(10, 80))
    c.notes["snapshots"] = len(snaps)
    groups += [[e] for e in snaps]
    import concurrent.futures
    parts = [sum(groups[k::8], []) for k in range(8)]
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        list(pool.map(lambda p: c.expect_valid("HeatTrace", p, "an operation on heat"), [p for p in parts if p]))
