"""Circulation bookkeeping of the real operations against spec/Ledger.tla."""
import concurrent.futures
import math

from vv.common import BAD, build, qr
from vv import flows, history
from vv.drive import Script
from vv.outlines import outline

TINY = 2.0 ** -36


def strength(g):
    """g as eighths and units of 2^-36"""
    if g != g or math.isinf(g):
        return [BAD, 0]
    n = round(g * 8)
    t = (g - n / 8) / TINY
    if abs(t) > 1e6 or t != int(t):
        return [BAD, 0]
    return [n, int(t)]


def state(d):
    return {
        "vort": [[qr(o[0], 10000), qr(o[1], 10000), strength(o[2]), qr(o[3], 10000), qr(o[4], 10000)] for o in d["vort"]],
        "bodies": [{"c": [[qr(s["c"][0], 10000), qr(s["c"][1], 10000)] for s in b["segs"]],
                    "g": [strength(s["g"]) for s in b["segs"]],
                    "sum": [strength(s["gsum"]) for s in b["segs"]],
                    "slip": [bool(s["slip"]) for s in b["segs"]],
                    "dead": strength(b["g_dead"])} for b in d["bodies"]]}


def some_g(rng):
    r = rng.random()
    if r < 0.12:
        return rng.randint(-9, 9) * TINY
    if r < 0.2:
        return rng.choice([5, 6, 7, 8, -6, -7]) * TINY
    if r < 0.25:
        return rng.choice([-1, 1]) / 8 + rng.randint(-3, 3) * TINY
    return rng.randint(-24, 24) / 8


def scenario(s, rng, jobs, thorough):
    s.do("new", 0)
    dt = rng.choice([(1, 1), (1, 1), (1, 2), (2, 1)])
    s.do("set", "dt", *dt)
    unit = dt[1]
    nb = rng.choice([0, 1, 1, 1, 2, 2, 3])
    bodies = []
    for k in range(nb):
        hollow = k == 0 and rng.random() < 0.15
        if hollow:
            o = [(0, 0), (3, 0), (3, 3), (0, 3)] if rng.random() < 0.5 else outline(rng, 6, 3, solid=False)
        else:
            o = outline(rng, rng.choice([3, 4, 4, 5, 6]), rng.choice([2, 3]))
        at = (rng.randint(-2, 2) + 5 * (k if not hollow else 0), rng.randint(-2, 2) + (1 if k != 2 else -9))
        slips = [int(rng.random() < 0.15) for _ in o]
        if rng.random() < 0.1:
            slips = [1] * len(o)
        s.do("body", len(o), " ".join("%d %d %d" % (x + at[0], y + at[1], sl) for (x, y), sl in zip(o, slips)))
        bodies.append((o, at))
        if hollow:
            break
    for _ in range(rng.choice([0, 1, 3, 8, 20])):
        if bodies and rng.random() < 0.75:
            o, at = rng.choice(bodies)
            x, y = at[0] + rng.randint(-2, 10) / 2.5, at[1] + rng.randint(-2, 10) / 2.5
        else:
            x, y = rng.randint(-60, 60) / 10, rng.randint(-60, 60) / 10
        s.do("vort", "%.1f" % x, "%.1f" % y, some_g(rng), 0, 0)
    last = s.ask("dump")
    prev = [last]

    def event(op, **kw):
        now = s.ask("dump")
        jobs.append((op, prev[0], now, kw, dt))
        prev[0] = now

    for step in range(rng.choice([1, 2, 3] if not thorough else [2, 4, 6])):
        for k, (o, at) in enumerate(bodies):
            for i in range(len(o)):
                s.do("seg", k, i, "g", some_g(rng))
        prev[0] = s.ask("dump")
        if rng.random() < 0.9:
            s.do("vortex_shed")
            event("shed")
        if rng.random() < 0.3:
            s.do("calc_forces")
            event("other")
        if rng.random() < 0.5:
            s.do("zero_forces")
            event("close")
        merged = rng.random() < 0.3
        if merged:
            m = s.ask("eps", 1, 0, 1e300)
            event("merge", merged=m)
        for k in range(len(bodies)):
            if rng.random() < 0.4:
                s.do("bset", k, "speed", rng.randint(-1, 1) * unit, rng.randint(-1, 1) * unit,
                     repr(rng.choice([0, 0, math.pi / 2, -math.pi / 2]) * dt[1] / dt[0]))
        s.do("flow", "vort", *[0 if merged else rng.choice([0, 0, 0, 1, -1]) * unit for _ in range(4)])
        prev[0] = s.ask("dump")
        remove = int(rng.random() < 0.85)
        m = s.ask("move", remove)
        event("move", remove=bool(remove), cleaned=m)
        if merged:      # merged vortices are off the lattice
            break


# flows in which much is absorbed, merged, slips or turns
MORE = {
    "crossing": """
S.re=inf S.inf_vx='6'
S.body_list:insert(gen_cylinder{R=0.5,N=10})
for i=1,40 do S.vort_list:append{-2-0.2*i, 0.05*((i*7)%19-9), 0.05*math.cos(i)} end
""",
    "absorbing": """
S.re=50 S.inf_vx='1'
S.body_list:insert(gen_cylinder{R=0.5,N=10})
for i=1,60 do S.vort_list:append{-0.9+0.03*(i%7), 0.05*((i*7)%19-9), 0.05*math.cos(i)} end
""",
    "strong": """
S.re=400 S.inf_vx='0.3'
local b=gen_cylinder{R=0.5,N=12} b.holder_vo='3'
local p=gen_plate{R1=0.1,R2=0.1,L=0.6,N=12} p:move_r{1.5,0.1} p.holder_vo='-4'
S.body_list:insert(b) S.body_list:insert(p)
for i=1,30 do S.vort_list:append{-0.7+0.02*i, 0.7*math.cos(i*i), (i%3-1)*0.5} end
""",
    "half": """
S.re=100 S.inf_vx='1'
local f=io.open('plate.txt','w')
for i=0,4 do f:write(string.format('%g 0 %d\\n', 0.2*i, i%2)) end
f:write('0.8 -0.3 1\\n0 -0.3 0\\n') f:close()
local b=load_body('plate.txt')
S.body_list:insert(b)
S.body_list:insert((function() local c=gen_cylinder{R=0.3,N=9} c:move_r{0.3,1} c.slip=true return c end)())
for i=1,20 do S.vort_list:append{-0.4+0.02*i, -0.6+0.06*i, (i%3-1)*0.3} end
""",
}


def whole_runs(c, b):
    names = ["cylinder", "rotating", "slip", "joint", "stop", "three", "inviscid", "spring"]
    flows_ = [(n, flows.FLOWS[n]) for n in names] + sorted(MORE.items())
    r7 = lambda x: qr(x, 10 ** 7)

    def one(job):
        name, lua = job
        st = history.record(b, c.scratch + "/run_" + name, lua, (1, 20), c.n(10, 40), what="the flow '%s'" % name)
        return [{"op": "step", "flow": name,
                 "free": [r7(sum(v[2] for v in x["vort"])), r7(sum(v[2] for v in y["vort"]))],
                 "solved": [r7(sum(k["g"])) for k in x["bodies"]],
                 "bound": [r7(sum(k["gsum"])) for k in y["bodies"]],
                 "at": [[qr(v[0], 10 ** 4), qr(v[1], 10 ** 4)] for v in y["vort"]],
                 "outlines": [[[qr(p[0], 10 ** 4), qr(p[1], 10 ** 4)] for p in k["c"]] for k in y["bodies"]],
                 "dead": [r7(k["g_dead"]) for k in y["bodies"]]} for x, y in zip(st, st[1:])]
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        return [e for l in pool.map(one, flows_) for e in l]


def check(c):
    b = build(["vvhd", "vvflow"], ["drv_flow"])
    c.model("LedgerMC", "CONSTANTS NB = 1 Steps = %d MaxFree = %d\n" % (c.n(2, 2), c.n(3, 4))
            + "INIT Init\nNEXT Next\nCONSTRAINT Bounded\nINVARIANTS Balance NoFlow OnlyWeakLeave\n")
    s = Script(b.driver("drv_flow"))
    jobs = []
    for _ in range(c.n(250, 3000)):
        scenario(s, c.rng, jobs, c.thorough)
    ans = s.run("shedding, merging and moving")
    events = []
    for op, pre, post, kw, dt in jobs:
        e = {"op": op, "pre": state(ans[pre]), "post": state(ans[post]), "dt": list(dt)}
        if "remove" in kw:
            e["remove"] = kw["remove"]
            e["cleaned"] = ans[kw["cleaned"]]["cleaned"]
        if "merged" in kw:
            e["merged"] = ans[kw["merged"]]["merged"]
        events.append(e)
    for op in ("shed", "move", "merge", "close", "other"):
        c.notes["events_" + op] = sum(e["op"] == op for e in events)
    events += whole_runs(c, b)
    c.notes["steps_of_runs"] = sum(e["op"] == "step" for e in events)
    c.notes["absorbed"] = sum(e.get("cleaned", 0) for e in events)
    for e in events[:4]:
        c.sample({"op": e["op"], "vortices": len(e["pre"]["vort"]), "bodies": len(e["pre"]["bodies"])})
    c.expect_all("LedgerTrace", events, "an operation")
