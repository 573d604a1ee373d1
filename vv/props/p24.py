"""Reports of forces (spec/Forces.tla): the operations, and the diagnostic rows
of whole runs next to the snapshots of the same steps."""
import concurrent.futures
import math

from vv.common import BAD, build, q, qr
from vv import flows, history, runs
from vv.drive import Script

# closed outlines of axis-parallel segments and hypotenuses of 3-4-5
SHAPES = [
    [(0, 0), (0, 2), (2, 2), (2, 0)],
    [(0, 0), (0, 4), (0, 6), (4, 6), (4, 0), (2, 0)],
    [(0, 0), (0, 8), (6, 0)],
    [(-6, 0), (0, 8), (6, 0), (0, -8)],
    [(0, 0), (0, 6), (2, 6), (2, 2), (6, 2), (6, 0), (4, 0)],
    [(0, 0), (8, 6), (8, 0)],
    [(0, 0), (-12, 16), (0, 16), (0, 10)],
]


def scenario(s, rng, jobs):
    s.do("new", 0)
    nu = rng.choice([1, 1, 2, 3])
    P = rng.choice([1, 2, 3])
    re = 1 / (math.pi * nu)
    dt = rng.choice([(1, 1), (1, 2), (1, 4), (1, 5), (2, 1)])
    s.do("set", "re", re)
    s.do("set", "pr", P / re)
    s.do("set", "dt", *dt)
    nb = rng.choice([1, 1, 2, 3])
    shapes = []
    for k in range(nb):
        o = rng.choice(SHAPES)
        at = (2 * rng.randint(-9, 9), 2 * rng.randint(-9, 9))
        o = [(x + at[0], y + at[1]) for x, y in o]
        if rng.random() < 0.3:
            o = o[::-1]
        r = rng.randrange(len(o))
        o = o[r:] + o[:r]
        shapes.append(o)
        s.do("body", len(o), " ".join("%d %d %d" % (x, y, rng.random() < 0.2) for x, y in o))
        off = (rng.randint(-2, 2), rng.randint(-2, 2))
        s.do("bset", k, "holder", at[0] + rng.randint(-3, 3) - off[0], at[1] + rng.randint(-3, 3) - off[1], 0)
        s.do("bset", k, "dpos", off[0], off[1], 0)
    p = {"nu": nu, "P": P, "dt": list(dt)}
    for _ in range(rng.choice([1, 2, 3])):
        for k, o in enumerate(shapes):
            for n in range(len(o)):
                s.do("seg", k, n, "gsum", rng.randint(-9, 9))
                if rng.random() < 0.8:
                    s.do("seg", k, n, "fric", 120 * rng.randint(-5, 5))
                if rng.random() < 0.6:
                    s.do("seg", k, n, "hsum", 120 * rng.randint(-5, 5))
                if rng.random() < 0.3:
                    s.do("seg", k, n, rng.choice(["Cp", "Fr", "Nu"]), rng.randint(-9, 9))
            s.do("bset", k, "hydro", *[rng.randint(-9, 9) for _ in range(3)])
            s.do("bset", k, "friction", *[rng.randint(-9, 9) for _ in range(3)])
            s.do("bset", k, "friction_prev", *[rng.randint(-9, 9) for _ in range(3)])
            s.do("bset", k, "fdt_dead", *[rng.randint(-9, 9) for _ in range(3)])
            s.do("bset", k, "g_dead", rng.randint(-9, 9))
        a = s.ask("dump")
        s.do("calc_forces")
        z = s.ask("dump")
        jobs.append(("report", p, a, z))
        s.do("zero_forces")
        jobs.append(("clear", p, z, s.ask("dump")))


def on(p, o):
    for (ax, ay), (bx, by) in zip(o, o[1:] + o[:1]):
        if (bx - ax) * (p[1] - ay) == (by - ay) * (p[0] - ax) and min(ax, bx) <= p[0] <= max(ax, bx) and min(ay, by) <= p[1] <= max(ay, by):
            return True
    return False


def absorb(s, rng, jobs):
    """a step of motion: what gets into bodies, and what does not leave their walls"""
    s.do("new", 0)
    s.do("set", "re", 100)
    dt = rng.choice([1, 1, 2])
    s.do("set", "dt", dt, 1)
    s.do("set", "time", 0, 1)
    shapes = []
    for k in range(rng.choice([1, 1, 2, 3])):
        o = rng.choice(SHAPES)
        at = (2 * rng.randint(-6, 6) + 30 * k, 2 * rng.randint(-6, 6))
        o = [(x + at[0], y + at[1]) for x, y in o]
        if rng.random() < 0.1:
            o = o[::-1]
        slip = [rng.random() < 0.3 for _ in o]
        s.do("body", len(o), " ".join("%d %d %d" % (x, y, f) for (x, y), f in zip(o, slip)))
        off = (rng.randint(-2, 2), rng.randint(-2, 2))
        s.do("bset", k, "holder", at[0] + rng.randint(-9, 9), at[1] + rng.randint(-9, 9), 0)
        s.do("bset", k, "dpos", off[0], off[1], 0)
        u = rng.choice([(0, 0), (2, 0), (rng.randint(-3, 3), rng.randint(-3, 3))])
        s.do("bset", k, "speed", u[0], u[1], 0)
        s.do("bset", k, "fdt_dead", *[rng.randint(-9, 9) for _ in range(3)])
        s.do("bset", k, "g_dead", rng.randint(-9, 9))
        for n in range(len(o)):
            s.do("seg", k, n, "g", rng.choice([0, rng.randint(-9, 9)]))
            s.do("seg", k, n, "gsum", rng.randint(-9, 9))
        shapes.append(([(x + u[0] * dt, y + u[1] * dt) for x, y in o], slip))
    vort = []
    for _ in range(rng.choice([0, 1, 3, 8])):
        o = rng.choice(shapes)[0]
        x, y = (rng.randint(min(p[k] for p in o) - 1, max(p[k] for p in o) + 1) for k in (0, 1))
        v = (rng.randint(-3, 3), rng.randint(-3, 3))
        if any(on((x, y), w) for w, _ in shapes):
            continue
        g = rng.choice([-7, -1, 2, 5])
        s.do("vort", x - v[0] * dt, y - v[1] * dt, g, *v)
        vort.append([x, y, g])
    a = s.ask("dump")
    s.do("move", 1)
    jobs.append((vort, [f for _, f in shapes], a, s.ask("dump")))


def seen(b):
    return {"c": [[q(v, 1) for v in x["c"]] for x in b["segs"]], "axis": [q(v, 1) for v in b["axis"]],
            "g": [q(x["gsum"], 1) for x in b["segs"]], "fric": [q(x["fric"], 1) for x in b["segs"]],
            "heat": [q(x["hsum"], 1) for x in b["segs"]], "cp": [q(x["Cp"], 1) for x in b["segs"]],
            "fr": [q(x["Fr"], 1) for x in b["segs"]], "nu": [q(x["Nu"], 1) for x in b["segs"]],
            "F": [q(v, 1) for v in b["hydro"]], "H": [q(v, 1) for v in b["fholder"]],
            "fric3": [q(v, 1) for v in b["friction"]], "prev": [q(v, 1) for v in b["friction_prev"]],
            "nus": q(b["nusselt"], 1), "dead": q(b["g_dead"], 1), "fd": [q(v, 1) for v in b["fdt_dead"]]}


def axis(k):
    return k["holder"][0] + k["dpos"][0], k["holder"][1] + k["dpos"][1]


MORE = {
    "away": """
S.re=80 S.inf_vx='1' S.inf_g=0.2
local b=gen_cylinder{R=0.5,N=14} b:move_r{20,-7} b.density=2 b.spring_const={inf,1,0}
S.body_list:insert(b)
local p=gen_plate{R1=0.1,R2=0.1,L=0.6,N=12} p:move_r{22,-6} p.holder_vo='2*t'
S.body_list:insert(p)
for i=1,10 do S.vort_list:append{19-0.1*i, -7+math.sin(i*i*3), math.cos(i)*0.3} end
""",
}


def run(c, b, job):
    name, lua = job
    d = c.scratch + "/run_" + name
    st = history.record(b, d, lua, (1, 20), c.n(12, 80), what="the flow '%s'" % name, profile=True)
    j = runs.dump(b, d + "/stepdata_h.h5")
    U = 10 ** 5
    ev = []
    for n, (x, y) in enumerate(zip(st, st[1:] + [None])):
        e = {"op": "row", "flow": name, "step": n, "rate": 20, "bodies": []}
        for k, o in enumerate(x["bodies"]):
            g = j["body%02d" % k]

            def row(f):
                return [runs.num(v) for v in g[f]["data"][n]]
            saved = o["hydro"] + o["fholder"] + o["holder"] + o["dpos"] + o["speed"]
            got = [v for f in ("force_hydro", "force_holder", "holder_position", "delta_position", "speed_slae") for v in row(f)]
            big = max(abs(v) for v in saved if v == v)
            u = U if big < 2e4 else U / 100 if big < 2e6 else 1
            pts = o["c"]
            ax = axis(o)
            t, arm = [], []
            for a, z in zip(pts, pts[1:] + pts[:1]):
                l = math.hypot(z[0] - a[0], z[1] - a[1])
                t.append([qr((z[0] - a[0]) / l, 1000), qr((z[1] - a[1]) / l, 1000)])
                arm.append([qr((z[m] + a[m]) / 2 - ax[m], 1000) for m in (0, 1)])
            drag = row("force_friction")
            e["bodies"].append({
                "row": [qr(v, u) for v in got], "saved": [qr(v, u) for v in saved],
                "drag": [qr(v, 10 ** 4) for v in drag],
                "next": [] if y is None else [qr(v, 10 ** 4) for v in y["bodies"][k]["friction_prev"]],
                "g": [qr(p + s, 10 ** 5) for p, s in zip(o["g"], o["gsum"])],
                "t": t, "arm": arm,
                "pressure": [qr(v, 10 ** 5) for v in row("pressure")],
                "friction": [qr(v, 10 ** 4) for v in row("friction")]})
        ev.append(e)
    return ev


def check(c):
    b = build(["vvhd", "vvflow"], ["drv_flow"])
    c.model("ForcesMC", "CONSTANTS Steps = %d Places = {0, 5}\nINIT Init\nNEXT Next\n" % c.n(1, 2)
            + "INVARIANTS OwnStep Kept Around HereAndThere\n")
    s = Script(b.driver("drv_flow"))
    jobs = []
    for _ in range(c.n(300, 4000)):
        scenario(s, c.rng, jobs)
    ans = s.run("reporting the forces")
    events = [{"op": op, "p": p, "pre": [seen(x) for x in ans[a]["bodies"]], "post": [seen(x) for x in ans[z]["bodies"]]}
              for op, p, a, z in jobs]
    s, jobs = Script(b.driver("drv_flow")), []
    for _ in range(c.n(200, 3000)):
        absorb(s, c.rng, jobs)
    ans = s.run("absorbing vortices")
    taken = [{"op": "absorb", "vort": v, "slip": f, "pre": [seen(x) for x in ans[a]["bodies"]], "post": [seen(x) for x in ans[z]["bodies"]],
              "wall": [[q(x["g"], 1) for x in k["segs"]] for k in ans[a]["bodies"]],
              "left": [[q(w[0], 1), q(w[1], 1), q(w[2], 1)] for w in ans[z]["vort"]]} for v, f, a, z in jobs]
    names = ["cylinder", "rotating", "slip", "joint", "three", "inviscid", "spring"]
    work = [(n, flows.FLOWS[n]) for n in names] + sorted(MORE.items())
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        r = [e for l in pool.map(lambda w: run(c, b, w), work) for e in l]
    c.notes["reports"] = len(events)
    c.notes["rows_of_runs"] = len(r)
    for e in events[:2] + r[3:5]:
        c.sample(e)
    c.expect_all("ForcesTrace", events, "a report of the forces")
    c.notes["absorbed"] = sum(len(e["vort"]) - len(e["left"]) for e in taken)
    c.expect_all("ForcesTrace", taken, "vortices absorbed in a step")
    c.expect_all("ForcesTrace", r, "a diagnostic row of a run")
