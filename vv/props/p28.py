"""One flow seen two ways (spec/Symmetry.tla): pairs of real runs whose set-ups
are shifted, turned, started later or listed in another order.  No limits: a
limit reached to the last bit is hit in one view and not in the other."""
import concurrent.futures
import math

from vv.common import build, qr
from vv import history

L = 10 ** 5


def turn(q, v):
    for _ in range(q % 4):
        v = (-v[1], v[0])
    return v


def polygon(rng, n, kind):
    """listed clockwise around the origin"""
    a0 = rng.random()
    if kind == "order":
        # far from every body the code takes the sampled nearest segment's
        # length as a blurring radius, and samples in the order of listing
        r = 0.14 / math.sin(math.pi / n)
        return [(r * math.cos(a0 - 2 * math.pi * k / n), r * math.sin(a0 - 2 * math.pi * k / n)) for k in range(n)]
    return [(r * math.cos(a), r * math.sin(a)) for r, a in
            ((0.4 + 0.15 * rng.random(), a0 - 2 * math.pi * (k + 0.3 * rng.random()) / n) for k in range(n))]


def expr(rng, still):
    c = "%.2f" % rng.uniform(-1, 1)
    return c if still or rng.random() < 0.5 else "%s*sin(%.2f*t)+%.1f" % (c, rng.uniform(1, 9), rng.uniform(-0.5, 0.5))


def setup(rng, kind):
    still = kind == "later"      # nothing may depend on the clock
    f = {"re": rng.choice(["inf", "50", "200"]) if kind in ("shift", "later") else "inf",
         "vx": expr(rng, still), "vy": expr(rng, still), "gravity": (rng.choice([0, -1.5]), rng.choice([0, 0.7])),
         "inf_g": rng.choice([0, 0, 0.3]) if kind != "order" else 0, "bodies": [], "vort": [], "sinks": [], "ink": [],
         "steps": rng.randint(6, 12)}
    nb = rng.choice([1, 1, 2, 2, 3]) if kind != "order" else rng.choice([2, 3, 3])
    for k in range(nb):
        b = {"at": (1.7 * k + rng.random() * 0.2, rng.uniform(-0.4, 0.4)), "density": rng.choice([1, 1.7, 3, 0.5]),
             "pts": polygon(rng, rng.randint(7, 12), kind), "k": ["inf"] * 3, "d": [0] * 3, "v": ["0"] * 3, "root": None,
             "off": [0, 0, 0], "slip": rng.random() < 0.1,
             "axis": (rng.uniform(-0.3, 0.3), rng.uniform(-0.3, 0.3))}
        moving = rng.random() < 0.75
        for n in range(3):
            if moving and rng.random() < 0.5:
                b["v"][n] = expr(rng, still)
            if moving and rng.random() < 0.45:
                b["k"][n] = rng.choice(["0", "3", "20.5"])
                b["d"][n] = rng.choice([0, 0, 0.7])
                b["off"][n] = rng.choice([0, 0, 0.05, -0.03])
        if k and rng.random() < 0.4:
            b["root"] = rng.randrange(k)
        f["bodies"].append(b)
    f["hydrostart"] = nb
    if kind != "order":
        for _ in range(rng.choice([0, 3, 12])):
            f["vort"].append((rng.uniform(-3, -1), rng.uniform(-1.5, 1.5), rng.uniform(-0.2, 0.2)))
        for _ in range(rng.choice([0, 0, 1, 2])):      # clumps far enough to be seen as a whole
            x, y = rng.uniform(-9, -5), rng.uniform(-7, 7)
            f["vort"] += [(x + rng.uniform(-0.2, 0.2), y + rng.uniform(-0.2, 0.2), rng.uniform(-1, 1))
                          for _ in range(rng.choice([6, 20]))]
    for _ in range(rng.choice([0, 0, 1])):
        f["sinks"].append((rng.uniform(0, 3), rng.uniform(2, 3), rng.uniform(-0.3, 0.3)))
    for _ in range(rng.choice([0, 3])):
        f["ink"].append((rng.uniform(-2, -1), rng.uniform(-1.5, 1.5), 1))
    return f


def vec(q, ex, ey):
    x, y = (ex, "(%s)" % ex), (ey, "(%s)" % ey)
    return [(ex, ey), ("-(%s)" % ey, ex), ("-(%s)" % ex, "-(%s)" % ey), (ey, "-(%s)" % ex)][q % 4]


def lua(f, T, order, d):
    q, by = T["q"], T["by"]

    def comp(v):      # what belongs to a component goes with the axis
        return [v[0], v[1], v[2]] if q % 2 == 0 else [v[1], v[0], v[2]]
    o = ["S.re=%s S.inf_g=%r" % (f["re"], f["inf_g"])]
    vx, vy = vec(q, f["vx"], f["vy"])
    o.append("S.inf_vx='%s' S.inf_vy='%s'" % (vx, vy))
    o.append("S.gravity={%r,%r}" % turn(q, f["gravity"]))
    files = {}
    for k, b in enumerate(f["bodies"]):
        lines = []
        for p in b["pts"]:
            x, y = turn(q, (p[0] + b["at"][0], p[1] + b["at"][1]))
            lines.append("%r %r %d" % (x + by[0], y + by[1], b["slip"]))
        files["body%d.txt" % k] = "\n".join(lines) + "\n"
        v = "b%d" % k
        ax = (b["at"][0] + b["axis"][0], b["at"][1] + b["axis"][1])
        off = turn(q, b["off"])
        hold = turn(q, (ax[0] - b["off"][0], ax[1] - b["off"][1]))
        hold = (hold[0] + by[0], hold[1] + by[1])
        o.append("%s=load_body('body%d.txt')" % (v, k))
        o.append("%s.holder_pos={%r,%r,0} %s.delta_pos={%r,%r,%r}" % (v, hold[0], hold[1], v, off[0], off[1], b["off"][2]))
        o.append("%s.density=%r" % (v, b["density"]))
        ks = comp(b["k"])
        ds = comp(b["d"])
        o.append("%s.spring_const={%s} %s.spring_damping={%s}" % (v, ",".join(map(str, ks)), v, ",".join(map(str, ds))))
        evx, evy = vec(q, b["v"][0], b["v"][1])
        o.append("%s.holder_vx='%s' %s.holder_vy='%s' %s.holder_vo='%s'" % (v, evx, v, evy, v, b["v"][2]))
    for k, b in enumerate(f["bodies"]):
        if b["root"] is not None:
            o.append("b%d.root=b%d" % (k, b["root"]))
    for k in order:
        o.append("S.body_list:insert(b%d)" % k)
    for n, l in (("vort", "vort_list"), ("sinks", "sink_list"), ("ink", "streak_domain_list")):
        for p in f[n]:
            x, y = turn(q, p[:2])
            o.append("S.%s:append{%r,%r,%r}" % (l, x + by[0], y + by[1], p[2]))
    return "\n".join(o) + "\n", files


def seen(st, t0):
    v2 = lambda v, s: [qr(x, s) for x in v]
    return {"time": st["t"]["value"],
            "marker": v2(st["marker"], L),
            "vort": [[qr(p[0], L), qr(p[1], L), qr(p[2], L)] for p in st["vort"]],
            "ink": [[qr(p[0], L), qr(p[1], L), qr(p[2], L)] for p in st["ink"]],
            "bodies": [{"c": [v2(p, L) for p in b["c"]],
                        "axis": v2([b["holder"][0] + b["dpos"][0], b["holder"][1] + b["dpos"][1]], L),
                        "hold": v2(b["holder"][:2], L), "angle": v2([b["holder"][2], b["dpos"][2]], L),
                        "g": v2(b["g"], L), "gsum": v2(b["gsum"], L), "dead": qr(b["g_dead"], L),
                        "v": v2(b["speed"], L), "F": v2(b["hydro"], 1000), "H": v2(b["fholder"], 1000),
                        "drag": v2(b["friction_prev"], L)} for b in st["bodies"]]}


VIEWS = ["shift", "shift", "turn", "turn", "later", "order"]


def pair(job):
    b, d, seed, kind, f, T, order = job
    nb = len(f["bodies"])
    l1, f1 = lua(f, {"q": 0, "by": (0, 0)}, range(nb), d)
    l2, f2 = lua(f, T, order, d)
    # a flow started at 0 spends its first step with every body held: the
    # circulation it starts with appears then, with forces that know the origin
    t0 = 40 if kind == "later" else 0
    here = history.record(b, d + "/a", l1, (1, 40), f["steps"], t0, what="a flow", files=f1)
    there = history.record(b, d + "/b", l2, (1, 40), f["steps"], t0 + T["later"], what="the same flow seen another way", files=f2)
    place = [order.index(k) + 1 for k in range(nb)]
    t = {"q": T["q"], "by": [round(x * L) for x in T["by"]], "later": T["later"], "perm": place}
    ev = []
    if len(here) != len(there):
        there = there + [dict(there[-1])] * (len(here) - len(there))
    for n, (x, y) in enumerate(zip(here, there)):
        if n == 0:
            continue
        ev.append({"T": t, "tol": 40, "kind": kind, "step": n, "here": seen(x, t0), "there": seen(y, t0), "lua": [l1, l2]})
    return ev


def check(c):
    b = build(["vvhd", "vvflow"], [])
    c.model("SymmetryMC", "CONSTANTS Shifts = {0, %d}\n Turns = {0, 1, 2, 3}\nINIT Init\nNEXT Next\n" % c.rng.choice([5, 20])
            + "INVARIANTS Commutes Equal EqualForce\n")
    jobs = []
    for n in range(c.n(90, 1500)):
        kind = VIEWS[n % len(VIEWS)]
        f = setup(c.rng, kind)
        T = {"q": 0, "by": (0, 0), "later": 0}
        order = list(range(len(f["bodies"])))
        if kind in ("shift", "turn"):
            T["by"] = (c.rng.choice([0, 7.25, -3.5, 12]), c.rng.choice([0, -6.125, 9, 2.5]))
        if kind == "turn":
            T["q"] = c.rng.choice([1, 2, 3])
        if kind == "later":
            T["later"] = c.rng.choice([40, 120, 4000])
        if kind == "order":
            while order == sorted(order):
                c.rng.shuffle(order)
        jobs.append((b, c.scratch + "/p%d" % n, n, kind, f, T, order))
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        events = [e for l in pool.map(pair, jobs) for e in l]
    for k in sorted(set(VIEWS)):
        c.notes["steps_" + k] = sum(e["kind"] == k for e in events)
    c.notes["vortices_compared"] = sum(len(e["here"]["vort"]) for e in events)
    luas = [e.pop("lua") for e in events]
    for e in events[:3]:
        c.sample({k: e[k] for k in ("T", "kind", "step")})
    c.expect_all("SymmetryTrace", events, "the same flow seen another way")
