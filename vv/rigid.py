"""Bodies moved by the real code, as observations for spec/RigidTrace.tla."""
import copy
import math
from fractions import Fraction

from vv.common import q, qr
from vv.outlines import outline

L = 100
Q = math.pi / 2
NOLIMIT = 999999


def quarter(x):
    return q(x / Q, 1)


def way(bs, n, k):
    return bs[n]["w"][k] + (way(bs, bs[n]["root"], k) if bs[n]["root"] is not None else 0)


def part(bs):
    res = Fraction(1)
    for n, b in enumerate(bs):
        for k in range(3):
            if not b["free"][k]:
                continue
            at = b["angle"] if k == 2 else b["axis"][k]
            w = way(bs, n, k)
            for lim, out in ((b["max"][k], at + w > (b["max"][k] or 0)), (b["min"][k], at + w < (b["min"][k] or 0))):
                if lim is not None and out:
                    res = min(res, Fraction(lim - at) / Fraction(w))
    return res


def rot(qt, p):
    for _ in range(qt % 4):
        p = (-p[1], p[0])
    return p


def shift(bs, f, n):
    """the way of the axis (exact)"""
    b = bs[n]
    s = [b["w"][0] * f, b["w"][1] * f]
    if b["root"] is not None:
        r = b["root"]
        d = (b["hold"][0] - bs[r]["axis"][0], b["hold"][1] - bs[r]["axis"][1])
        t = rot(int(way(bs, r, 2) * f), d)
        c = shift(bs, f, r)
        s = [s[0] + c[0] + t[0] - d[0], s[1] + c[1] + t[1] - d[1]]
    return s


def speed(bs, n, dt):
    """absolute speed of the body: what a solution has to give"""
    b = bs[n]
    v = [b["w"][0] / L / dt, b["w"][1] / L / dt, b["w"][2] * Q / dt]
    if b["root"] is not None:
        r = b["root"]
        o = speed(bs, r, dt)
        d = ((b["hold"][0] - bs[r]["axis"][0]) / L, (b["hold"][1] - bs[r]["axis"][1]) / L)
        v = [v[0] + o[0] - d[1] * o[2], v[1] + o[1] + d[0] * o[2], v[2] + o[2]]
    return v


def bodies_of(rng, limits):
    """bodies with offsets, joints and limits; lengths in 1/L"""
    nb = rng.choice([1, 1, 2, 2, 3, 3, 4])
    order = list(range(nb))
    rng.shuffle(order)
    bs = [None] * nb
    for j, n in enumerate(order):
        o = outline(rng, rng.choice([3, 4, 4, 5, 6]), 3)
        at = (rng.randint(-20, 20) * 20 + 900 * (j % 2), rng.randint(-20, 20) * 20 + 1100 * (j // 2))
        c = [(x * L + at[0], y * L + at[1]) for x, y in o]
        off = [0, 0, 0]
        free = [rng.random() < (0.6 if limits else 0.35) for _ in range(3)]
        for k in range(3):
            if free[k]:
                off[k] = rng.randint(-5, 5) * 20 if k < 2 else rng.randint(-2, 2)
        axis = (at[0] + rng.randint(-3, 8) * 40, at[1] + rng.randint(-3, 8) * 40)
        hang = rng.randint(-2, 2)
        b = {"c": c, "axis": axis, "hold": (axis[0] - off[0], axis[1] - off[1]), "angle": hang + off[2],
             "hangle": hang, "off": off, "free": free, "root": None, "min": [None] * 3, "max": [None] * 3}
        if j and rng.random() < 0.6:
            b["root"] = rng.choice(order[:j])
        bs[n] = b
    return bs


def plan(rng, bs, limits):
    """ways, and limits, such that everything stays whole"""
    for _ in range(400):
        for b in bs:
            b["u"] = [rng.randint(-4, 4) * 20 if rng.random() < 0.5 else 0 for _ in range(2)] + \
                     [rng.randint(-1, 1) if rng.random() < 0.4 else 0]
            b["w"] = list(b["u"])
            for k in range(3):
                if b["free"][k]:
                    b["w"][k] = rng.choice([0, rng.randint(-10, 10) * 20]) if k < 2 else rng.choice([0, 0, 1, -1, 2, -2, 4])
        if limits:
            for n, b in enumerate(bs):
                r = b["root"]
                turning = False
                while r is not None:
                    turning = turning or way(bs, r, 2) != 0
                    r = bs[r]["root"]
                for k in range(3):
                    b["min"][k] = b["max"][k] = None
                    if b["free"][k] and (k == 2 or not turning) and rng.random() < 0.7:
                        at = b["angle"] if k == 2 else b["axis"][k]
                        step = 1 if k == 2 else rng.choice([10, 20, 30])
                        if rng.random() < 0.7:
                            b["max"][k] = at + rng.randint(0, 6) * step
                        if rng.random() < 0.7:
                            b["min"][k] = at - rng.randint(0, 6) * step
                        if b["min"][k] is not None and b["min"][k] == b["max"][k]:
                            b["min"][k] = None
        f = part(bs)
        if limits and f == 1 and rng.random() < 0.7:
            continue
        if all((x * f).denominator == 1 for n, b in enumerate(bs) for x in b["w"] + b["u"] + [way(bs, n, 2)]):
            return f
    for b in bs:
        b["u"] = b["w"] = [0, 0, 0]
        b["min"], b["max"] = [None] * 3, [None] * 3
    return Fraction(1)


def x(v):
    return repr(v / L)


def lim(v, k):
    return "nan" if v is None else repr(v * Q) if k == 2 else x(v)


def scenario(s, rng, jobs, limits):
    bs = bodies_of(rng, limits)
    dtn, dtd = rng.choice([(1, 1), (1, 2), (1, 4), (1, 5), (2, 1)])
    dt = dtn / dtd
    s.do("new", 0)
    s.do("set", "dt", dtn, dtd)
    for n, b in enumerate(bs):
        s.do("body", len(b["c"]), " ".join("%s %s 0" % (x(p[0]), x(p[1])) for p in b["c"]))
    for n, b in enumerate(bs):
        s.do("bset", n, "holder", x(b["hold"][0]), x(b["hold"][1]), repr(b["hangle"] * Q))
        s.do("bset", n, "dpos", x(b["off"][0]), x(b["off"][1]), repr(b["off"][2] * Q))
        b["k"] = [rng.choice([0, 1, 2, 4]) if f else math.inf for f in b["free"]]
        b["d"] = [rng.choice([0, 0, 1]) for _ in range(3)]
        s.do("bset", n, "kspring", *[("inf" if math.isinf(k) else str(k)) for k in b["k"]])
        s.do("bset", n, "damping", *b["d"])
        b["bounce2"] = rng.choice([0, 1, 2])
        s.do("bset", n, "bounce", b["bounce2"] / 2)
        s.do("bset", n, "density", rng.choice([1, 2]))
        if b["root"] is not None:
            s.do("bset", n, "root", b["root"])
    for l in ("vort", "streak"):
        for _ in range(rng.choice([0, 2, 4])):
            s.do(l, repr(rng.randint(-30, 60) / 5 - 15), repr(rng.randint(-30, 60) / 5 + 30), 1, 0, 0)
    for rep in range(rng.choice([1, 1, 2, 3])):
        f = plan(rng, bs, limits)
        t0 = rng.choice([1, 2, 3, 5])
        s.do("set", "time", t0, 1)
        wind = [rng.randint(-3, 3) * 20 * f.denominator for _ in range(2)]
        s.do("set", "inf_vx", "%r*(t-%d)" % (wind[0] / L / dt, t0 - 1))
        s.do("set", "inf_vy", repr(wind[1] / L / dt))
        for n, b in enumerate(bs):
            for name, v in zip(("vx", "vy"), b["u"]):
                s.do("bset", n, name, rng.choice(["%r*(t-%d)" % (v / L / dt, t0 - 1), "%r*(%d-t)" % (v / L / dt, t0 + 1), repr(v / L / dt)]))
            s.do("bset", n, "vo", "%r*(t-%d)" % (b["u"][2] * Q / dt, t0 - 1))
            s.do("bset", n, "cmax", *[lim(v, k) for k, v in enumerate(b["max"])])
            s.do("bset", n, "cmin", *[lim(v, k) for k, v in enumerate(b["min"])])
            s.do("bset", n, "speed", *[repr(v) for v in speed(bs, n, dt)])
        pv = [rng.randint(-3, 3) * 20 * f.denominator for _ in range(2)]
        s.do("flow", "vort", repr(pv[0] / L / dt), 0, repr(pv[1] / L / dt), 0)
        s.do("flow", "streak", repr(pv[1] / L / dt), 0, repr(pv[0] / L / dt), 0)
        pre = s.ask("dump")
        s.do("move", 0)
        post = s.ask("dump")
        jobs.append(("move", {"bs": copy.deepcopy(bs), "wind": wind, "f": f, "dt": dt,
                              "pv": pv}, pre, post))
        if f != 1:
            if rng.random() < 0.7:
                s.do("solve")
                a = s.ask("dump")
                s.do("solve")
                jobs.append(("hit", {"bs": copy.deepcopy(bs), "t0": t0}, post, (a, s.ask("dump"))))
            return
        # the same bodies, moved on
        new = [(shift(bs, 1, n), way(bs, n, 2)) for n in range(len(bs))]
        hold = []
        for n, b in enumerate(bs):
            sh = new[n][0]
            hold.append((b["hold"][0] + sh[0] - b["w"][0] + b["u"][0], b["hold"][1] + sh[1] - b["w"][1] + b["u"][1]))
        for n, b in enumerate(bs):
            sh, t = new[n]
            ax = (int(b["axis"][0] + sh[0]), int(b["axis"][1] + sh[1]))
            r = b["root"]
            b["hangle"] += b["u"][2] + (new[r][1] if r is not None else 0)
            b["angle"] += t
            b["c"] = [(ax[0] + d[0], ax[1] + d[1]) for d in
                      (rot(t, (p[0] - b["axis"][0], p[1] - b["axis"][1])) for p in b["c"])]
            b["axis"], b["hold"] = ax, (int(hold[n][0]), int(hold[n][1]))


def seen(b):
    return {"axis": [q(v, L) for v in b["axis"]], "hold": [q(b["holder"][0], L), q(b["holder"][1], L)],
            "angle": quarter(b["holder"][2] + b["dpos"][2]), "hangle": quarter(b["holder"][2]),
            "c": [[q(v, L) for v in sg["c"]] for sg in b["segs"]],
            "speed": [qr(v, 1000) for v in b["speed"]], "prev": [qr(v, 1000) for v in b["speed_prev"]]}


def observe_move(p, pre, post):
    bodies = []
    for b, d in zip(p["bs"], pre["bodies"]):
        e = seen(d)
        e.update({"root": 0 if b["root"] is None else b["root"] + 1, "w": b["w"], "u": b["u"], "free": b["free"],
                  "min": [NOLIMIT if v is None else v for v in b["min"]],
                  "max": [NOLIMIT if v is None else v for v in b["max"]]})
        bodies.append(e)
    parts, parted = [], []
    for l in ("vort", "streak"):
        for o in pre[l]:
            v = p["pv"] if l == "vort" else p["pv"][::-1]
            parts.append([q(o[0], L), q(o[1], L)] + v)
        parted += [[q(o[0], L), q(o[1], L)] for o in post[l]]
    return {"op": "move", "bodies": bodies, "after": [seen(d) for d in post["bodies"]],
            "hit": [h + 1 for h in post["hit"]] if post["some"] else [0, 0],
            "particles": parts, "parted": parted, "wind": p["wind"],
            "marker": [q(v, L) for v in pre["marker"]], "marked": [q(v, L) for v in post["marker"]]}


def observe_hit(p, post, a, z):
    hit = post["hit"]
    if not post["some"] or hit[0] < 0:
        return []
    big = max([abs(v) for d in (a, z) for b in d["bodies"] for v in b["fholder"]] + [1])
    U = 1000 if big < 1e5 else 10

    def bodies(d):
        return [{"free": b["free"], "k": [0 if math.isinf(k) else k for k in b["k"]], "d": b["d"], "ext": [0, 0, 0],
                 "off": [qr(v, U) for v in o["dpos"]], "v": [qr(v, U) for v in o["speed"]],
                 "H": [qr(v, U) for v in o["fholder"]]} for b, o in zip(p["bs"], d["bodies"])]
    h = [hit[0] + 1, hit[1] + 1]
    return [{"op": "stop", "bodies": bodies(a), "hit": h},
            {"op": "bounce", "bodies": bodies(z), "hit": h, "bounce2": p["bs"][hit[0]]["bounce2"],
             "was": qr(a["bodies"][hit[0]]["fholder"][hit[1]], U)}]


def observe(jobs, ans):
    events = []
    for op, p, a, z in jobs:
        if op == "move":
            events.append(observe_move(p, ans[a], ans[z]))
        else:
            events += observe_hit(p, ans[a], ans[z[0]], ans[z[1]])
    return events
