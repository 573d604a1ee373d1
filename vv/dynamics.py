"""Flows solved by the real code, as observations for spec/DynamicsTrace.tla."""
import math

from vv.common import BAD, q, qr


def rect(rng, w, h, at, solid=True):
    p = [(0, y) for y in range(h)] + [(x, h) for x in range(w)] \
        + [(w, y) for y in range(h, 0, -1)] + [(x, 0) for x in range(w, 0, -1)]
    k = rng.randrange(len(p))
    p = p[k:] + p[:k]
    if not solid:
        p.reverse()
    return [(x + at[0], y + at[1]) for x, y in p]


ELL = [(0, 0), (0, 1), (0, 2), (0, 3), (1, 3), (2, 3), (2, 2), (2, 1), (3, 1), (4, 1), (4, 0), (3, 0), (2, 0), (1, 0)]


def half(rng, n=4):
    return rng.randint(-n, n) / 2


def scenario(s, rng, jobs):
    """one flow, solved a few times by one solver"""
    s.do("new", 0)
    m = rng.choice([1, 1, 2, 4])
    s.do("set", "dt", 1, m)
    time = rng.choice([0, 1, 3, -1])
    s.do("set", "time", time, m)
    nb = rng.choice([1, 1, 2, 2, 3])
    par = []
    for k in range(nb):
        at = (9 * (k % 2) - 5 + rng.randint(0, 2), (0 if k < 2 else 7) - 3 + rng.randint(0, 1))
        pts = rect(rng, rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 2, 3]), at)
        s.do("body", len(pts), " ".join("%d %d 0" % p for p in pts))
        cx = sum(p[0] for p in pts) / len(pts)
        cy = sum(p[1] for p in pts) / len(pts)
        b = {"special": rng.randrange(len(pts)), "kutta": rng.random() < 0.2, "density": rng.choice([1, 0.5, 2, 1.5, 0]),
             "root": -1, "u": [0, 0, 0], "k": [math.inf] * 3, "d": [0, 0, 0], "ext": 0}
        if rng.random() < 0.5 and k:
            b["root"] = rng.randrange(k)
        still = rng.random() < 0.35
        for n in range(3):
            if not still and rng.random() < 0.6:
                b["u"][n] = rng.randint(-2, 2)
            if rng.random() < 0.45:
                b["k"][n] = rng.choice([0, 1, 2, 5])
                b["d"][n] = rng.choice([0, 0, 1, 3])
        if b["density"] == 0 and not any(math.isinf(x) for x in b["k"]):
            b["density"] = 1
        if rng.random() < 0.4:
            b["ext"] = rng.randint(-3, 3)
        # the axis anywhere around the body; the joint wherever the offset leaves it
        dpos = [half(rng), half(rng)] if not math.isinf(b["k"][0]) or not math.isinf(b["k"][1]) else [0, 0]
        axis = [math.floor(cx * 2) / 2 + rng.choice([0, 0, 1, -0.5]), math.floor(cy * 2) / 2 + rng.choice([0, 0, -1, 0.5])]
        dpo = half(rng) if not math.isinf(b["k"][2]) else 0
        s.do("bset", k, "holder", axis[0] - dpos[0], axis[1] - dpos[1], 0.25)
        s.do("bset", k, "dpos", dpos[0], dpos[1], dpo)
        s.do("bset", k, "kspring", *["inf" if math.isinf(x) else str(x) for x in b["k"]])
        s.do("bset", k, "damping", *b["d"])
        s.do("bset", k, "density", b["density"])
        s.do("bset", k, "special", b["special"])
        s.do("bset", k, "kutta", int(b["kutta"]))
        for n, f in enumerate(("vx", "vy", "vo")):
            s.do("bset", k, f, "%d+0*t" % b["u"][n] if b["u"][n] else "0")
        s.do("bset", k, "fo", "%d+t-%s" % (b["ext"], repr(time / m)) if b["ext"] else "0")
        if b["root"] >= 0:
            s.do("bset", k, "root", b["root"])
        par.append(b)
    grav = [rng.randint(-2, 2), rng.randint(-2, 2)]
    s.do("set", "gravity", *grav)
    for _ in range(rng.choice([0, 1, 1, 2])):
        x, y = rng.choice([-14, 16, 20]) + rng.random(), rng.choice([-12, -9, 13, 15]) + rng.random()
        for n in range(3):
            s.do("vort", x + 0.3 * math.cos(n), y + 0.2 * math.sin(2 * n), rng.randint(-8, 8) / 4, 0, 0)
    sinks = []
    if rng.random() < 0.3:
        sinks.append((17.5, -8.25, rng.choice([1, -2])))
        s.do("src", *sinks[0], 0, 0)
    for rep in range(rng.choice([1, 2, 3])):
        w = {"vinf": [rng.randint(-2, 2), rng.randint(-2, 2)], "infg": rng.choice([0, 0, 1, -2]),
             "m": m, "grav": grav, "sinks": sinks, "time": time}
        s.do("set", "inf_vx", str(w["vinf"][0]))
        s.do("set", "inf_vy", str(w["vinf"][1]))
        s.do("set", "inf_g", w["infg"])
        w["pre"] = []
        for k in range(nb):
            quiet = rng.random() < 0.3
            z = lambda n: 0 if quiet else half(rng, n)
            s.do("bset", k, "speed_prev", z(4), z(4), z(3))
            s.do("bset", k, "friction_prev", *[0 if quiet else rng.randint(-3, 3) for _ in range(3)])
            s.do("bset", k, "fdt_dead", *[0 if quiet else rng.randint(-3, 3) for _ in range(3)])
            s.do("bset", k, "g_dead", 0 if quiet else rng.randint(-2, 2))
        # what the solver found before is not where it starts from
        if rng.random() < 0.4:
            for k in range(nb):
                s.do("bset", k, "speed", 7, -8, 9)
        if rng.random() < 0.5:
            s.do("solve")       # the same again: the answer must be the same
        s.do("solve")
        jobs.append((par, w, s.ask("dump")))
        if m <= 2 and rng.random() < 0.3:
            # the bodies elsewhere, the shape the same
            for k in range(nb):
                s.do("bset", k, "vy", str(m))
            s.do("solve")
            for k in range(nb):
                s.do("bset", k, "speed", 0, m, 0)
            s.do("move", 1)
            for k in range(nb):
                s.do("bset", k, "vy", "%d+0*t" % par[k]["u"][1] if par[k]["u"][1] else "0")


def psi(p, rd, g, at):
    r = math.hypot(at[0] - p[0], at[1] - p[1])
    x = math.log(r / rd) + 0.5 if r >= rd else r * r / (2 * rd * rd)
    return g * x / (2 * math.pi)


def angle(p, p1, p2):
    d1 = (p[0] - p1[0], p[1] - p1[1])
    d2 = (p[0] - p2[0], p[1] - p2[1])
    return math.atan2(-d1[0] * d2[1] + d1[1] * d2[0], d1[0] * d2[0] + d1[1] * d2[1])


def leaks(w, d, time):
    """the flow through every segment, relative to the segment; None where a
    free vortex is too close to tell"""
    res = []
    for n, b in enumerate(d["bodies"]):
        out = []
        for k, sg in enumerate(b["segs"]):
            c1 = sg["c"]
            dl = sg["dl"]
            c2 = [c1[0] + dl[0], c1[1] + dl[1]]
            v = list(w["vinf"])
            for x, y, g in w["sinks"]:
                dx, dy = sg["r"][0] - x, sg["r"][1] - y
                r2 = dx * dx + dy * dy + abs(g) / w["m"] / math.pi
                v[0] += g * dx / r2 / (2 * math.pi)
                v[1] += g * dy / r2 / (2 * math.pi)
            x = -v[1] * dl[0] + v[0] * dl[1]
            for o in d["vort"]:
                if o[2]:
                    x -= psi(o, 1 / o[5], o[2], c2) - psi(o, 1 / o[5], o[2], c1)
            for j, a in enumerate(d["bodies"]):
                for t in a["segs"]:
                    rd = 0.25 * math.hypot(*t["dl"])
                    x -= psi(t["c"], rd, t["g"], c2) - psi(t["c"], rd, t["g"], c1)
                o = a["speed"][2]
                if o:
                    for t in a["segs"]:
                        r0 = (t["r"][0] - a["axis"][0], t["r"][1] - a["axis"][1])
                        p = t["r"]
                        if j == n and t is sg:
                            p = [p[0] - dl[1] * 0.001, p[1] + dl[0] * 0.001]
                        rd = 0.25 * math.hypot(*t["dl"])
                        if min(math.hypot(p[0] - c1[0], p[1] - c1[1]), math.hypot(p[0] - c2[0], p[1] - c2[1])) < rd:
                            return None
                        xg = math.log(math.hypot(p[0] - c2[0], p[1] - c2[1]) / math.hypot(p[0] - c1[0], p[1] - c1[1]))
                        xq = angle(p, c1, c2)
                        e = t["dl"]
                        x += o * (xg * (-r0[1] * e[0] + r0[0] * e[1]) - xq * (e[0] * r0[0] + e[1] * r0[1])) / (2 * math.pi)
            x -= dl[1] * b["speed"][0] - dl[0] * b["speed"][1]
            out.append(x)
        res.append(out)
    return res


def q2(x):
    return q(x, 2)


def observe(op, par, w, d):
    lk = leaks(w, d, w["time"]) if op == "circulation" else None
    big = max([abs(s["g"]) for b in d["bodies"] for s in b["segs"]] + [abs(x) / 40 for b in d["bodies"] for x in b["hydro"] + b["fholder"]])
    U = 1000 if big < 15 else 100 if big < 150 else 10
    bodies = []
    for n, (p, b) in enumerate(zip(par, d["bodies"])):
        e = {"c": [[q(s["c"][0]), q(s["c"][1])] for s in b["segs"]],
             "axis2": [q2(b["axis"][0]), q2(b["axis"][1])], "hold2": [q2(b["holder"][0]), q2(b["holder"][1])],
             "rho2": q2(p["density"]), "root": p["root"] + 1,
             "rigid": [math.isinf(x) for x in p["k"]], "k": [0 if math.isinf(x) else x for x in p["k"]],
             "d": p["d"], "dpos2": [q2(x) for x in b["dpos"]], "ext": p["ext"], "ui": p["u"],
             "special": p["special"] + 1, "kutta": p["kutta"],
             "v0": [q2(x) for x in b["speed_prev"]], "f0": [q(x) for x in b["friction_prev"]],
             "fd": [q(x) for x in b["fdt_dead"]], "dead": q(b["g_dead"]),
             "g": [qr(s["g"], U) for s in b["segs"]], "v": [qr(x, U) for x in b["speed"]],
             "F": [qr(x, U) for x in b["hydro"]], "H": [qr(x, U) for x in b["fholder"]]}
        if lk:
            e["leak"] = [qr(x, U) for x in lk[n]]
        bodies.append(e)
    return {"op": op, "bodies": bodies, "u": U, "m": w["m"], "grav": w["grav"], "infg": w["infg"], "started": w["time"] > 0,
            "free": qr(sum(o[2] for o in d["vort"]), U)}
