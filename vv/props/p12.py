"""Body geometry against spec/Polygon.tla."""
import itertools
import json
import math

from vv import runs
from vv.common import MachineryError, Violation, build, q, qr, sh


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def on(a, b, c):
    return cross(a, b, c) == 0 and (a[0] - c[0]) * (b[0] - c[0]) + (a[1] - c[1]) * (b[1] - c[1]) <= 0


def touch(a, b, c, d):
    s = lambda v: (v > 0) - (v < 0)
    w, x, y, z = s(cross(a, b, c)), s(cross(a, b, d)), s(cross(c, d, a)), s(cross(c, d, b))
    if w and x and y and z and w != x and y != z:
        return True
    return on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b)


def simple(p):
    n = len(p)
    if len(set(p)) != n:
        return False
    for k in range(n):
        for l in range(k + 1, n):
            if l == (k + 1) % n or k == (l + 1) % n:
                continue
            if touch(p[k], p[(k + 1) % n], p[l], p[(l + 1) % n]):
                return False
        a, b, c = p[k], p[(k + 1) % n], p[(k + 2) % n]
        if cross(a, b, c) == 0 and (b[0] - a[0]) * (c[0] - b[0]) + (b[1] - a[1]) * (c[1] - b[1]) < 0:
            return False
    return area2(p) != 0


def area2(p):
    return -sum(p[k][0] * p[(k + 1) % len(p)][1] - p[k][1] * p[(k + 1) % len(p)][0] for k in range(len(p)))


def shapes(c):
    rng = c.rng
    grid = [(x, y) for x in range(3) for y in range(3)]
    res = [p for p in itertools.permutations(grid, 3) if simple(p)]
    quads = [p for p in itertools.permutations(grid, 4) if simple(p)]
    res += quads if c.thorough else rng.sample(quads, 500)
    # needles, arrows and hooks: corners far from the rest, every one of them first
    for base in [((0, 0), (0, 2), (9, 1)), ((0, 0), (1, 8), (2, 0)), ((0, 1), (7, 2), (7, 0)),
                 ((0, 0), (0, 3), (1, 3), (1, 1), (9, 1), (9, 0)),
                 ((0, 0), (0, 8), (5, 8), (5, 7), (1, 7), (1, 0)),
                 ((4, 0), (3, 3), (0, 4), (3, 5), (4, 8), (5, 5), (8, 4), (5, 3)),
                 ((0, 0), (2, 6), (4, 1), (6, 6), (8, 0))]:
        for k in range(len(base)):
            p = base[k:] + base[:k]
            res += [p, tuple(reversed(p))]
            res.append(tuple((y, x) for x, y in p))
    five = c.n(300, 4000)
    while five:
        n = rng.choice([5, 5, 6, 7, 8, 10])
        g = rng.choice([3, 4, 5, 6])
        p = tuple((rng.randint(0, g), rng.randint(0, g)) for _ in range(n))
        # untangle: reverse crossing stretches
        for _ in range(60):
            bad = None
            for k in range(n):
                for l in range(k + 2, n):
                    if (l + 1) % n != k and touch(p[k], p[k + 1], p[l], p[(l + 1) % n]):
                        bad = (k, l)
                        break
                if bad:
                    break
            if not bad:
                break
            k, l = bad
            p = p[:k + 1] + tuple(reversed(p[k + 1:l + 1])) + p[l + 1:]
        if rng.random() < 0.5:
            p = tuple(reversed(p))
        if simple(p):
            res.append(p)
            five -= 1
    return res


LUA = r'''
local function n(x) return string.format('%.17g', x) end
local function two(a) return '[' .. n(a[1]) .. ',' .. n(a[2]) .. ']' end
local function three(v) local a = v:totable() return '[' .. n(a[1]) .. ',' .. n(a[2]) .. ',' .. n(a[3]) .. ']' end
function tell(b)
  local c, s, t = {}, {}, {}
  for k, v in ipairs(b:totable()) do c[k] = two(v:totable()) s[k] = n(v:abs2()) t[k] = n(v:abs()) end
  io.write('{"n":', #b, ',"area":', n(b:get_area()), ',"slen":', n(b:get_slen()), ',"moi":', n(b:get_moi_cofm()),
    ',"moi_axis":', n(b:get_moi_axis()), ',"cofm":', two(b:get_cofm()), ',"axis":', two(b:get_axis()),
    ',"holder":', three(b.holder_pos), ',"delta":', three(b.delta_pos),
    ',"corners":[', table.concat(c, ','), '],"abs2":[', table.concat(s, ','), '],"abs":[', table.concat(t, ','), ']}\n')
end
'''


def told(c, b, ps):
    """bodies as scripts see them, moved about"""
    rng = c.rng
    lua, jobs = [LUA], []
    d = c.scratch
    for k, p in enumerate(ps):
        with open(d + "/b%d" % k, "w") as f:
            f.write("".join("%d %d\n" % a for a in p))
        r = lambda: [rng.randint(-3, 3), rng.randint(-3, 3)]
        holder, delta, moves = r(), rng.choice([[0, 0], r()]), []
        lua.append("b = load_body('b%d') b.holder_pos = {%d,%d,0} b.delta_pos = {%d,%d,0} tell(b)"
                   % tuple([k] + holder + delta))
        for _ in range(rng.choice([1, 2, 3])):
            if rng.random() < 0.4:
                m = ["shift"] + r()
                lua.append("b:move_r{%d,%d}" % (m[1], m[2]))
            else:
                m = ["turn", rng.choice([-3, -2, -1, 1, 2, 3, 5])]
                lua.append(rng.choice(["b:move_o(%d*math.pi/2)", "b:move_d(%d*90)"]) % m[1])
            lua.append("tell(b)")
            moves.append(m)
        jobs.append((p, holder, delta, moves))
    with open(d + "/run.lua", "w") as f:
        f.write("\n".join(lua) + "\n")
    r = runs.vvflow(b, d, ["run.lua"])
    out = r.stdout.split("\n")[:-1]
    if r.returncode or len(out) != sum(len(j[3]) + 1 for j in jobs):
        raise Violation("a script that moves bodies about fails", {"stderr": r.stderr[-500:]})
    events, k = [], 0
    for p, holder, delta, moves in jobs:
        t = []
        for l in out[k:k + len(moves) + 1]:
            j = json.loads(l.replace("-nan", "nan").replace("nan", "NaN").replace("inf", "Infinity"))
            turn = lambda v: [q(v[0]), q(v[1]), q(round(v[2] / (math.pi / 2), 9))]
            near = lambda x, s=1: q(round(x, 9), s)
            t.append({"n": j["n"], "area2": near(j["area"], 2), "cx": qr(j["cofm"][0], 256), "cy": qr(j["cofm"][1], 256),
                      "moi": qr(j["moi"], 16), "moi_axis": qr(j["moi_axis"], 16), "slen": qr(j["slen"], 256),
                      "axis": [near(x) for x in j["axis"]], "holder": turn(j["holder"]), "delta": turn(j["delta"]),
                      "corners": [[near(x) for x in a] for a in j["corners"]], "abs2": [near(x) for x in j["abs2"]],
                      "abs": [qr(x, 256) for x in j["abs"]]})
        k += len(moves) + 1
        events.append({"poly": [list(a) for a in p], "holder": holder, "delta": delta, "moves": moves, "told": t})
    return events


def check(c):
    b = build(["vvhd", "vvflow"], ["drv_body"])
    c.model("PolygonMC", "CONSTANTS N = 2 Corners = %d\nINIT Init\nNEXT Next\n" % c.n(5, 7)
            + "INVARIANTS Pick Invariance Partition\n")
    ps = shapes(c)
    jobs, inp = [], []
    for p in ps:
        ox, oy = c.rng.choice([(0, 0), (0, 0), (-5, 3), (64, -32), (1000, 1000), (0.5, -0.25)])
        x0 = 2 * min(x for x, y in p) - 2
        y0 = 2 * min(y for x, y in p) - 2
        ext = max(max(x for x, y in p) * 2 - x0, max(y for x, y in p) * 2 - y0) + 3
        if not c.thorough and len(p) > 4 and ext > 13 and p[0] not in ((0, 0),):
            ext = 11
        jobs.append((p, x0, y0, ext))
        inp.append("%d %r %r %d %d %d %s" % (len(p), ox, oy, x0, y0, ext,
                                             " ".join("%d %d" % a for a in p)))
    r = sh([b.driver("drv_body")], inp="\n".join(inp) + "\n")
    out = r.stdout.split("\n")[:-1]
    if r.returncode or len(out) != len(jobs):
        raise Violation("the body geometry of an outline cannot be computed", {"stderr": r.stderr[-500:]})
    events = []
    for (p, x0, y0, m), l in zip(jobs, out):
        j = json.loads(l.replace("nan", '"nan"').replace("inf", '"inf"'))
        f = lambda x: float(x)
        events.append({
            "poly": [list(a) for a in p], "n": j["n"], "area2": q(f(j["area"]), 2),
            "hollow": bool(j["hollow"]), "cx": qr(f(j["cofm"][0]), 256), "cy": qr(f(j["cofm"][1]), 256),
            "moi": qr(f(j["moi"]), 16), "moi_axis": qr(f(j["moi_axis"]), 16), "slen": qr(f(j["slen"]), 256),
            "segs": [[q(f(s[0]), 1), q(f(s[1]), 1), q(f(s[2]), 2), q(f(s[3]), 2), q(f(s[4]), 1),
                      q(f(s[5]), 1), qr(f(s[6]), 256)] for s in j["segs"]],
            "x0": x0, "y0": y0, "m": m, "inv": j["inv"],
        })
    c.notes["outlines"] = len(events)
    c.notes["query_points"] = sum(e["m"] ** 2 for e in events)
    for p in ps[::max(1, len(ps) // 6)]:
        c.sample([list(a) for a in p])
    some = told(c, b, ps if c.thorough else c.rng.sample(ps, 200))
    c.notes["scripts_moving_bodies"] = len(some)
    c.expect_all("PolygonTrace", events + some, "the geometry of an outline")
