"""Body generators against spec/Generators.tla."""
import math
import os

from vv.common import Violation, build, qr, sh
from vv import runs

TICK = 1000     # ticks in a unit
DIRS = [(1, 0, 1), (4, 3, 5), (3, 4, 5), (0, 1, 1), (-3, 4, 5), (-4, 3, 5), (12, 5, 13), (5, 12, 13), (-5, 12, 13), (15, 8, 17)]

PRELUDE = r"""
local out = io.open("out.txt", "w")
out:setvbuf("no")
function show(k, f, t)
  local ok, b = pcall(f, t)
  if not ok then out:write(k, " refused\n") return end
  local l = b:totable()
  out:write(k, " made")
  for i = 1, #l do out:write(string.format(" %.17g %.17g", l[i].x, l[i].y)) end
  out:write("\n")
  if #l > 0 then b.label = tostring(k) S.body_list:insert(b) end
end
function ask(k, f, t)
  local ok, b = pcall(f, t)
  out:write(k, ok and " taken\n" or " refused\n")
end
"""


def step(rng, e, total):
    """a number of segments or a length of them"""
    n = rng.choice([12, 17, 30, 41, 64, 100, 151, 260])
    if rng.random() < 0.5:
        e["N"], e["dl"] = n, 0
    else:
        e["N"], e["dl"] = 0, max(20, round(total / n))
    return n


def shape(rng):
    """parameters of a good body: the event, and the table in units of length"""
    gen = rng.choice(["cylinder", "semicyl", "ellipse", "parallelogram", "savonius", "plate", "plate", "plate", "chamber_box", "chamber_gpj"])
    e = {"gen": gen, "N": 0, "dl": 0}
    r = lambda lo, hi, by=20: rng.randrange(lo, hi, by)
    t = {}
    if gen in ("cylinder", "semicyl"):
        e["R"] = r(100, 6000)
        step(rng, e, (2 * math.pi if gen == "cylinder" else math.pi + 2) * e["R"])
        names = ["R"]
    elif gen == "ellipse":
        e["Rx"] = r(5000, 18000)
        e["Ry"] = e["Rx"] if rng.random() < 0.15 else max(1500, r(e["Rx"] // 8, e["Rx"] + 1))
        a, b = e["Rx"], e["Ry"]
        total = math.pi * (3 * (a + b) - math.sqrt((3 * a + b) * (a + 3 * b)))
        n = step(rng, e, total)
        if max(e["dl"], total / n) > b / 2.5:
            return None
        names = ["Rx", "Ry"]
    elif gen == "parallelogram":
        cx, cy, ch = rng.choice([d for d in DIRS if d[1]])
        e.update(cx=cx, cy=cy, ch=ch, L=r(200, 6000), H=r(60, 4000, 60) * 1)
        t["d"] = math.degrees(math.atan2(cy, cx))
        step(rng, e, 2 * (e["L"] + e["H"] * ch / cy))
        names = ["L", "H"]
    elif gen == "savonius":
        e["R"] = r(600, 5000)
        e["h"] = r(100, min(e["R"], 3000))
        step(rng, e, math.pi * (4 * e["R"] + e["h"]))
        names = ["R", "h"]
    elif gen == "plate":
        s, k, h = rng.choice([(0, 1, 1), (0, 1, 1), (3, 4, 5), (4, 3, 5), (-3, 4, 5), (5, 12, 13), (-5, 12, 13), (8, 15, 17), (7, 24, 25)])
        e.update(s=s, k=k, h=h)
        m = rng.randrange(80, 400, 8)
        if s == 0:
            e["L"] = r(400, 9000, 8)
            e["R1"] = e["R2"] = rng.randrange(40, 2000, 8)
        else:
            while True:
                e["L"] = h * m
                small = rng.choice([0, 8, 80, 400, 1200])
                e["R1"], e["R2"] = (small, small + s * m) if s > 0 else (small - s * m, small)
                if e["L"] + e["R1"] + e["R2"] < 18000:
                    break
                m = m // 2 + 8 - (m // 2) % 8
        e["start"] = rng.choice([0, 0, 0, 1, 2, 4])
        e["stop"] = rng.choice([8, 8, 8, 7, 6, 5])
        a = math.asin(s / h)
        e["ss"], e["sh"], e["gap"] = 1, 1, 0
        total = 2 * ((math.pi / 2 - a) * e["R1"] + (math.pi / 2 + a) * e["R2"] + e["L"] * math.cos(a))
        n = step(rng, e, total)
        if e["stop"] < 8:
            # a socket: its radius and the gap in a rational proportion
            ss, sh = rng.choice([(3, 5), (4, 5), (12, 13), (15, 17), (24, 25)])
            r2 = e["R1"] + (e["R2"] - e["R1"]) * e["stop"] / 8
            gap = r2 * (sh - ss) / ss
            dl = e["dl"] or total / n
            if r2 < 40 or gap != int(gap) or gap <= dl * 1.01 or math.pi / 2 - a - math.acos(ss / sh) < 0.05 \
                    or r2 != int(r2):
                return None
            # the socket has to lie within the link
            if e["L"] * (e["stop"] - e["start"]) / 8 < 2 * (r2 + gap):
                return None
            e["ss"], e["sh"], e["gap"] = ss, sh, int(gap)
            t["gap"] = gap / TICK
        elif rng.random() < 0.2:
            t["gap"] = 0.25     # of no effect
        if e["start"] or rng.random() < 0.2:
            t["start"] = e["start"] / 8
        if e["stop"] < 8 or rng.random() < 0.2:
            t["stop"] = e["stop"] / 8
        names = ["R1", "R2", "L"]
    elif gen == "chamber_box":
        e["D"] = r(200, 2000, 40)
        e["d"] = r(40, 1000, 40)
        e["L"] = e["D"] + e["d"] + r(40, 3000, 40)
        e["H"], e["h"] = r(200, 5000, 40), r(40, 2000, 40)
        e["dln"], e["dls"] = r(40, 400), r(60, 900)
        names = ["D", "d", "L", "H", "h", "dln", "dls"]
    else:
        cx, cy, ch = rng.choice([d for d in DIRS if d[0] > 0])
        e.update(cx=cx, cy=cy, ch=ch, R0=r(200, 2000))
        e["X0"] = r(-2000, 2000)
        e["X1"] = e["X0"] + rng.choice([0, r(0, 2000)])
        e["X2"] = e["X1"] + rng.choice([0, r(0, 2000)])
        e["X3"] = e["X2"] + rng.choice([0, cx * r(20, 120, 20)])
        y3 = e["R0"] + (e["X3"] - e["X2"]) * cy // cx
        e["L"] = e["X3"] - e["X0"] + e["R0"] + r(100, 4000)
        e["H"] = 2 * y3 + r(100, 4000)
        e["dln"], e["dls"] = r(60, 400), r(60, 900)
        t["d"] = math.degrees(math.atan2(cy, cx))
        names = ["R0", "X0", "X1", "X2", "X3", "L", "H", "dln", "dls"]
    if max(abs(e.get(k, 0)) for k in names) > 19000:
        return None
    for k in names:
        t[k] = e[k] / TICK
    if gen not in ("chamber_box", "chamber_gpj"):
        if e["N"]:
            t["N"] = e["N"]
        else:
            t["dl"] = e["dl"] / TICK
    return e, t


LENGTHS = {"dl", "dln", "dls", "R", "Rx", "Ry", "L", "H", "h", "D", "R0", "gap", "R1", "R2", "X0", "X1", "X2", "X3"}


def table(rng, gen):
    """any parameters: mostly good ones with something changed"""
    while True:
        s = shape(rng)
        if s and s[0]["gen"] == gen:
            break
    e, good = s
    t = {}
    for k, v in good.items():
        t[k] = {"ok": True, "v": round(v * TICK) if k in LENGTHS or (k == "d" and gen == "chamber_box")
                else round(v * 8) if k in ("start", "stop") else round(v)}
    if gen in ("savonius", "ellipse") and rng.random() < 0.2:
        a, o = ("h", "R") if gen == "savonius" else ("Ry", "Rx")
        t[a]["v"] = t[o]["v"] + rng.choice([0, 1, -1])
    if gen == "parallelogram":
        t["d"]["v"] = rng.choice([30, 90, 150, 179, 1])
    if gen == "chamber_gpj":
        t["d"]["v"] = rng.choice([0, 0, 45])
        t["H"]["v"] = 2 * (t["R0"]["v"] + t["X3"]["v"] - t["X2"]["v"]) + rng.choice([10, 500])
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        k = rng.choice(sorted(t))
        what = rng.random()
        if what < 0.25:
            del t[k]
            if not t:
                break
        elif what < 0.4:
            t[k] = {"ok": False, "v": 0, "lua": rng.choice(["{}", "'word'", "true", "0/0", "1/0", "-1/0", "print"])}
        elif what < 0.5:
            t[rng.choice(["foo", "r", "n", "Dl", "D", "R", "d", "X0", "gap", "label"])] = {"ok": True, "v": 1000}
        elif what < 0.6:
            j = rng.choice(["N", "dl"])
            if j not in t:
                t[j] = {"ok": True, "v": 50 if j == "N" else 100}
        elif k == "N":
            t[k] = {"ok": True, "v": rng.choice([0, -1, -100, 50])}
        elif k in ("start", "stop"):
            t[k] = {"ok": True, "v": rng.choice([-1, 0, 1, 4, 7, 8, 9])}
        elif k == "d" and gen == "parallelogram":
            t[k] = {"ok": True, "v": rng.choice([-30, 0, 180, 181, 270, 60])}
        elif k == "d" and gen == "chamber_gpj":
            t[k] = {"ok": True, "v": rng.choice([-45, 90, 91, 180])}
        else:
            v = t[k]["v"]
            t[k] = {"ok": True, "v": rng.choice([0, -v, -1000, 10 * v, v // 2, 2 * v])}
            # close to a bound: equal to another parameter
            if rng.random() < 0.6:
                o = rng.choice([x for x in t if x in LENGTHS] or [k])
                t[k] = {"ok": True, "v": t[o]["v"] + rng.choice([0, 1, -1])}
    return t




def lua(t, gen):
    out = []
    for k, v in t.items():
        if "lua" in v:
            x = v["lua"]
        elif k in ("start", "stop"):
            x = repr(v["v"] / 8)
        elif k == "N" or (k == "d" and gen != "chamber_box"):
            x = str(v["v"])
        else:
            x = repr(v["v"] / TICK)
        out.append("%s=%s" % (k, x))
    return "{%s}" % ", ".join(out)


def tame(gen, t):
    """whether what is made of this stays within some thousands of segments"""
    v = {k: x["v"] for k, x in t.items() if x["ok"]}
    if v.get("N", 0) > 5000:
        return False
    big = max([abs(v[k]) for k in v if k in LENGTHS] + [1])
    for k in ("dl", "dln", "dls"):
        if 0 < v.get(k, 1000) < 20 or (v.get(k, 0) > 0 and big / v[k] > 3000):
            return False
    # bounds that are sums of parameters: not decided to the last bit
    g = lambda k: v.get(k, 0)
    near = {"chamber_box": [g("L") - g("D") - g("d")],
            "plate": [abs(g("R1") - g("R2")) - g("L")],
            "chamber_gpj": [g("X3") - g("X0") + g("R0") - g("L"),
                            g("H") - 2 * (g("R0") + (g("X3") - g("X2") if g("d") == 45 else 0))]}
    if any(abs(x) < 2 for x in near.get(gen, [])):
        return False
    # too coarse for an outline: beside the point here
    small = min([v[k] for k in v if k in LENGTHS - {"X0", "X1", "X2", "X3", "dl", "dln", "dls", "R1", "R2", "gap"} and v[k] > 0] + [10 ** 9])
    for k in ("dl", "dln", "dls"):
        if v.get(k, 0) * 2 > small:
            return False
    if gen == "ellipse":
        if "N" in v and 7 * max(v.get("Rx", 1000), v.get("Ry", 1000)) / max(v["N"], 1) > v.get("Ry", 1000) / 2:
            return False
        if "dl" in v and 0 < abs(19 * v["dl"] - 10 * v.get("Ry", 1000)) < 9:
            return False
    if v.get("N", 20) not in (0,) and 0 < v.get("N", 20) < 12:
        return False
    return True


def check(c):
    b = build(["vvhd", "vvflow"], [])
    c.model("GeneratorsMC", "CONSTANT Lengths = {%s}\nINIT Init\nNEXT Next\nINVARIANTS Closed Arcs Steady\n"
            % ("500, 1000, 1700, 4000" if not c.thorough else "300, 500, 800, 1000, 1300, 1700, 2400, 3000, 4000"))
    rng = c.rng
    d = c.scratch + "/gen"
    prog, made, asked = [PRELUDE], [], []
    while len(made) < c.n(500, 8000):
        s = shape(rng)
        if not s:
            continue
        e, t = s
        u = rng.choice([1, 1, 1, 0.001, 1000.0, 0.125])      # the unit of length
        e["op"] = "made"
        e["unit"] = u
        tab = ", ".join("%s=%r" % (k, v if k in ("N", "d", "start", "stop") and not (k == "d" and e["gen"] == "chamber_box") else v * u) for k, v in t.items())
        prog.append("show(%d, gen_%s, {%s})" % (len(made), e["gen"], tab))
        e["call"] = "gen_%s{%s}" % (e["gen"], tab)
        made.append(e)
    while len(asked) < c.n(1500, 20000):
        gen = rng.choice(["cylinder", "semicyl", "ellipse", "parallelogram", "savonius", "plate", "plate", "chamber_box", "chamber_gpj"])
        t = table(rng, gen)
        if not tame(gen, t):
            continue
        call = lua(t, gen)
        prog.append("ask(%d, gen_%s, %s)" % (len(asked), gen, call))
        asked.append({"op": "asked", "gen": gen, "call": "gen_%s%s" % (gen, call), "t": {k: {"ok": v["ok"], "v": v["v"]} for k, v in t.items()}})
    prog.append('out:close() S.inf_vx="1" S:save("bodies.h5")')
    lines, bodies = run(c, b, d, "\n".join(prog))
    k = 0
    for e in made:
        w = lines[k].split()
        k += 1
        e["refused"] = w[1] == "refused"
        f = [float(x) for x in w[2:]]
        e["corners"] = [[qr(f[j] / e["unit"], TICK), qr(f[j + 1] / e["unit"], TICK)] for j in range(0, len(f), 2)]
        e["slip"] = bodies.get(w[0], [])
        del e["unit"]
    for e in asked:
        e["refused"] = lines[k].split()[1] == "refused"
        k += 1
    c.notes["bodies"] = len(made)
    c.notes["tables"] = len(asked)
    c.notes["tables_refused"] = sum(e["refused"] for e in asked)
    c.notes["segments"] = sum(len(e["corners"]) for e in made)
    for e in made[:3] + asked[:4]:
        c.sample(e["call"])
    c.expect_all("GeneratorsTrace", made, "the outline made")
    c.expect_all("GeneratorsTrace", asked, "the parameters taken")
    c.assumptions.append("outlines are observed to a thousandth of the unit; steps too coarse for the shape are left out")


def run(c, b, d, text):
    os.makedirs(d, exist_ok=True)
    open(d + "/s.lua", "w").write(text)
    p = sh(["bash", "-c", "ulimit -v 4000000; exec timeout 120 %s s.lua" % b.vvflow], cwd=d)
    lines = open(d + "/out.txt").read().split("\n")[:-1] if os.path.exists(d + "/out.txt") else []
    if p.returncode:
        calls = [l for l in text.split("\n") if l.startswith(("show", "ask"))]
        raise Violation("vvflow ended with %d in the middle of generating bodies" % p.returncode,
                        {"next": calls[len(lines):len(lines) + 2], "stderr": p.stderr[-500:]})
    slips = {}
    for k, ds in runs.dump(b, d + "/bodies.h5").items():
        if k.startswith("body"):
            a = ds["@"]
            n = len(ds["data"])
            slip = [bool(runs.num(x)) for x in a["slip"]] if "slip" in a else [bool(runs.num(a["general_slip"]))] * n
            slips[a["label"]] = slip
    return lines, slips
