"""Imports of particles, outlines and old flows against spec/Import.tla."""
import json
import math
import os
import re
import struct

from vv import runs
from vv.common import Violation, build
from vv.drive import Script
from vv.props.p05 import flow, tok

LISTS = {"vort": "vort", "heat": "heat", "ink": "streak", "ink_source": "ssrc", "source": "src"}
WORDS = ["#", "abc", "--", ",", "x1", "/", "+", ".", "e5", "y=2"]


def value(rng, wild=True):
    k = rng.random()
    if k < 0.5:
        return rng.randint(-640, 640) / 64
    if k < 0.8 or not wild:
        return rng.uniform(-10, 10)
    return rng.choice([0.0, -0.0, 1e300, -5e-324, 1e-310, math.inf, -math.inf, 1 / 3, rng.gauss(0, 1) * 10 ** rng.randint(-30, 30)])


def spell(rng, x):
    """any of the notations of a number"""
    if math.isinf(x):
        s = rng.choice(["inf", "INF", "Infinity", "1e999"])
        return ("-" if x < 0 else rng.choice(["", "+"])) + s
    s = rng.choice([repr, lambda v: "%.17g" % v, lambda v: "%.40e" % v, lambda v: "%.25E" % v, float.hex, repr])(x)
    if s.endswith(".0") and rng.random() < 0.5:
        s = s[:-1 - rng.randint(0, 1)]
    if re.match(r"-?0\.\d", s) and rng.random() < 0.2:
        s = s.replace("0.", ".", 1)
    if "x" not in s and rng.random() < 0.15:
        s = ("-" if s[0] == "-" else "") + "0" * rng.randint(1, 3) + s.lstrip("-")
    if not s.startswith("-") and rng.random() < 0.15:
        s = "+" + s
    return s


def text(rng, lines):
    """lines: of words ["n", x] or ["w", s]; the bytes"""
    out = ""
    for k, l in enumerate(lines):
        s = rng.choice(["", "", "", " ", "\t "])
        for j, w in enumerate(l):
            s += w[1] if w[0] == "w" else spell(rng, w[1])
            nxt = l[j + 1] if j + 1 < len(l) else None
            if not (nxt and nxt[0] == "w" and nxt[1] == "," and w[0] == "n" and rng.random() < 0.5):
                s += rng.choice([" ", "\t", "  ", " ", " " * rng.choice([3, 120, 126, 127, 300])]) if nxt else ""
        s += rng.choice(["", "", "", " ", "\t\t", " " * rng.choice([1, 90, 128, 400])])
        out += s + ("\r" if rng.random() < 0.1 else "")
        if k < len(lines) - 1 or not l or rng.random() < 0.7:
            out += "\n"
    return out


def told(lines):
    return [[[w[0], tok(w[1]) if w[0] == "n" else w[1]] for w in l] for l in lines]


def listing(rng):
    n = rng.choice([0, 1, 2, 5, 12] if rng.random() < 0.95 else [60, 300])
    num = lambda: ["n", value(rng)]
    lines = [[num(), num(), num()] for _ in range(n)]
    k = rng.random()
    if k < 0.15:        # any layout
        flat = [w for l in lines for w in l]
        lines = []
        while flat:
            m = rng.choice([1, 2, 3, 4, 7, 0])
            lines.append(flat[:m])
            flat = flat[m:]
    elif k < 0.3 and lines:
        lines[rng.randrange(len(lines))].pop()      # a short line
    elif k < 0.45 and lines:
        lines[rng.randrange(len(lines))].insert(rng.randrange(4), ["w", rng.choice(WORDS)])
    elif k < 0.55:
        lines.insert(0, [["w", "#x"], ["w", "y"], ["w", "g"]])
    elif k < 0.65:
        lines.insert(rng.randint(0, len(lines)), [])
    return lines


def round_corners(rng, n):
    x, y = rng.uniform(-3, 3), rng.uniform(-3, 3)
    r = rng.choice([1, 1, -1])
    return [(x + math.cos(-r * 6.283185307179586 * k / n) * rng.uniform(0.3, 1), y + math.sin(-r * 6.283185307179586 * k / n))
            for k in range(n)]


def outline(rng, empty=True):
    n = rng.choice([3, 3, 4, 5, 9, 40] + [0, 1, 2] * empty)
    lines = [[["n", x], ["n", y]] for x, y in round_corners(rng, n)]
    k = rng.random()
    for l in lines:
        if k < 0.4 and rng.random() < 0.5 or k > 0.8:
            l.append(["n", float(rng.randint(0, 1))])
            if rng.random() < 0.1:
                l.append(["w", "#"])
    k = rng.random()
    if k < 0.4 and lines:
        l = rng.choice(lines)
        m = rng.random()
        if m < 0.3:
            del l[rng.randrange(2):]
        elif m < 0.5:
            l.insert(rng.randrange(2), ["w", rng.choice(WORDS)])
        elif m < 0.75:
            lines.insert(rng.randint(0, len(lines)), [])
        elif m < 0.85:
            lines.insert(0, [["w", "#x"], ["w", "y"]])
        else:
            l[2:] = [rng.choice([["n", 2.0], ["n", 0.5], ["w", "slip"], ["n", -1.0]])]
    return lines


class Files:
    def __init__(self, c):
        self.c, self.n, self.rng = c, 0, c.rng

    def path(self):
        self.n += 1
        return self.c.scratch + "/f%d" % self.n

    def bad(self):
        p = self.path()
        if self.rng.random() < 0.5:
            os.mkdir(p)
            return p, {"kind": "folder"}
        return p, {"kind": "missing"}

    def lines(self, l, slips=False):
        p = self.path()
        if slips:
            l2 = [[(["w", "%d" % w[1]] if k == 2 and w[0] == "n" and w[1] == int(w[1]) else w) for k, w in enumerate(ln)] for ln in l]
        else:
            l2 = l
        with open(p, "w", newline="") as f:
            f.write(text(self.rng, l2))
        return p, {"kind": "lines", "lines": told(l)}

    def bytes(self):
        p = self.path()
        v = [value(self.rng) for _ in range(self.rng.choice([0, 1, 2, 2, 5, 3, 6, 6, 8, 30, 90, 3000 if self.n % 9 == 0 else 5, 3 * 1365 + 1]))]
        rest = self.rng.choice([0, 0, 1, 7, 7])
        with open(p, "wb") as f:
            f.write(struct.pack("<%dd" % len(v), *v) + b"\x01" * rest)
        return p, {"kind": "bytes", "values": [tok(x) for x in v], "rest": rest}


DERIVED = ("area", "cofm", "moi_cofm", "moi_axis")


def derived_of(b):
    return {k: b["attr"][k] for k in DERIVED}


def corners_of(l):
    try:
        return [(w[0][1], w[1][1]) for w in l if w[0][0] == "n" and w[1][0] == "n"]
    except IndexError:
        return []


def twin(s, pts, holder=None, dpos=None):
    """a body with the outline, made by the driver"""
    w = ["body", len(pts)]
    for x, y in pts:
        w += [x, y, 0]
    s.do("new", 0)
    s.do(*w)
    if holder:
        s.do("bset", 0, "holder", *holder)
        s.do("bset", 0, "dpos", *dpos)
    return s.ask("whole")


def story(c, files, s, plan):
    """one flow and its imports, as commands; plan takes what is needed to make the events"""
    rng = c.rng
    ops = []
    nb = 0
    for _ in range(rng.randint(3, 8)):
        op = rng.choice(["text", "text", "binary", "outline", "outline", "reload", "open"])
        if op == "reload" and not nb:
            op = "outline"
        bad = rng.random() < 0.15
        e = {"op": op}
        if op in ("text", "binary"):
            e["list"] = rng.choice(list(LISTS))
            p, e["file"] = files.bad() if bad else files.bytes() if op == "binary" else files.lines(listing(rng))
            cmd = ["loadlist", e["list"], op, p]
        elif op in ("outline", "reload"):
            l = outline(rng)
            p, e["file"] = files.bad() if bad else files.lines(l, slips=True)
            e["pts"] = [] if bad else corners_of(l)
            # the number of bodies there will be, as the specification has it
            good = not bad and all(len(x) >= 2 and x[0][0] == "n" and x[1][0] == "n" for x in l)
            if op == "reload":
                e["body"] = rng.randrange(nb)
                cmd = ["reload", e["body"], p]
            else:
                nb += good
                cmd = ["loadbody", p]
        else:
            p, e["file"] = files.bad()
            cmd = ["load", p]
        ops.append((e, cmd))
    twins = {}
    for k, (e, _c) in enumerate(ops):
        if "pts" in e:
            twins[k] = twin(s, e.pop("pts"))
    s.do("new", 0)
    if rng.random() < 0.5:      # what is there before
        for l in LISTS.values():
            for _ in range(rng.choice([0, 1, 3])):
                s.do(l, value(rng), value(rng), value(rng), 0, 0)
        s.do("set", "re", rng.choice([1, 100, 0.5]))
    first = s.ask("whole")
    plan.append(("set", None, None, first, None))
    for k, (e, cmd) in enumerate(ops):
        r = s.ask(*cmd) if cmd[0] != "load" else s.ask("load", cmd[1])
        plan.append(("op", e, r, s.ask("whole"), twins.get(k)))


def old(c, files, s, plan):
    """a flow as version 1.3 saved it"""
    rng = c.rng
    v3 = lambda: [value(rng), value(rng), value(rng)]
    t3 = lambda v: ",".join("%s=%s" % w for w in zip(("o", "x", "y"), (tok(v[2]), tok(v[0]), tok(v[1]))))
    script = lambda t: struct.pack("<i", len(t)) + t.encode()
    exprs = ["", "1", "sin(t)", "t<1 and 2 or 3*t", "0.1+0.2"]
    secs = []
    if rng.random() < 0.9:
        cap = rng.choice(["", "flow", "two words", "c" * 63])
        times = [(rng.randint(-99, 99), rng.choice([1, 3, 1000])) for _ in range(5)]
        a = {n: (value(rng)) for n in ("re", "pr", "inf_g", "finish")}
        mk, gr = (value(rng), value(rng)), (value(rng), value(rng))
        vx, vy = rng.choice(exprs), rng.choice(exprs)
        blob = b"v: 1.3  " + cap.encode().ljust(64, b"\0") + b"".join(struct.pack("<iI", *t) for t in times)
        blob += struct.pack("<4d", a["re"], a["pr"], *mk) + script(vx) + script(vy)
        blob += struct.pack("<4d", a["inf_g"], *gr, a["finish"]) + struct.pack("<q", 1234567890)
        attr = {n: tok(x) for n, x in a.items()}
        attr.update(caption=cap, inf_vx=vx, inf_vy=vy, marker="x=%s,y=%s" % tuple(map(tok, mk)), gravity="x=%s,y=%s" % tuple(map(tok, gr)))
        for n, t in zip(("time", "dt", "dt_save", "dt_streak", "dt_profile"), times):
            attr[n] = "timescale=%d,value=%d" % (t[1], t[0])
        secs.append((("Header  ", blob), {"name": "Header", "attr": attr}, None))
    for name, short in (("Vortexes", "Vortexes"), ("Heat    ", "Heat"), ("StrkSrc ", "StrkSrc"), ("Streak  ", "Streak")):
        for _ in range(rng.choice([0, 1, 1, 2])):
            rows = [v3() for _ in range(rng.choice([0, 1, 4]))]
            blob = struct.pack("<q", len(rows)) + b"".join(struct.pack("<3d", *r) for r in rows)
            secs.append(((name, blob), {"name": short, "rows": [list(map(tok, r)) for r in rows]}, None))
    rng.shuffle(secs)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        f = {n: v3() for n in ("holder", "dpos", "speed", "speed_prev", "kspring", "hydro", "fdt_dead", "friction_prev")}
        for n in ("holder", "dpos"):
            f[n] = [rng.uniform(-2, 2) for _ in range(3)]
        ex = {n: rng.choice(exprs) for n in ("speed_x", "speed_y", "speed_o")}
        den = value(rng)
        p3 = lambda n: struct.pack("<3d", *f[n])
        blob = p3("holder") + p3("dpos") + b"".join(script(ex[n]) for n in ("speed_x", "speed_y", "speed_o"))
        blob += p3("speed") + p3("speed_prev") + p3("kspring") + struct.pack("<d", den) + p3("hydro") + p3("fdt_dead") + p3("friction_prev")
        attr = {n: t3(v) for n, v in f.items()}
        attr.update(ex)
        attr["density"] = tok(den)
        pts = round_corners(rng, rng.choice([3, 4, 7]))
        segs, raw = [], struct.pack("<q", len(pts))
        bc, hc = rng.choice("nl"), rng.choice("nitw")
        heat = rng.choice([0, 0.5, 3, -7.25])
        for k, (x, y) in enumerate(pts):
            g, gsum = value(rng), value(rng)
            b = bc if rng.random() < 0.6 else rng.choice("nl")
            if k == 0 and rng.random() < 0.6:       # the segment with a condition of its own
                b = rng.choice("siz")
            segs.append([tok(x), tok(y), tok(g), tok(gsum), tok(heat), b, hc])
            raw += struct.pack("<3d2q2d", x, y, g, ord(b), ord(hc), heat, gsum)
        secs.append((("BData   ", blob), {"name": "BData", "attr": attr, "derived": {}}, twin(s, pts, f["holder"], f["dpos"])))
        secs.append((("Body    ", raw), {"name": "Body", "segs": segs}, None))
    # the catalogue: 64 places, used or not
    at = sorted(rng.sample(range(64), len(secs)))
    data, cat = b"", [b"\0" * 16] * 64
    for k, ((name, blob), _d, _t) in zip(at, secs):
        data += b"\xaa" * rng.choice([0, 0, 5])
        cat[k] = struct.pack("<q", 1024 + len(data)) + name.encode()
        data += blob
    p = files.path()
    with open(p, "wb") as fh:
        fh.write(b"".join(cat) + data)
    s.do("new", 0)
    s.do("vort", 1, 2, 3, 0, 0)
    s.do("body", 3, 0, 0, 0, 0, 1, 0, 1, 0, 0)
    r = s.ask("load", p)
    plan.append(("old", {"op": "old", "sections": [x[1] for x in secs]}, r, s.ask("whole"),
                 [x[2] for x in secs]))


def events_of(plan, ans):
    """answers -> events; the special segment of old files is not stored"""
    ev = []
    for kind, e, r, w, t in plan:
        st = flow(ans[w])
        if kind == "set":
            ev.append({"op": "set", "s": st})
            continue
        e = dict(e)
        e["s"] = st
        a = ans[r]
        e["refused"] = bool(a.get("refused") or "error" in a) if isinstance(a, dict) else False
        if kind == "old":
            e["sections"] = [dict(x) for x in e["sections"]]
            for x, tw in zip(e["sections"], t):
                if tw is not None:
                    x["derived"] = derived_of(flow(ans[tw])["bodies"][0])
        elif t is not None:
            e["derived"] = derived_of(flow(ans[t])["bodies"][0])
        ev.append(e)
    return ev


LUA = r"""
local out = io.open("answers", "w")
local n = 0
function try(f)
  local ok = pcall(f)
  n = n + 1
  S:save("s" .. n .. ".h5")
  out:write(tostring(ok), "\n") out:flush()
end
"""


def script(c, b, files, k):
    """the same through the program's scripts"""
    rng = c.rng
    d = c.scratch + "/lua%d" % k
    os.mkdir(d)
    lua, evs, s = LUA + "try(function() end)\n", [], Script(b.driver("drv_flow"))
    nb = 0
    twins = []
    for _ in range(rng.randint(5, 12)):
        op = rng.choice(["text", "text", "binary", "outline", "open"])
        bad = rng.random() < 0.25
        e = {"op": op}
        if op in ("text", "binary"):
            e["list"] = rng.choice(["vort", "ink", "ink_source", "source"])
            n = {"vort": "vort_list", "ink": "streak_domain_list", "ink_source": "streak_source_list", "source": "sink_list"}[e["list"]]
            p, e["file"] = files.bad() if bad else files.bytes() if op == "binary" else files.lines(listing(rng))
            lua += "try(function() S.%s:%s(%r) end)\n" % (n, "load" if op == "text" else "load_bin", p)
            tw = None
        elif op == "outline":
            l = outline(rng, empty=False)
            while any(len(x) > 2 and (x[2][0] != "n" or x[2][1] not in (0, 1)) for x in l):
                l = outline(rng, empty=False)
            p, e["file"] = files.bad() if bad else files.lines(l, slips=True)
            lua += "try(function() local b = load_body(%r) S.body_list:insert(b) end)\n" % p
            tw = twin(s, [] if bad else corners_of(l))
        else:
            p, e["file"] = files.bad()
            lua += "try(function() S:load(%r) end)\n" % p
            tw = None
        evs.append(e)
        twins.append(tw)
    with open(d + "/a.lua", "w") as f:
        f.write(lua)
    p = runs.vvflow(b, d, ["a.lua"])
    runs.check_exit(p, "a script that imports files")
    ok = open(d + "/answers").read().split()
    if len(ok) != len(evs) + 1:
        raise Violation("a script with %d imports stopped after %d" % (len(evs), len(ok)), {"script": lua, "stderr": p.stderr[-500:]})
    states = []
    for n in range(len(ok)):
        s.do("new", 0)
        s.do("load", d + "/s%d.h5" % (n + 1))
        states.append(s.ask("whole"))
    ans = s.run("reading flows")
    ev = [{"op": "set", "s": flow(ans[states[0]])}]
    for n, e in enumerate(evs):
        e["s"] = flow(ans[states[n + 1]])
        e["refused"] = ok[n + 1] != "true"
        if twins[n] is not None:
            e["derived"] = derived_of(flow(ans[twins[n]])["bodies"][0])
        ev.append(e)
    return ev


def check(c):
    cfg = "CONSTANTS Width = %d Height = %d Steps = %d\nINIT Init\nNEXT Next\nCONSTRAINT Short\nPROPERTIES Kept BodiesKept AllOrNothing Tables Corners\n"
    c.model("ImportMC", cfg % (2, 2, 4))
    c.model("ImportMC", cfg % (3, c.n(1, 2), c.n(4, 3)))
    b = build(["vvflow"], ["drv_flow"])
    files = Files(c)
    s = Script(b.driver("drv_flow"))
    plan = []
    for _ in range(c.n(60, 1500)):
        story(c, files, s, plan)
    for _ in range(c.n(30, 600)):
        old(c, files, s, plan)
    ev = events_of(plan, s.run("imports"))
    groups, cur = [], []
    for e in ev:
        if e["op"] in ("set", "old") and cur:
            groups.append(cur)
            cur = []
        cur.append(e)
    groups.append(cur)
    for k in range(c.n(12, 150)):
        groups.append(script(c, b, files, k))
    parts = [sum(groups[k::8], []) for k in range(8)]
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        list(pool.map(lambda p: c.expect_valid("ImportTrace", p, "an import"), [p for p in parts if p]))
    c.sample({"imports": len(ev), "first": [e for e in ev if e["op"] == "text"][:1]})
