"""Saving and loading (libvvhd TSpace*.cpp) against spec/Store.tla."""
import concurrent.futures
import json
import math
import os

from vv.common import Violation, build
from vv.drive import Script
from vv.runs import VOLATILE, dump, num

V3 = {"holder", "dpos", "speed", "speed_prev", "kspring", "damping", "cmin", "cmax", "hydro", "fholder",
      "friction_prev", "fdt_dead"}


def tok(x):
    """a number, without loss"""
    x = float(x)
    s = repr(x)
    return s[:-2] if s.endswith(".0") else s


def unhex(h):
    return bytes.fromhex(h).decode()


def flow(w):
    """what the driver says about the flow -> a flow of the specification"""
    def attrs(a):
        r = {}
        for k, v in a.items():
            if k == "end":
                continue
            if isinstance(v, str):
                r[k] = unhex(v)
            elif not isinstance(v, list):
                r[k] = tok(v)
            elif k in V3:
                r[k] = ",".join("%s=%s" % w for w in zip(("o", "x", "y"), (tok(v[2]), tok(v[0]), tok(v[1]))))
            elif k in ("marker", "gravity", "cofm"):
                r[k] = "x=%s,y=%s" % (tok(v[0]), tok(v[1]))
            elif len(v) == 2:
                r[k] = "timescale=%s,value=%s" % (tok(v[1]), tok(v[0]))
            else:
                r[k] = tok(v[0])
        return r
    s = {"attr": attrs(w["attr"])}
    for l in ("vort", "heat", "ink", "ink_source", "source"):
        s[l] = [[tok(x) for x in p] for p in w[l]]
    s["bodies"] = [{"attr": attrs(b["attr"]), "root": b["root"],
                    "segs": [[tok(x) for x in p] for p in b["segs"]]} for b in w["bodies"]]
    return s


def file(j):
    """what the independent reader found -> a file of the specification"""
    def val(v):
        if isinstance(v, dict):
            return ",".join("%s=%s" % (k, tok(num(v[k]))) for k in sorted(v))
        return v

    def attrs(a, texts):
        r = {}
        for k, v in a.items():
            if k in VOLATILE and k != "time_to_finish":
                continue
            r[k] = v if k in texts else val(v) if isinstance(v, dict) else tok(num(v))
        return r
    f = {"attr": attrs(j["@"], ("caption", "inf_speed_x", "inf_speed_y")), "data": {}}
    for k, d in j.items():
        if k == "@" or "data" not in d:
            continue
        a = dict(d.get("@", {}))
        slip = a.pop("slip", [])
        f["data"][k] = {
            "rows": [[tok(num(x)) for x in (r if isinstance(r, list) else [r])] for r in d["data"]],
            "attr": attrs(a, ("label", "root_body", "speed_x", "speed_y", "speed_o", "force_o")),
            "slip": [tok(x) for x in slip],
        }
    return f


TEXTS = ["", "a", "two words", "run%d_%s", "q'\"\\", "line\nbreak", "\u0432\u0438\u0445\u0440\u044c", "body00", "x" * 70, "0", " "]
EXPRS = ["", "1", "sin(t)", "t<1 and 2 or 3*t", "return t*2", "0.1+0.2", " 5 ", "-1e-300", "if t>0 then return 1 else return 0 end",
         "cos(2*t)+sin(3*t)*exp(-t)-0.12345678901234567890123456789*t"]


class World:
    """random changes of one flow, written as commands of the driver"""

    def __init__(self, c, s):
        self.c, self.s, self.rng = c, s, c.rng
        self.n = []         # segments of the bodies
        self.heat = []      # their heat constants

    def number(self):
        r = self.rng
        return r.choice([0.0, -0.0, 1.0, -1.0, 0.1, 1 / 3., r.uniform(-10, 10), r.gauss(0, 1) * 10 ** r.randint(-12, 12),
                         1e300, 5e-324, float(r.randint(-5, 5))])

    def put(self, *a):
        self.s.do(*a)

    def text(self, s):
        return "-" + s.encode().hex() + "-"

    def body(self):
        r = self.rng
        n = r.choice([3, 3, 4, 5, 8])
        slip = r.choice([[0] * n, [1] * n, [r.randint(0, 1) for _ in range(n)], [1] * (n - 1) + [0], [0] + [1] * (n - 1)])
        x, y = self.r3(), self.r3()
        w = ["body", n]
        for k in range(n):
            a = -6.283185307179586 * k / n
            w += [x + math.cos(a) * r.uniform(0.3, 1), y + math.sin(a), slip[k]]
        self.put(*w)
        self.n.append(n)
        self.heat.append([0.0] * n)
        # a copy made by the real operations has numbers in all its fields
        for f in ("friction_prev",):
            self.put("bset", len(self.n) - 1, f, *[self.number() for _ in range(3)])

    def r3(self):
        return self.rng.uniform(-3, 3)

    def change(self):
        r = self.rng
        kind = r.choice(["space", "space", "points", "points", "bodies", "bodies", "body", "body", "body", "seg", "seg", "clear"])
        if kind in ("body", "seg") and not self.n:
            kind = "bodies"
        if kind == "space":
            f = r.choice(["re", "pr", "inf_g", "finish", "marker", "gravity", "time", "dt", "dt_save", "dt_streak", "dt_profile",
                          "caption", "caption", "inf_vx_text", "inf_vy_text"])
            if f in ("re", "pr", "inf_g", "finish"):
                self.put("set", f, r.choice([self.number(), self.number(), float("inf")]))
            elif f in ("marker", "gravity"):
                self.put("set", f, self.number(), self.number())
            elif f == "caption":
                self.put("set", f, self.text(r.choice(TEXTS)))
            elif f.startswith("inf_v"):
                self.put("set", f, self.text(r.choice(EXPRS)))
            else:
                self.put("set", f, r.choice([0, 1, -1, 7, -123456, 2147483647, r.randint(-99, 99)]), r.choice([1, 3, 10, 1000, 4294967295]))
        elif kind == "points":
            l = r.choice(["vort", "heat", "streak", "src", "ssrc"])
            for _ in range(r.choice([1, 1, 3, 20])):
                self.put(l, self.number(), self.number(), self.number(), 0, 0)
        elif kind == "bodies":
            if len(self.n) > 5 or (self.n and r.random() < 0.25):
                k = r.randrange(len(self.n))
                # nothing may be joined to it
                for j in range(len(self.n)):
                    self.put("bset", j, "root", -1)
                self.put("erase", k)
                del self.n[k], self.heat[k]
            else:
                for _ in range(r.choice([1, 1, 2])):
                    self.body()
        elif kind == "body":
            k = r.randrange(len(self.n))
            f = r.choice(["label", "root", "root", "holder", "dpos", "speed", "speed_prev", "kspring", "damping", "limits", "hydro",
                          "fholder", "friction_prev", "fdt_dead", "g_dead", "density", "bounce", "special", "kutta", "heat",
                          "vx_text", "vy_text", "vo_text", "fo_text"])
            three = lambda g: [g() for _ in range(3)]
            if f == "label":
                self.put("bset", k, f, self.text(r.choice(TEXTS)))
            elif f == "root":
                o = [j for j in range(len(self.n)) if j != k]
                self.put("bset", k, f, r.choice(o + [-1]) if o else -1)
            elif f == "kspring":
                self.put("bset", k, f, *three(lambda: r.choice([float("inf"), 0.0, abs(self.number())])))
            elif f == "limits":
                lo = three(self.number)
                self.put("bset", k, "cmin", *[float("-inf") if r.random() < 0.2 else x for x in lo])
                self.put("bset", k, "cmax", *[float("inf") if r.random() < 0.2 else x + abs(x) + 1 for x in lo])
            elif f == "special":
                self.put("bset", k, f, r.randint(0, self.n[k] - 1))
            elif f == "kutta":
                self.put("bset", k, f, r.randint(0, 1))
            elif f == "heat":
                self.put("bset", k, f, r.randint(0, 3))
            elif f.endswith("_text"):
                self.put("bset", k, f, self.text(r.choice(EXPRS)))
            elif f in ("g_dead", "density", "bounce"):
                self.put("bset", k, f, self.number())
            else:
                self.put("bset", k, f, *three(self.number))
        elif kind == "seg":
            k = r.randrange(len(self.n))
            f = r.choice(["g", "gsum", "fric", "fric", "heat_const", "one", "slip"])
            if f in ("heat_const", "one"):
                v = r.choice([0.0, 0.5, 3.0]) if f == "heat_const" else 7.25
                many = range(self.n[k]) if f == "heat_const" else [r.randrange(self.n[k])] if r.random() < 0.2 else []
                for i in many:
                    self.put("seg", k, i, "heat_const", v)
                    self.heat[k][i] = v
            else:
                for i in range(self.n[k]):
                    if r.random() < 0.7:
                        self.put("seg", k, i, f, r.randint(0, 1) if f == "slip" else self.number() + 0.0)
        else:
            l = r.choice(["vort", "heat", "streak", "src", "ssrc", "body"])
            if l == "body":
                self.n, self.heat = [], []
            self.put("clear", l)


def check(c):
    b = build(["vvhd"], ["drv_flow"])
    c.model("StoreMC", "CONSTANTS Files = %s Bodies = %d Steps = %d\nINIT Init\nNEXT Next\n"
            "INVARIANTS RoundTrip Again\nPROPERTY LoadsWhatWasSaved\nCONSTRAINT Short\n"
            % (c.n('{"a"}', '{"a", "b"}'), c.n(1, 2), c.n(8, 8)))
    traces = []
    every = c.n(20, 60)
    s = Script(b.driver("drv_flow"))
    hist = []
    for h in range(c.n(80, 900)):
        d = c.scratch + "/h%d" % h
        os.makedirs(d)
        w = World(c, s)
        s.do("new", 0)
        ops = [("new", "", s.ask("whole"), None, None)]
        sizes = {}          # what the files hold, as far as it matters for going on
        n = c.rng.choice([6, 10, 16])
        if h % every == 0:  # more bodies than two digits can number
            for _ in range(c.rng.choice([11, 99, 101, 112, 130])):
                w.body()
            for _ in range(12):
                j = c.rng.randrange(len(w.n))
                s.do("bset", j, "root", c.rng.choice([k for k in range(len(w.n)) if k != j]))
            n = 2
        for step in range(n):
            for _ in range(c.rng.choice([0, 1, 3, 8])):
                w.change()
            ops.append(("set", "", s.ask("whole"), None, None))
            for _ in range(c.rng.choice([1, 1, 2, 3])):
                f = c.rng.choice("ab")
                path = "%s/%s.h5" % (d, f)
                if f not in sizes or c.rng.random() < 0.5:
                    copy = "%s/%s%d.h5" % (d, f, len(ops))
                    r = s.ask("save", path)
                    if all(len(set(x)) == 1 for x in w.heat):
                        sizes[f] = [list(x) for x in w.heat]
                        s.do("copy", path, copy)
                    ops.append(("save", f, s.ask("whole"), r, copy))
                else:
                    r = s.ask("load", path)
                    w.heat = [list(x) for x in sizes[f]]
                    w.n = [len(x) for x in w.heat]
                    ops.append(("load", f, s.ask("whole"), r, None))
        hist.append((d, ops))
    out = s.raw("saving and loading flows")
    answer = lambda k: out[s.want[k]]
    for d, ops in hist:
        events = []
        for op, f, k, r, copy in ops:
            e = {"op": op, "f": f, "s": flow(json.loads(answer(k)))}
            if r is not None and answer(r) != "ok":
                e["op"] += " refused"
            elif op == "save":
                j = dump(b, copy) if os.path.exists(copy) else None
                if j is None:
                    raise Violation("a saved flow can not be read", {"commands": s.cmds[:s.want[r]][-40:]})
                e["file"] = file(j)
            c.notes[e["op"].replace(" ", "_")] = c.notes.get(e["op"].replace(" ", "_"), 0) + 1
            events.append(e)
        traces.append(events)
        c.notes["bodies_most"] = max(c.notes.get("bodies_most", 0), max(len(e["s"]["bodies"]) for e in events))
    c.sample({"ops": [e["op"] for e in traces[1]]})
    # every history starts with a new space
    parts = [[] for _ in range(8)]
    for k, t in enumerate(traces):
        parts[k % 8] += t
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        list(pool.map(lambda p: c.expect_valid("StoreTrace", p, "a saved or loaded flow"), [p for p in parts if p]))
