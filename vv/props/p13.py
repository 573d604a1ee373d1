"""Expressions of time against spec/Eval.tla."""
import os

from vv import runs
from vv.common import BAD, Violation, build, q
from vv.drive import Script

ONE = 65536
CONST = [("sin(pi_2)", 1), ("cos(0)", 1), ("exp(0)", 1), ("log(e)", 1), ("sqrt(16)", 4), ("sqrt2*sqrt2", 2), ("log2e*ln2", 1),
         ("log10e*ln10", 1), ("4*pi_4/pi", 1), ("sqrt1_2*sqrt2", 1), ("abs(-3)", 3), ("step(0)", 1), ("step(-0.001)", 0),
         ("delta(2)", 0), ("nandelta(1)", 0), ("erf(0)", 0), ("tan(0)", 0), ("asin(1)/pi_2", 1), ("acos(-1)/pi", 1),
         ("atan(1)/pi_4", 1), ("sinh(0)", 0), ("cosh(0)", 1), ("tanh(0)", 0), ("7%4", 3), ("2^3", 8), ("erf(10)", 1)]
BAD_TEXT = ["t +", "nil", "x.y", "'a'", "{}", "foo(t)", "1 2", "return", "true", "t t", "return t,", "local a = t", "error('no')",
            "if t then return 1 end end", "\"", ")", "function() end"]


def lit(v):
    """a value in 1/65536 as Lua text"""
    return repr(v / float(ONE)) if v % ONE else str(v // ONE)


class Tree:
    def __init__(self, rng):
        self.rng = rng

    def make(self, depth, fails=0.1, texts=True):
        """tree, text, bound on |value| / ONE for |t| <= 64"""
        r = self.rng
        k = r.random()
        if depth == 0 or k < 0.2:
            k = r.random()
            if k < 0.55:
                return ["t"], "t", 64
            if k < 0.9 or not texts:
                v = r.choice([0, 1, -1, 2, 5, -7]) * ONE + r.choice([0, 0, ONE // 2, 1, -ONE // 4])
                return ["c", v], "(%s)" % lit(v), 9
            s, v = r.choice(CONST)
            return ["text", s, v * ONE], "(%s)" % s, 9
        if k >= 0.7:        # compared with something: only exact values
            texts = False
        a = self.make(depth - 1, fails, texts)
        if k < 0.5:
            b = self.make(depth - 1, fails, texts)
            op = r.choice("+-")
            if a[2] + b[2] > 8000:
                return a
            return [op, a[0], b[0]], "(%s%s%s)" % (a[1], op, b[1]), a[2] + b[2]
        if k < 0.6:
            n = r.choice([2, 3, -1, -4])
            if a[2] * 4 > 8000:
                return a
            return ["*", n, a[0]], "(%d*%s)" % (n, a[1]), a[2] * 4
        if k < 0.7:
            return ["abs", a[0]], "abs(%s)" % a[1], a[2]
        if k < 0.78:
            return ["step", a[0]], "step(%s)" % a[1], 1
        b, x = self.make(depth - 1, fails, texts), self.make(depth - 1, fails, texts)
        if r.random() < fails * 3:
            t = r.choice(["nil", "error('x')", "nothing.x", "{}", "'a'"])
            return ["fails", a[0], b[0], x[0]], "(function() if %s < %s then return %s end return %s end)()" % (a[1], b[1], t, x[1]), x[2]
        y = self.make(depth - 1, fails, texts)
        form = r.choice(["(%s < %s and %s or %s)", "(function() if %s < %s then return %s else return %s end end)()"])
        return ["if", a[0], b[0], x[0], y[0]], form % (a[1], b[1], x[1], y[1]), max(x[2], y[2])

    def expr(self):
        r = self.rng
        k = r.random()
        if k < 0.06:
            return ["empty"], ""
        if k < 0.2:
            return ["bad"], r.choice(BAD_TEXT)
        x, s, _ = self.make(r.choice([0, 1, 1, 2, 3]))
        if s[0] == "(" and s[-1] == ")" and "function" not in s and r.random() < 0.5:
            # without the outer brackets, when they pair
            d, ok = 0, True
            for n, ch in enumerate(s):
                d += (ch == "(") - (ch == ")")
                ok = ok and (d > 0 or n == len(s) - 1)
            s = s[1:-1] if ok else s
        k = r.random()
        if k < 0.15:
            s = "return " + s
        elif k < 0.3:
            s = "local a = %s\nreturn a" % s
        elif k < 0.36:
            s = "  " + s + " -- note"
        return x, s


def times(rng):
    base = rng.choice([0, 0, 1, 2, 3, -1, 7, 50, -64, 64]) * ONE
    return max(-64 * ONE, min(64 * ONE, base + rng.choice([0, 0, 0, 0, 1, -1, ONE // 2, ONE // 8])))


def number(v):
    return q(v, ONE, 2e-9)


def class_events(c, s, n):
    rng = c.rng
    slots = 5
    tree = Tree(rng)
    evs, hold = [{"op": "start", "n": slots}], [None]
    recent = [0]
    cur = {k: "" for k in range(1, slots + 1)}
    for _ in range(n):
        k = rng.randint(1, slots)
        op = rng.choice(["eval"] * 9 + ["set"] * 3 + ["copy", "copy", "clone", "text", "many"])
        if op == "set":
            x, t = tree.expr()
            made = rng.random() < 0.15
            hold.append(s.ask("make" if made else "set", k, "-" + t.encode().hex() + "-"))
            evs.append({"op": "set", "k": k, "x": x, "text": t})
        elif op in ("copy", "clone"):
            f = rng.randint(1, slots)
            if op == "clone" and f == k:
                continue
            hold.append(s.ask(op, k, f))
            evs.append({"op": "copy", "k": k, "from": f})
        elif op == "text":
            hold.append(s.ask("text", k))
            evs.append({"op": "text", "k": k})
        elif op == "many":
            ts = [times(rng) for _ in range(rng.randint(2, 20))]
            ts += [rng.choice(ts) for _ in range(len(ts))]
            hold.append(s.ask("many", k, len(ts), *[repr(t / float(ONE)) for t in ts]))
            evs.append({"op": "many", "k": k, "ts": ts})
        else:
            t = rng.choice(recent[-3:]) if rng.random() < 0.5 else times(rng)
            recent.append(t)
            hold.append(s.ask("eval", k, repr(t / float(ONE))))
            evs.append({"op": "eval", "k": k, "t": t})
    return evs, hold


SCRIPT = r'''
B = gen_cylinder{R=1, N=8}
S.body_list:insert(B)
local slots = {{S,'inf_vx'}, {S,'inf_vy'}, {B,'holder_vx'}, {B,'holder_vo'}, {B,'holder_mo'}}
local function out(s) io.write(s, '\n') io.flush() end
local function unhex(h) return (h:gsub('..', function(x) return string.char(tonumber(x, 16)) end)) end
local function hex(s) return (s:gsub('.', function(c) return string.format('%02x', c:byte()) end)) end
function set(k, h) out(tostring((pcall(function() slots[k][1][slots[k][2]] = unhex(h) end)))) end
function copy(k, f) out(tostring((pcall(function() slots[k][1][slots[k][2]] = slots[f][1][slots[f][2]] end)))) end
function text(k) out('"' .. hex(tostring(slots[k][1][slots[k][2]])) .. '"') end
function ev(k, t)
  local ok, v = pcall(function() return slots[k][1][slots[k][2]]:eval(t) end)
  out(ok and string.format('[%.17g]', v) or '[]')
end
'''


def lua_events(c, b, n, idx):
    """the same through the scripting interface"""
    import json

    class Fake:
        def __init__(self):
            self.lines = []

        def ask(self, op, k, *a):
            if op in ("set", "make"):
                self.lines.append("set(%d,'%s')" % (k, a[0][1:-1]))
            elif op in ("copy", "clone"):
                self.lines.append("copy(%d,%d)" % (k, a[0]))
            elif op == "text":
                self.lines.append("text(%d)" % k)
            elif op == "many":
                self.lines.append("text(%d)" % k)
            else:
                self.lines.append("ev(%d,%s)" % (k, a[0]))
            return len(self.lines) - 1
    f = Fake()
    evs, hold = class_events(c, f, n)
    d = "%s/l%d" % (c.scratch, idx)
    os.makedirs(d)
    with open(d + "/a.lua", "w") as o:
        o.write(SCRIPT + "\n".join(f.lines) + "\n")
    p = runs.vvflow(b, d, ["a.lua"])
    out = p.stdout.split("\n")[:-1]
    if p.returncode or len(out) != len(f.lines):
        at = f.lines[len(out)] if len(out) < len(f.lines) else "?"
        raise Violation("a script ended with exit status %d at %s: %s" % (p.returncode, at, p.stderr[-200:]),
                        {"script": SCRIPT + "\n".join(f.lines[:len(out) + 1])})
    for e in evs:
        if e["op"] == "many":
            e["op"] = "text"
    return finish(evs, hold, [json.loads(l) for l in out])


def finish(evs, hold, ans):
    for e, h in zip(evs, hold):
        if h is None:
            continue
        a = ans[h]
        if e["op"] == "set":
            e["ok"] = a
        elif e["op"] == "text":
            e["got"] = bytes.fromhex(a).decode()
        elif e["op"] == "eval":
            e["got"] = [number(float(v)) for v in a]
        elif e["op"] == "many":
            e["got"] = [[number(float(v)) for v in w] for w in a]
    return evs


def check(c):
    b = build(["vvflow"], ["drv_eval"])
    c.model("EvalMC", "CONSTANTS Times = {0, 1, 2, 5}\nINIT Init\nNEXT Next\nINVARIANTS Right InForce\n")
    traces = []
    for k in range(c.n(6, 60)):
        s = Script(b.driver("drv_eval"))
        evs, hold = class_events(c, s, c.n(600, 1500))
        traces.append(finish(evs, hold, s.run("evaluating expressions", env={"OMP_NUM_THREADS": "4"})))
    for k in range(c.n(4, 20)):
        traces.append(lua_events(c, b, c.n(400, 1000), k))
    c.notes["operations"] = sum(len(t) for t in traces)
    c.notes["evaluations"] = sum(1 for t in traces for e in t if e["op"] == "eval") + sum(len(e["ts"]) for t in traces for e in t if e["op"] == "many")
    c.notes["refused"] = sum(1 for t in traces for e in t if e.get("ok") is False)
    c.sample(traces[0][1:4])
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        list(pool.map(lambda ev: c.expect_valid("EvalTrace", ev, "what an expression evaluated to"), traces))
