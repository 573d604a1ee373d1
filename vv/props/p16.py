"""Scripts on the space, bodies and lists against spec/Scripting.tla."""
import json

from vv import runs
from vv.common import BAD, MachineryError, Violation, build, q

VEC3 = ["holder_pos", "delta_pos", "speed", "collision_min", "collision_max", "spring_const", "spring_damping"]
KIND = {
    "S": {"caption": "string", "re": "number", "finish": "number", "inf_g": "number", "inf_vx": "eval", "inf_vy": "eval",
          "gravity": "vec", "time": "time", "dt": "time", "dt_save": "time", "dt_streak": "time", "dt_profile": "time",
          "body_list": "bodies", "vort_list": "list", "sink_list": "list", "streak_source_list": "list",
          "streak_domain_list": "list", "save": "method", "load": "method"},
    "B": dict([(v, "vec3") for v in VEC3] + [("label", "string"), ("density", "number"), ("bounce", "number"),
              ("special_segment", "integer"), ("slip", "bool"), ("root", "root"), ("move_r", "method"), ("get_slen", "method")]
              + [(v, "eval") for v in ("holder_vx", "holder_vy", "holder_vo", "holder_mo")]),
    "O": {"r": "vec", "g": "number", "v": "vec", "tostring": "method"},
}
LISTS = ["vort_list", "sink_list", "streak_source_list", "streak_domain_list"]
PRELUDE = r'''
local MT = {}
B = {}
local function hex(s) return (s:gsub('.', function(c) return string.format('%02x', c:byte()) end)) end
local function num(x) return string.format('%.17g', x):gsub('-?nan', 'NaN'):gsub('inf', 'Infinity') .. '' end
function enc(v)
  local t = type(v)
  if t == 'number' then return '["n",' .. num(v) .. ']' end
  if t == 'string' then return '["s","' .. hex(v) .. '"]' end
  if t == 'boolean' then return '["b",' .. tostring(v) .. ']' end
  if t == 'userdata' then
    local m = getmetatable(v)
    if m == MT.vec then local a = v:totable() return '["vec",[' .. num(a[1]) .. ',' .. num(a[2]) .. ']]' end
    if m == MT.vec3 then local a = v:totable() return '["vec3",[' .. num(a[1]) .. ',' .. num(a[2]) .. ',' .. num(a[3]) .. ']]' end
    if m == MT.eval then return '["e","' .. hex(tostring(v)) .. '"]' end
    if m == MT.body then return '["body",' .. (#v - 10) .. ']' end
  end
  return '["' .. t .. '"]'
end
local function part(o) return '[' .. num(o.r.x) .. ',' .. num(o.r.y) .. ',' .. num(o.g) .. ',' .. num(o.v.x) .. ',' .. num(o.v.y) .. ']' end
function put(s) io.write(s, '\n') io.flush() end
function get(f) put(enc(f())) end
function try(f, after) local ok = pcall(f) put('{"ok":' .. tostring(ok) .. (after and ',"len":' .. #after or '') .. '}') end
function all(o, paths)
  local r = {}
  for _, p in ipairs(paths) do
    local v = o
    for w in p:gmatch('[^.]+') do v = v[w] end
    r[#r + 1] = '"' .. p .. '":' .. enc(v)
  end
  put('{' .. table.concat(r, ',') .. '}')
end
function bodies()
  local r = {}
  for k, b in ipairs(S.body_list) do if k ~= #r + 1 then error('order') end r[k] = #b - 10 end
  put('{"got":[' .. table.concat(r, ',') .. '],"len":' .. #S.body_list .. '}')
end
function itemb(i) local b = S.body_list[i] put(b and tostring(#b - 10) or '0') end
function list(l, how)
  local r = {}
  if how == 1 then for k, o in ipairs(l:totable()) do r[k] = part(o) end
  elseif how == 2 then for k, o in ipairs(l) do if k ~= #r + 1 then error('order') end r[k] = part(o) end
  else for k = 1, #l do r[k] = part(l[k]) end end
  put('{"got":[' .. table.concat(r, ',') .. '],"len":' .. #l .. '}')
end
function item(l, i) local o = l[i] put(o and part(o) or '[]') end
function new(k) B[k] = gen_cylinder{R=1, N=10 + k} end
function drop(k) B[k] = nil collectgarbage() collectgarbage() put('1') end
do
  local b = gen_cylinder{R=1, N=10}
  MT.vec, MT.vec3, MT.eval, MT.body = getmetatable(S.gravity), getmetatable(b.speed), getmetatable(S.inf_vx), getmetatable(b)
end
'''


def leaves(cls):
    r = []
    for k, v in KIND[cls].items():
        if v == "vec":
            r += [k + ".x", k + ".y"]
        elif v == "vec3":
            r += [k + ".r.x", k + ".r.y", k + ".o"]
        elif v not in ("bodies", "list", "method"):
            r.append(k)
    return r


def text(h):
    return bytes.fromhex(h).decode("utf-8", "replace")


def val(v, path):
    """what Lua showed, as the specification has it"""
    t = v[0]
    if t in ("s", "e"):
        return [t, text(v[1])]
    if t in ("vec", "vec3"):
        p = path if isinstance(path, list) else path.split(".")
        names = [p + ["x"], p + ["y"]] if t == "vec" else [p + ["r", "x"], p + ["r", "y"], p + ["o"]]
        return [t, [val(["n", x], n) for x, n in zip(v[1], names)]]
    if t == "n":
        x = float(v[1])
        if x != x or abs(x) == float("inf"):
            return ["rad" if path[-1] == "d" else "n", q(x)]
        last = (path if isinstance(path, list) else path.split("."))[-1]
        n = q(x, 8, 1e-12)
        if n == BAD and last == "o":
            d = q(x * 180 / 3.141592653589793, 8, 1e-11)
            return ["deg", d] if d != BAD else ["n", BAD]
        if last == "d":
            n = q(x, 8, 1e-11)
        if n == BAD and last == "d":
            d = q(x * 3.141592653589793 / 180, 8, 1e-11)
            return ["rad", d] if d != BAD else ["n", BAD]
        return ["n", n]
    return v


GOOD = ["0", "1", "2*t", "sin(t)", "t < 1 and 0 or 1", "return t+1", "local a=t return a", "-3", "1/2", "pi"]
WRONG = ["t +", "x", "nil", "'a'", "return", "foo(1)", "{}", "local a=", "true", "1 2"]


class Gen:
    def __init__(self, c):
        self.rng = c.rng
        self.lua = []
        self.plan = []       # event without its outcome, and how to read the outcome
        self.made = 0
        self.held = set()
        self.inlist = []
        self.size = {k: 0 for k in LISTS}

    def emit(self, lua, ev, how):
        self.lua.append(lua)
        self.plan.append((ev, how))

    # -- literals: Lua text and the specification's form
    def num(self):
        n = self.rng.choice([0, 8, 16, -8, 4, 1, 80, 800, -3, 12, 100])
        return repr(n / 8.0) if n % 8 else str(n // 8), {"k": "num", "v": n}

    def string(self):
        r = self.rng
        k = r.random()
        if k < 0.25:
            n = r.choice([0, 8, -16, 4])
            t = repr(n / 8.0) if n % 8 else str(n // 8)
            return "'%s'" % t, {"k": "str", "t": t, "num": n, "expr": True}
        if k < 0.45:
            a, b = r.choice([(1, 2), (3, 8), (-5, 4), (0, 1), (7, 1), (10, 2), (3, 4)])
            t = "%d/%d" % (a, b)
            return "'%s'" % t, {"k": "str", "t": t, "frac": [a, b], "expr": True}
        if k < 0.7:
            t = r.choice(GOOD)
            d = {"k": "str", "t": t, "expr": True}
            if t in ("0", "1", "-3"):
                d["num"] = 8 * int(t)
            if t == "1/2":
                d["frac"] = [1, 2]
            return json.dumps(t), d
        if k < 0.78:
            return "''", {"k": "str", "t": "", "expr": True}
        t = r.choice(WRONG + ["a b c", "_x%d", "1/2x", "1/", "/2", "0x", "1;5"])
        d = {"k": "str", "t": t, "expr": t == "_x%d" and False}
        return json.dumps(t), d

    def scalar(self):
        return self.num() if self.rng.random() < 0.8 else self.string()

    def table(self, n=None):
        n = self.rng.choice([0, 1, 2, 2, 2, 3, 3, 4]) if n is None else n
        parts = [self.scalar() if self.rng.random() < 0.93 else self.rng.choice([("true", {"k": "bool", "v": True}), ("{}", {"k": "table", "v": []})])
                 for _ in range(n)]
        return "{%s}" % ",".join(p[0] for p in parts), {"k": "table", "v": [p[1] for p in parts]}

    def ttable(self):
        a, b = self.rng.choice([(1, 2), (3, 8), (-5, 4), (0, 1), (5, 1), (6, 2), (1, 0), (1, -2), (1.5, 2), (2, 1.5), (2.5, 0.5)])
        return "{%r,%r}" % (a, b), {"k": "table", "v": [{"k": "num", "v": int(8 * a)}, {"k": "num", "v": int(8 * b)}]}

    def ref(self, kind):
        o, lua = self.obj()
        c = {"S": "S", "B": "B", "O": "O"}[o["c"]]
        names = [[n] for n, k in KIND[c].items() if k == kind]
        if kind == "vec":
            names += [[n, "r"] for n, k in KIND[c].items() if k == "vec3"]
        if not names:
            return None
        p = self.rng.choice(names)
        return lua + "." + ".".join(p), {"k": "ref", "o": o, "p": p}

    def body(self):
        if not self.held:
            return None
        k = self.rng.choice(sorted(self.held))
        return "B[%d]" % k, {"k": "body", "id": k}

    def literal(self, kind):
        r = self.rng
        fit = {"number": self.num, "degree": self.num, "integer": lambda: r.choice([self.num(), ("7", {"k": "num", "v": 56}), ("2^40", {"k": "big"})]),
               "string": self.string, "eval": self.string, "bool": lambda: r.choice([("true", {"k": "bool", "v": True}), ("false", {"k": "bool", "v": False})]),
               "root": self.body, "time": lambda: r.choice([self.num(), self.ttable(), self.ttable(), self.string()]),
               "vec": lambda: r.choice([self.table(2), self.ref("vec")]), "vec3": lambda: r.choice([self.table(3), self.ref("vec3")])}
        x = None
        if r.random() < 0.75 and kind in fit:
            x = fit[kind]()
        if x is None:
            x = r.choice([self.num, self.string, self.table, self.ttable, self.body, lambda: ("nil", {"k": "nil"}),
                          lambda: ("true", {"k": "bool", "v": True}), lambda: ("print", {"k": "fn"}),
                          lambda: self.ref(r.choice(["vec", "vec3", "eval"]))])() or ("nil", {"k": "nil"})
        if kind == "number" and x[1]["k"] == "big":
            return self.num()
        return x

    # -- objects and paths
    def obj(self):
        r = self.rng
        k = r.random()
        if k < 0.55 and self.held:
            b = r.choice(sorted(self.held))
            return {"c": "B", "id": b}, "B[%d]" % b
        full = [l for l in LISTS if self.size[l]]
        if k < 0.75 and full:
            l = r.choice(full)
            n = r.randint(1, self.size[l])
            return {"c": "O", "list": l, "i": n}, "S.%s[%d]" % (l, n)
        return {"c": "S"}, "S"

    def path(self, o):
        r = self.rng
        c = o["c"]
        if r.random() < 0.04:
            return [r.choice(["foo", "Re", "x", "size", "r2"])], "none"
        n = r.choice(sorted(KIND[c]))
        k = KIND[c][n]
        p = [n]
        if k == "vec3" and r.random() < 0.7:
            p.append(r.choice(["r", "o", "o", "d", "foo", "totable"]))
            k = {"r": "vec", "o": "number", "d": "degree"}.get(p[-1], "none")
        if k == "vec" and r.random() < 0.6:
            p.append(r.choice(["x", "y", "x", "y", "z", "abs"]))
            k = {"x": "number", "y": "number"}.get(p[-1], "none")
        return p, k

    def look(self, o, lua):
        cls = o["c"]
        self.emit("all(%s, {%s})" % (lua, ",".join("'%s'" % p for p in leaves(cls))), {"op": "all", "o": o}, "all")

    def new(self):
        self.made += 1
        k = self.made
        self.held.add(k)
        self.emit("new(%d) all(B[%d], {%s})" % (k, k, ",".join("'%s'" % p for p in leaves("B"))), {"op": "new", "id": k}, "allnew")

    def step(self):
        r = self.rng
        op = r.choice(["set"] * 14 + ["get"] * 4 + ["look"] * 2 + ["new", "insert", "insert", "erase", "bodies", "itemb", "drop", "append", "append",
                                                                  "append", "list", "list", "item", "clear", "clearb", "meta"])
        if op == "set":
            o, lua = self.obj()
            p, k = self.path(o)
            x = self.literal(k)
            self.emit("try(function() %s = %s end)" % (lua + "." + ".".join(p), x[0]), {"op": "set", "o": o, "p": p, "x": x[1]}, "ok")
            if r.random() < 0.7:
                self.emit("get(function() return %s end)" % (lua + "." + ".".join(p)), {"op": "get", "o": o, "p": p}, "got")
            if r.random() < 0.15:
                self.look(o, lua)
        elif op == "get":
            o, lua = self.obj()
            p, k = self.path(o)
            self.emit("get(function() return %s end)" % (lua + "." + ".".join(p)), {"op": "get", "o": o, "p": p}, "got")
        elif op == "look":
            self.look(*self.obj())
        elif op == "new" and self.made < 12:
            self.new()
        elif op in ("insert", "erase"):
            x = self.body() if r.random() < 0.9 else self.literal("number")
            if not x:
                return
            self.emit("try(function() S.body_list:%s(%s) end)" % (op, x[0]), {"op": op, "x": x[1]}, "ok")
            if x[1]["k"] == "body":
                k = x[1]["id"]
                if op == "insert" and k not in self.inlist:
                    self.inlist.append(k)
                if op == "erase" and k in self.inlist:
                    self.inlist.remove(k)
            self.emit("bodies()", {"op": "bodies"}, "merge")
        elif op == "clearb" and r.random() < 0.3:
            self.emit("S.body_list:clear() put('1')", {"op": "clearb"}, "")
            self.inlist = []
        elif op == "bodies":
            self.emit("bodies()", {"op": "bodies"}, "merge")
        elif op == "itemb":
            i = r.randint(-1, len(self.inlist) + 1)
            self.emit("itemb(%d)" % i, {"op": "itemb", "i": i}, "raw")
        elif op == "drop" and len(self.held) > 1 and r.random() < 0.5:
            k = r.choice(sorted(self.held))
            self.held.discard(k)
            self.emit("drop(%d)" % k, {"op": "drop", "id": k}, "")
            for h in sorted(self.held):
                self.emit("get(function() return B[%d].root end)" % h, {"op": "get", "o": {"c": "B", "id": h}, "p": ["root"]}, "got")
        elif op == "append":
            l = r.choice(LISTS)
            xs = []
            for _ in range(r.choice([1, 1, 2, 3, 5])):
                k = r.random()
                full = [m for m in LISTS if self.size[m] and m != l]
                if k < 0.12 and full:
                    m = r.choice(full)
                    n = r.randint(1, self.size[m])
                    xs.append(("S.%s[%d]" % (m, n), {"k": "at", "list": m, "i": n}))
                elif k < 0.2:
                    xs.append(self.literal("number"))
                else:
                    xs.append(self.table(3))
            self.emit("try(function() S.%s:append(%s) end, S.%s)" % (l, ",".join(x[0] for x in xs), l),
                      {"op": "append", "list": l, "xs": [x[1] for x in xs]}, "merge")
            self.size[l] = None      # known after the answers; keep a lower bound
            self.size[l] = 0
            bad = False
            self.lua.append("")
            self.fix_size(l, xs)
        elif op == "list":
            l = r.choice(LISTS)
            self.emit("list(S.%s, %d)" % (l, r.randint(1, 3)), {"op": "list", "list": l}, "list")
        elif op == "item":
            l = r.choice(LISTS)
            i = r.randint(-1, self.size[l] + 1)
            self.emit("item(S.%s, %d)" % (l, i), {"op": "item", "list": l, "i": i}, "item")
        elif op == "clear" and r.random() < 0.4:
            l = r.choice(LISTS)
            self.emit("S.%s:clear() put('1')" % l, {"op": "clear", "list": l}, "")
            self.size[l] = 0
        elif op == "meta":
            l = r.choice(["S.%s[1] = {1,2,3}" % r.choice(LISTS), "S.body_list[1] = gen_cylinder{R=1,N=10}", "S.%s = {}" % r.choice(LISTS),
                          "S.%s.x = 1" % r.choice(LISTS), "S.body_list = {}", "S.inf_vx.x = 1", "S.%s:append('x')" % r.choice(LISTS),
                          "S.body_list:insert()", "S.body_list.insert(S.vort_list, 1)", "S.vort_list.append(S.body_list, {1,2,3})"])
            self.emit("try(function() %s end)" % l, {"op": "refused"}, "ok")

    def fix_size(self, l, xs):
        """sizes are only sure when nothing was refused; otherwise start over"""
        self.lua.pop()

        def fine(x):
            if x["k"] == "at":
                return True
            return x["k"] == "table" and len(x["v"]) == 3 and all(y["k"] == "num" or "num" in y for y in x["v"])
        if all(fine(x[1]) for x in xs):
            self.size[l] = self.known[l] + len(xs)
            self.known[l] = self.size[l]
        else:
            self.emit("S.%s:clear() put('1')" % l, {"op": "clear", "list": l}, "")
            self.size[l] = self.known[l] = 0


def scenario(c, n):
    g = Gen(c)
    g.known = {k: 0 for k in LISTS}
    g.emit("all(S, {%s})" % ",".join("'%s'" % p for p in leaves("S")), {"op": "init"}, "allnew")
    g.new()
    g.new()
    for _ in range(n):
        for l in LISTS:
            g.known[l] = g.size[l]
        g.step()
    g.look({"c": "S"}, "S")
    for k in sorted(g.held):
        g.look({"c": "B", "id": k}, "B[%d]" % k)
    for l in LISTS:
        g.emit("list(S.%s, 1)" % l, {"op": "list", "list": l}, "list")
    return g


def check(c):
    b = build(["vvflow"])
    c.model("ScriptingMC", "CONSTANTS Length = %d\nINIT Init\nNEXT Next\nINVARIANTS Typed OnceListed LiveRoots\nPROPERTY Readback\n" % c.n(2, 3))
    total = 0
    runs_ = []
    for k in range(c.n(24, 200)):
        g = scenario(c, c.n(150, 250))
        d = "%s/s%d" % (c.scratch, k)
        import os
        os.makedirs(d)
        with open(d + "/a.lua", "w") as f:
            f.write(PRELUDE + "\n".join(g.lua) + "\n")
        p = runs.vvflow(b, d, ["a.lua"])
        out = p.stdout.split("\n")[:-1]
        if p.returncode or len(out) != len(g.plan):
            raise Violation("a script of valid and refused operations ended with exit status %d after %d of %d operations: %s"
                            % (p.returncode, len(out), len(g.plan), p.stderr[-300:]),
                            {"script": PRELUDE + "\n".join(g.lua[:len(out) + 1])})
        events = []
        for (ev, how), line in zip(g.plan, out):
            e = dict(ev)
            a = json.loads(line)
            if how == "ok":
                e["ok"] = a["ok"]
            elif how == "got":
                e["got"] = val(a, e["p"])
            elif how in ("all", "allnew"):
                m = {p: val(v, p) for p, v in a.items()}
                e["got" if how == "all" else "all"] = m
            elif how == "merge":
                e.update(a)
            elif how == "raw":
                e["got"] = a
            elif how == "list":
                e["got"] = [[q(float(x), 8) for x in w] for w in a["got"]]
                e["len"] = a["len"]
            elif how == "item":
                e["got"] = [q(float(x), 8) for x in a]
            events.append(e)
        runs_.append(events)
        total += len(events)
    c.notes["scripts"] = len(runs_)
    c.notes["operations"] = total
    c.notes["refused"] = sum(1 for r in runs_ for e in r if e.get("ok") is False)
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        list(pool.map(lambda ev: c.expect_valid("ScriptingTrace", ev, "what a script did and saw"), runs_))
    c.sample(runs_[0][3])
