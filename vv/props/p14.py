"""The linear solver against spec/Solver.tla: histories of filling, resizing and
solving the real class; flows solved by one solver all along and by new ones."""
import json
import math
import os
import subprocess
from fractions import Fraction

from vv.common import Violation, build, q, qr
from vv.drive import Script
from vv import dynamics

# pairs of matrices that a 32 bit digest of their bytes does not tell apart
ALIKE = [([[1, 1], [-7, 15]], [[3, 10], [-5, 2]]), ([[1, 1], [-7, 11]], [[3, 10], [-5, 3]]),
         ([[1, 1], [-7, 2]], [[3, 10], [-5, 15]])]


def det(m):
    m = [[Fraction(x) for x in r] for r in m]
    d = Fraction(1)
    for i in range(len(m)):
        p = next((r for r in range(i, len(m)) if m[r][i]), None)
        if p is None:
            return 0
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for r in range(i + 1, len(m)):
            f = m[r][i] / m[i][i]
            if f:
                m[r] = [a - f * b for a, b in zip(m[r], m[i])]
    return d


def times(m, x):
    return [sum(a * b for a, b in zip(r, x)) for r in m]


def matrix(rng, n):
    """an integer matrix that is regular, and not badly so"""
    while True:
        if n > 5:
            # unit triangular factors with small entries
            l = [[1 if i == j else rng.choice([0, 0, 0, 1, -1]) if j < i and i - j < 4 else 0 for j in range(n)] for i in range(n)]
            u = [[rng.choice([1, -1]) if i == j else rng.choice([0, 0, 0, 1, -1]) if j > i and j - i < 4 else 0 for j in range(n)] for i in range(n)]
            m = [[sum(l[i][k] * u[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
            rng.shuffle(m)
            return m
        m = [[rng.choice([0, 0, 1, -1, 2, -3, 5, rng.randint(-9, 9)]) for _ in range(n)] for _ in range(n)]
        if det(m):
            return m


def singular(rng, n):
    """for which elimination meets an exact zero"""
    m = matrix(rng, n)
    k = rng.randrange(n)
    if rng.random() < 0.5:
        m[k] = [0] * n
    else:
        for r in m:
            r[k] = 0
    return m


class Live:
    """a driver that is talked to command by command"""

    def __init__(self, exe):
        e = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e)
        self.last = []

    def do(self, *a):
        cmd = " ".join(str(x) for x in a)
        self.last = (self.last if cmd != "new" else []) + [cmd]
        try:
            self.p.stdin.write(cmd + "\n")
            self.p.stdin.flush()
            r = self.p.stdout.readline()
        except BrokenPipeError:
            r = ""
        if not r:
            raise Violation("the solver ended the program at '%s'" % cmd[:100],
                            {"commands": self.last[-40:], "stderr": self.p.stderr.read()[-500:]})
        return r.strip()

    def end(self):
        self.p.stdin.close()
        self.p.wait()


class History:
    """of one solver"""

    def __init__(self, rng, s, log):
        self.rng, self.s, self.log = rng, s, log
        self.n = 0
        self.pool = {}
        self.filled = False
        self.m = None
        self.bind = None
        s.do("new")
        log.append({"op": "new"})

    def some(self, n):
        p = self.pool.setdefault(n, [])
        if p and self.rng.random() < 0.6:
            return [list(r) for r in self.rng.choice(p)]
        if n == 2 and self.rng.random() < 0.4:
            a, b = self.rng.choice(ALIKE)
            p += [a, b]
            return [list(r) for r in self.rng.choice([a, b])]
        m = matrix(self.rng, n) if self.rng.random() < 0.93 else singular(self.rng, n)
        p.append([list(r) for r in m])
        return m

    def resize(self, n):
        self.s.do("resize", n)
        self.log.append({"op": "resize", "n": n})
        if n != self.n:
            self.n, self.filled, self.m, self.bind = n, False, None, None

    def right_for(self, m):
        return times(m, [self.rng.choice([0, 1, -1, 2, 7, self.rng.randint(-30, 30)]) for _ in m])

    def fill(self):
        rng, n = self.rng, self.n
        m = self.some(n)
        if self.bind is None or rng.random() < 0.6:
            kind = rng.random()
            if self.bind is not None and kind < 0.4:
                b = list(self.bind)
                rng.shuffle(b)
            elif self.bind is not None and kind < 0.6:
                b = self.bind[1:] + self.bind[:1]
            elif kind < 0.8:
                b = list(range(n))
            else:
                b = rng.sample(range(n + 3), n)
            self.bind = b
            self.s.do("bind", n, *b)
        r = self.right_for(m)
        self.s.do("zero")
        cells = [(i, self.bind[j], m[i][j]) for i in range(n) for j in range(n) if m[i][j] or rng.random() < 0.3]
        rng.shuffle(cells)
        self.s.do("cells", len(cells), " ".join("%d %d %d" % x for x in cells))
        self.s.do("right", n, *r)
        self.s.do("mark")
        self.m, self.filled = m, True
        self.log.append({"op": "fill", "bind": list(self.bind), "m": [list(r) for r in m], "r": r})

    def right(self):
        r = self.right_for(self.m)
        self.s.do("right", self.n, *r)
        self.log.append({"op": "right", "r": r})

    def change(self):
        if self.n > 4:
            return
        i, j = self.rng.randrange(self.n), self.rng.randrange(self.n)
        old = self.m[i][j]
        for _ in range(20):
            x = self.m[i][j] = self.rng.randint(-9, 9)
            if det(self.m):
                break
        else:
            self.m[i][j] = old
            return
        self.s.do("cells", 1, "%d %d %d" % (i, self.bind[j], x))
        self.log.append({"op": "change", "row": i + 1, "col": j + 1, "x": x})
        self.right()

    def solve(self, inverse):
        a = json.loads(self.s.do("solve", int(inverse)))
        e = {"op": "solve", "inv": bool(inverse), "regular": self.m is not None and bool(det(self.m)),
             "failed": a["failed"] != 0, "still": bool(a["ok"])}
        if not e["failed"]:
            e["vars"] = [q(x) for x in a["vars"][:60]]
            self.filled = bool(a["ok"])
        else:
            self.filled = bool(a["ok"]) and self.filled
        self.log.append(e)


def history(rng, live, length):
    log = []
    h = History(rng, live, log)
    sizes = rng.choice([[1], [2], [3], [2, 3], [1, 2], [2, 4], [3, 5], [2, 3, 4], [3, 4], [4, 12], [12, 30, 3], [3, 3, 40]])
    h.resize(rng.choice(sizes))
    for _ in range(length):
        r = rng.random()
        if r < 0.14:
            h.resize(rng.choice(sizes))
            if rng.random() < 0.9:
                h.fill()
        elif r < 0.55 or h.bind is None:
            h.fill()
        elif r < 0.6:
            live.do("zero")
            log.append({"op": "wipe"})
            h.filled = False
        elif r < 0.75 and h.filled:
            h.right()
        elif r < 0.83 and h.filled:
            h.change()
        if h.bind is not None:
            h.solve(rng.random() < 0.65)
    return log


def flow(rng, s):
    """a flow that goes on for a while, its unknowns found twice at every step"""
    asks = []
    s.do("new", 0)
    s.do("set", "dt", 1, 8)
    s.do("set", "time", rng.choice([0, -2, 1]), 8)
    calm = False
    for k in range(rng.choice([1, 1, 2, 3])):
        pts = dynamics.rect(rng, rng.choice([1, 2, 3]), rng.choice([1, 2]), (6 * k - 5, rng.randint(-2, 2)))
        s.do("body", len(pts), " ".join("%d %d 0" % p for p in pts))
        s.do("bset", k, "holder", 6 * k - 4, 0, 0)
        kind = rng.choice(["still", "still", "stops", "starts", "starts", "turns", "spring", "kicked", "kicked", "hits"])
        if kind == "stops":
            s.do("bset", k, rng.choice(["vx", "vy", "vo"]), "(t<0.6)and(%s)or(0)" % rng.choice(["1", "-0.5"]))
        if kind == "starts":
            s.do("bset", k, rng.choice(["vx", "vy", "vo"]), "((t>0.3)and(t<0.9))and(%s)or(0)" % rng.choice(["1", "-0.5"]))
        if kind == "turns":
            s.do("bset", k, "vo", rng.choice(["1", "sin(t)", "(t>0.5)and(0.5)or(0)"]))
        if kind == "spring":
            s.do("bset", k, "kspring", *[rng.choice(["inf", "1", "0.25"]) for _ in range(3)])
            s.do("bset", k, "density", rng.choice([1, 2, 0.5]))
        if kind == "hits":
            s.do("bset", k, "kspring", "1", "inf", "inf")
            s.do("bset", k, "cmin", -0.05, "-inf", "-inf")
            s.do("bset", k, "cmax", 0.05, "inf", "inf")
            s.do("bset", k, "bounce", rng.choice([0, 0.5, 1]))
            s.do("bset", k, "density", 2)
        if kind == "kicked":
            axis = rng.randrange(3)
            s.do("bset", k, "kspring", *["1" if i == axis else "inf" for i in range(3)])
            s.do("bset", k, "density", rng.choice([1, 2]))
            s.do("bset", k, "fo", "(t>0.3)and(%s)or(0)" % rng.choice(["4", "-3"]))
            calm = calm or rng.random() < 0.8
        if k and rng.random() < 0.3:
            s.do("bset", k, "root", rng.randrange(k))
    s.do("set", "inf_vx", "0" if calm else rng.choice(["1", "cos(t)", "0"]))
    s.do("set", "gravity", 0, 0 if calm else rng.choice([0, -1]))
    for _ in range(0 if calm else rng.randint(0, 6)):
        s.do("vort", rng.uniform(-12, -7), rng.uniform(-4, 4), rng.uniform(-1, 1), 0, 0)
    for _ in range(rng.choice([5, 9, 12])):
        r = rng.random()
        if r < 0.06:
            s.do("set", "inf_g", rng.randint(-3, 3))
        asks.append(s.ask("both"))
        s.do("vortex_shed")
        s.do("calc_forces")
        s.do("zero_forces")
        s.do("conv")
        s.ask("move", 1)
        s.do("step")
    return asks


def flat(d):
    """unknowns to integers, in units that suit the biggest of them"""
    big = max([abs(x) for x in d["new"]] + [1])
    u = 10 ** 8 / big
    f = lambda l: [qr(x, u) for x in l]
    return {"op": "same", "a": f(d["used"]), "b": f(d["new"])}


def check(c):
    b = build(["vvhd"], ["drv_matrix", "drv_flow"])
    c.model("SolverMC", "CONSTANTS Sizes = {1, 2, 3} Matrices = {1, 2, 3} Rights = {1, 2} Forget = TRUE\nSPECIFICATION Spec\n"
            "INVARIANTS Right KeptIsWhatWasFilled\n")
    rng = c.rng
    live = Live(b.driver("drv_matrix"))
    logs = [history(rng, live, rng.choice([4, 8, 16, 30])) for _ in range(c.n(500, 8000))]
    live.end()
    c.notes["histories"] = len(logs)
    solves = [e for l in logs for e in l if e["op"] == "solve"]
    c.notes["solves"] = len(solves)
    c.notes["failures"] = sum(e["failed"] for e in solves)
    c.notes["solved_still_filled"] = sum(e["still"] and not e["failed"] for e in solves)
    c.sample(logs[0][:5])
    parts = 6
    chunks = [[e for l in logs[k::parts] for e in l] for k in range(parts)]
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(parts) as pool:
        list(pool.map(lambda ev: c.expect_valid("SolverTrace", ev, "what the solver did"), chunks))
    s = Script(b.driver("drv_flow"))
    asks = [a for _ in range(c.n(120, 1500)) for a in flow(rng, s)]
    ans = s.run("flows solved twice")
    c.notes["flows_solved_twice"] = len(asks)
    c.notes["flows_with_a_collision"] = sum(ans[a]["hits"] > 0 for a in asks)
    c.expect_all("SolverTrace", [flat(ans[a]) for a in asks], "the unknowns of a flow")
    c.assumptions.append("bodies are not exchanged behind the solver's back while it says it is filled")
