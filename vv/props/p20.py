"""Field maps against spec/FieldMap.tla."""
from vv.common import build, q
from vv.drive import Script

S = 8       # everything but the number of columns is a multiple of 1/S


def nums(s):
    return [q(x) for x in s[:1]] + [q(float(x), S) for x in s[1:]]


def stored(rng, nx, ny, x, y, dx, dy, values):
    s = [nx] + [x + i * dx for i in range(nx)]
    for j in range(ny):
        s += [y + j * dy] + [rng.choice(values) for _ in range(nx)]
    return s


def offer(rng):
    """a list of numbers and bytes beyond, whether it has no reading at all"""
    nx, ny = rng.choice([2, 2, 3, 4, 5, 7]), rng.choice([2, 2, 3, 4, 6])
    if rng.random() < 0.05:
        nx, ny = rng.choice([(2, 60), (60, 2), (20, 20)])
    d = rng.choice([0.125, 0.25, 1, 1, 2, 5, 1000])
    x, y = rng.choice([0, -1, 3.5, -100]), rng.choice([0, 1, -0.125, 1024])
    values = rng.choice([[0, 1], [0], [-1, 0, 0, 2], [1, 2, 3, 4.5], list(range(-50, 50)), [-0.125, 100000], [0, 0, 0, 0, 0, 7]])
    kind = rng.choice(["good"] * 8 + ["short", "cut", "columns", "rows", "spacing", "nearly", "backwards", "still", "odd", "fraction", "nan"])
    dy, extra, odd = d, 0, 0
    if kind == "rows":
        ny = rng.choice([0, 1, 1])
        nx = rng.choice([5, 8, 9, 11])
    if kind == "nearly":
        d = 1000.0
        dy = 1000 + rng.choice([1, -1, 2, -2, 1.125, -1.125, 0.5, 0.125])
    if kind == "spacing":
        dy = d * rng.choice([2, 0.5, -1, 1.5])
    if kind == "backwards":
        d = dy = -d
    if kind == "still":
        d, dy = rng.choice([(0, 0), (0, d), (d, 0)])
    s = stored(rng, nx, ny, x, y, d, dy, values)
    if kind == "short":
        s = s[:rng.randint(0, 8)]
        if s and rng.random() < 0.5:
            s[0] = rng.choice([0, 1, 2, 3])
    if kind == "cut":
        s = s[:-1] if rng.random() < 0.5 else s + [rng.choice(values)] * rng.choice([1, nx, nx + 1, nx + 2])
        if rng.random() < 0.3:
            del s[rng.randint(1, len(s) - 1)]
    if kind == "columns":
        s[0] = rng.choice([0, 1, -1, -2, -nx, nx + 1, nx - 1, 1000000, 2000000000 - 128])
    if kind == "odd":
        extra, odd = rng.choice([1, 2, 3]), 1
    if kind == "fraction":
        s[0] = rng.choice([nx + 0.5, 1.5, "nan", "inf", "-inf", 1e30, -1e30, 5e9])
        odd = 1
    if kind == "nan":
        k = rng.choice([1, 2, nx + 1, 2 * (nx + 1)])
        s[k] = rng.choice(["nan", "inf", "-inf"])
        odd = 1
    return s, extra, odd


def check(c):
    b = build(["vvhd"], ["drv_field"])
    c.model("FieldMapMC", "CONSTANTS Values = {%s} Length = %d\nINIT Init\nNEXT Next\nCONSTRAINT Once\n"
            "INVARIANTS RoundTrip Back Ordered\n" % (("0, 1, 3", 9) if c.thorough else ("0, 2", 8)))
    rng = c.rng
    s = Script(b.driver("drv_field"))
    plan = []
    for _ in range(c.n(3000, 40000)):
        l, extra, odd = offer(rng)
        if not odd and any(abs(x) > 10 ** 7 for x in l[1:]):
            continue
        i = s.ask("field", extra, len(l), *[x if isinstance(x, str) else repr(float(x)) for x in l])
        a, p = [], []
        readable = not odd and len(l) >= 9 and l[0] > 1 and len(l) % (int(l[0]) + 1) == 0
        if readable:
            nx = int(l[0])
            ny = len(l) // (nx + 1) - 1
            for _ in range(3):
                at = (rng.randrange(nx), rng.randrange(max(ny, 1)))
                if ny >= 1:
                    a.append((at, s.ask("at", *at)))
            for _ in range(4):
                m = rng.choice([2, 4, 8, 16, 64])
                n = rng.randint(1, m - 1)
                p.append(((n, m), s.ask("pct", n / float(m))))
        plan.append((l, extra, odd, i, a, p))
    ans = s.run("reading and asking fields")
    events = []
    for l, extra, odd, i, a, p in plan:
        r = ans[i]
        e = {"odd": odd, "s": [] if odd else nums(l), "refused": "error" in r}
        if not e["refused"]:
            e["pack"] = nums(r["pack"])
            e["min"], e["max"] = q(float(r["min"]), S), q(float(r["max"]), S)
            e["at"] = [[x, y, q(float(ans[k]), S)] for (x, y), k in a]
            e["pct"] = [[n, m, q(float(ans[k]), S) if isinstance(ans[k], (int, float)) else 1999999998] for (n, m), k in p]
        events.append(e)
    c.notes["fields"] = sum(not e["refused"] for e in events)
    c.notes["refused"] = sum(e["refused"] for e in events)
    c.notes["quantiles"] = sum(len(e.get("pct", [])) for e in events)
    for e in events[:3]:
        c.sample(e)
    c.expect_all("FieldMapTrace", events, "what was made of a stored field")
