"""Isolines against spec/Isoline.tla."""
from vv.common import Violation, build, q
from vv.drive import Script
from vv.props.p20 import stored


def fields(c):
    rng = c.rng
    out = []
    for _ in range(c.n(900, 12000)):
        nx, ny = rng.choice([2, 2, 3, 3, 4, 5]), rng.choice([2, 3, 3, 4, 5])
        kind = rng.choice(["random", "random", "two", "hill", "slope", "checks", "flat"])
        top = rng.choice([1, 2, 4, 8])
        z = []
        for j in range(ny):
            for i in range(nx):
                z.append({"random": rng.randint(0, top), "two": rng.choice([0, top]),
                          "hill": max(0, 8 - 2 * abs(i - nx // 2) - 3 * abs(j - ny // 2)),
                          "slope": min(8, i + j), "checks": (i + j) % 2 * top, "flat": top}[kind])
        if rng.random() < 0.2:
            z[rng.randrange(len(z))] = 8
        low = rng.choice([0, 0, -4])
        z = [v + low for v in z]
        out.append((nx, ny, z))
    return out


def check(c):
    b = build(["vvhd"], ["drv_field"])
    inv = "INIT Init\nNEXT Next\nINVARIANTS Paired Closed Separate Only Turned Kept Whole Greedy\n"
    c.model("IsolineMC", "CONSTANTS Values = {0, 1, 2} Levels = {1, 2, 3} NX = 3 NY = 2 AnyOrder = TRUE\n" + inv)
    c.model("IsolineMC", "CONSTANTS Values = {0, 1} Levels = {0, 1, 2} NX = 3 NY = 3 AnyOrder = FALSE\n" + inv)
    if c.thorough:
        c.model("IsolineMC", "CONSTANTS Values = {0, 1, 2} Levels = {1, 2} NX = 3 NY = 3 AnyOrder = FALSE\n" + inv)
        c.model("IsolineMC", "CONSTANTS Values = {0, 1, 3} Levels = {1, 2} NX = 4 NY = 2 AnyOrder = TRUE\n" + inv)
    rng = c.rng
    s = Script(b.driver("drv_field"))
    plan = []
    for nx, ny, z in fields(c):
        x, y, half = rng.choice([0, 0, -3, 10]), rng.choice([0, 2, -7]), rng.choice([1, 2, 2, 4])
        l = stored(rng, nx, ny, x, y, half / 2.0, half / 2.0, [0])
        for j in range(ny):
            for i in range(nx):
                l[(j + 1) * (nx + 1) + i + 1] = z[j * nx + i]
        s.ask("field", 0, len(l), *[repr(float(v)) for v in l])
        lo, hi = min(z), max(z)
        for _ in range(2):
            a = rng.choice([2 * lo, 2 * lo, 2 * lo + 1, 2 * lo - 3, lo + hi])
            e = rng.choice([2 * hi, 2 * hi, 2 * hi + 5, a, a + 2, lo + hi])
            step = rng.choice([1, 2, 2, 3, 4])
            if rng.random() < 0.03:
                a, e, step = rng.choice([(1, 0, 1), (0, 4, 0), (0, 4, -1), (0, 0, 0), (5, -5, -1)])
            elif e < a:
                e = a
            plan.append((nx, ny, x, y, half, z, a, e, step, s.ask("iso", a / 2.0, e / 2.0, step / 2.0)))
        if rng.random() < 0.02:
            nan = rng.choice([("nan", 1, 1), (0, "nan", 1), (0, 1, "nan"), (0, "inf", 1)])
            plan.append((nx, ny, x, y, half, z, 1, 0, 1, s.ask("iso", *["%s" % w for w in nan])))
    ans = s.run("drawing isolines")
    events = []
    for nx, ny, x, y, half, z, a, e, step, k in plan:
        r = ans[k]
        ev = {"nx": nx, "ny": ny, "x": x, "y": y, "half": half, "z": z, "a": a, "b": e, "step": step,
              "refused": isinstance(r, dict), "lines": []}
        if not ev["refused"]:
            line = []
            if r and r[-1] == r[-1]:
                raise Violation("the last isoline is not ended", ev)
            for n in range(0, len(r), 2):
                p = r[n:n + 2]
                if p[0] != p[0]:
                    ev["lines"].append(line)
                    line = []
                else:
                    line.append([q(v, 3360, 3e-6) for v in p])
        events.append(ev)
    c.notes["drawings"] = len(events)
    c.notes["lines"] = sum(len(e["lines"]) for e in events)
    for e in events[:2]:
        c.sample(e)
    c.expect_all("IsolineTrace", events, "the isolines drawn")
