"""Clock arithmetic: TTime against spec/TimeArith.tla."""
import json
import math
import os
from fractions import Fraction

from vv.common import Violation, build, sh

I32 = 2**31 - 1


def drive(b, lines):
    p = sh([b.driver("drv_time")], inp="\n".join(lines) + "\n", timeout=300)
    out = p.stdout.split("\n")[:-1]
    if p.returncode != 0 or len(out) != len(lines):
        raise Violation(
            "clock arithmetic crashed (exit %s) on request %r"
            % (p.returncode, lines[min(len(out), len(lines) - 1)])
        )
    return out


def t(v, ts):
    return {"v": v, "ts": ts}


def decimals(rng, n):
    """decimals that fit value/10^k, k <= 9"""
    res = set()
    for k in range(0, 4):
        for num in list(range(0, 400)):
            res.add((num, 10**k))
    for _ in range(n):
        k = rng.randint(0, 9)
        den = 10**k
        mag = rng.choice([9, 99, 999, 99999, 9999999, I32])
        num = rng.randint(-mag, mag)
        res.add((num, den))
    for x in (29, 57, 58, 113, 114, 115, 116, 201, 1001, 4035, 8189, 16381):
        for k in range(1, 6):
            res.add((x, 10**k))
            res.add((-x, 10**k))
    return sorted(res)


def dec_str(num, den):
    k = len(str(den)) - 1
    s = str(abs(num)).rjust(k + 1, "0")
    s = s[: len(s) - k] + ("." + s[len(s) - k:] if k else "")
    return ("-" if num < 0 else "") + s


def fl(a, b):
    """floor of a/|b| with the sign of b"""
    y = b[0] * a[1]
    x = a[0] * b[1]
    return x // y if y > 0 else -(x // -y)


def ok_domain(a, b):
    l = a[1] * b[1] // math.gcd(a[1], b[1])
    s = abs(Fraction(a[0], a[1]) + Fraction(b[0], b[1])) * l
    return (
        l <= I32
        and s <= I32
        and abs(a[0]) * (l // a[1]) <= I32
        and abs(b[0]) * (l // b[1]) <= I32
    )


def check(c):
    b = build(["vvflow"], ["drv_time"])
    rng = c.rng
    c.model(
        "TimeArithMC",
        "CONSTANTS MaxV = %d MaxTs = %d MaxN = %d\nINIT Init\nNEXT Next\n"
        % ((6, 6, 6) if c.thorough else (4, 4, 4))
        + "INVARIANTS NoDrift SumOK SumSharp MultipleAgrees HintUnique Periodic\n",
    )

    events = []
    # decimals
    ds = decimals(rng, c.n(3000, 30000))
    out = drive(b, ["dec " + dec_str(*d) for d in ds])
    for d, o in zip(ds, out):
        v, ts = map(int, o.split())
        events.append({"op": "dec", "num": d[0], "den": d[1], "r": t(v, min(ts, I32))})
    # numbers without a decimal that fits: rounded, never garbage
    near = []
    for _ in range(c.n(400, 4000)):
        x = rng.choice([1, -1]) * rng.random() * 10 ** rng.randint(-3, 3)
        x = float("%.12f" % x)
        near.append(x)
    near += [1 / 3.0, 2 / 3.0, math.pi, 10 / 3.0, 100 / 3.0, 1e3 / 7, -math.pi, 1e-3 / 3]
    near = [float("%.12f" % x) for x in near]
    out = drive(b, ["dec %.12f" % x for x in near])
    for x, o in zip(near, out):
        v, ts = map(int, o.split())
        n12 = abs(int(round(Fraction("%.12f" % x) * 10**12)))
        if n12 == 0:
            continue
        events.append(
            {"op": "near", "sgn": 1 if x > 0 else -1, "hi": n12 // 10**6, "lo": n12 % 10**6,
             "r": t(v, min(ts, I32))}
        )
    # exhaustive small grid
    mv, mts = c.n(9, 16), c.n(12, 24)
    grid = [(v, ts) for v in range(-mv, mv + 1) for ts in range(1, mts + 1)]
    reqs = []
    step = c.n(5, 1)
    for k, a in enumerate(grid):
        for bb in grid[(k % step)::step]:
            reqs.append((a, bb))
    out = drive(b, ["add %d %d %d %d" % (a + bb) for a, bb in reqs])
    out2 = drive(b, ["div %d %d %d %d" % (a + bb) for a, bb in reqs])
    row = None
    for (a, bb), o, o2 in zip(reqs, out, out2):
        if row is None or (row["a"]["v"], row["a"]["ts"]) != a:
            row = {"op": "row", "a": t(*a), "bs": [], "sum": [], "mul": []}
            events.append(row)
        row["bs"].append(list(bb))
        row["sum"].append([int(x) for x in o.split()])
        row["mul"].append(int(o2))
    c.notes["pairs_enumerated"] = len(reqs)
    # large times
    big = []
    tss = [1, 2, 3, 5, 7, 8, 10, 16, 20, 25, 30, 50, 60, 64, 77, 100, 128, 500, 625, 1000,
           1001, 1024, 3125, 4096, 127, 10000, 65536, 100000, 10**6]
    while len(big) < c.n(1500, 20000):
        a = (rng.randint(-I32, I32) >> rng.randint(0, 30), rng.choice(tss))
        d = (rng.randint(-I32, I32) >> rng.randint(0, 30), rng.choice(tss))
        if rng.random() < 0.4:  # make it a multiple
            k = rng.randint(-3000, 3000)
            f = Fraction(d[0], d[1]) * k
            if abs(f.numerator) > I32:
                continue
            a = (f.numerator, f.denominator)
        if ok_domain(a, d) and (d[0] == 0 or abs(fl(a, d)) < I32):
            big.append((a, d))
    out = drive(b, ["add %d %d %d %d" % (a + d) for a, d in big])
    out2 = drive(b, ["div %d %d %d %d" % (a + d) for a, d in big])
    for (a, d), o, o2 in zip(big, out, out2):
        v, ts = map(int, o.split())
        events.append({"op": "add", "a": t(*a), "b": t(*d), "r": t(v, min(ts, I32))})
        events.append({"op": "div", "a": t(*a), "b": t(*d), "k": fl(a, d) if d[0] else 0,
                       "r": o2 == "1"})
    # repeated addition does not drift
    st = []
    while len(st) < c.n(120, 1500):
        a = (rng.randint(-5000, 5000), rng.choice(tss))
        d = (rng.randint(1, 400), rng.choice(tss))
        n = rng.choice([1, 2, 3, 10, 99, 100, 1000, 5000])
        l = a[1] * d[1] // math.gcd(a[1], d[1])
        if l <= I32 and (abs(Fraction(a[0], a[1])) + n * Fraction(d[0], d[1])) * l <= I32:
            st.append((a, d, n))
    out = drive(b, ["steps %d %d %d %d %d" % (a + d + (n,)) for a, d, n in st])
    for (a, d, n), o in zip(st, out):
        v, ts = map(int, o.split())
        events.append({"op": "steps", "a": t(*a), "b": t(*d), "n": n, "r": t(v, min(ts, I32))})
    # the assignment forms of the language, observed through a saved file
    events += lua_forms(c, b)
    for e in events[:: max(1, len(events) // 9)]:
        c.sample(json.dumps(e)[:300])
    c.expect_valid("TimeArithTrace", events, "clock arithmetic is not exact")
    c.assumptions += ["times stay within a 32-bit numerator and denominator, as the file format"]


def lua_forms(c, b):
    rng = c.rng
    forms = []  # (lua expr, valid, (v, ts))
    for num, den in [(29, 100), (1, 3), (-7, 20), (0, 1), (50, 1000), (33, 100)]:
        forms.append(("'%d/%d'" % (num, den), True, (num, den)))
        forms.append(("'%d/%d  '" % (num, den), True, (num, den)))
        forms.append(("{%d, %d}" % (num, den), True, (num, den)))
    for s in ["0.29", "0.33", "2", "-1.5", "0.0625", "1e-3", "0.57", "1.1", "8.41"]:
        f = Fraction(s)
        forms.append((s, True, (f.numerator, f.denominator)))
    for _ in range(c.n(20, 200)):
        num, den = rng.randint(-9999, 9999), rng.randint(1, 999)
        forms.append(("'%d/%d'" % (num, den), True, (num, den)))
        forms.append(("{%d,%d}" % (num, den), True, (num, den)))
        forms.append((dec_str(num, 1000), True, (num, 1000)))
    for s in ["'1/0'", "{1, 0}", "{1, -2}", "{1}", "{1, 2, 3}", "'abc'", "'1/2x'", "'1'", "'1/'",
              "true", "{}", "''", "function() end", "{'a', 2}"]:
        forms.append((s, False, (0, 1)))
    fields = ["time", "dt", "dt_save", "dt_streak", "dt_profile"]
    lua, recs = [], []
    d = c.scratch + "/lua"
    os.makedirs(d, exist_ok=True)
    state = {f: (0, 1) for f in fields}
    for k, (expr, valid, want) in enumerate(forms):
        f = fields[k % 5]
        lua.append("S.%s = {%d, %d}" % (f, k + 1, 7))
        lua.append("r[%d] = pcall(function() S.%s = %s end)" % (k + 1, f, expr))
        lua.append("S:save('f%d.h5')" % k)
        recs.append((f, expr, valid, want, (k + 1, 7)))
    body = "r = {}\n" + "\n".join(lua) + "\nfor i, v in ipairs(r) do print(v) end\n"
    with open(d + "/a.lua", "w") as fh:
        fh.write(body)
    p = sh([b.vvflow, "a.lua"], cwd=d)
    res = p.stdout.split()
    if p.returncode or len(res) != len(forms):
        raise Violation("assigning times failed: exit %s %s" % (p.returncode, p.stderr[-500:]))
    events = []
    for k, (f, expr, valid, want, before) in enumerate(recs):
        h = json.loads(sh([b.h5json, d + "/f%d.h5" % k]).stdout)["@"][f]
        events.append({
            "op": "lua", "field": f, "expr": expr, "valid": valid, "accepted": res[k] == "true",
            "want": t(*want), "before": t(*before), "r": t(h["value"], min(h["timescale"], I32)),
        })
    return events
