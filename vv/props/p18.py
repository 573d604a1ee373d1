"""The table filters utils/scripts/vvawk.* against spec/Filters.tla."""
import math
import os
import subprocess

from vv.common import REPO, Violation, qr

DIR = REPO + "/utils/scripts/"


def run(name, args, text, mode, path):
    """awk as the script's first line says; from a file or from a pipe"""
    first = open(DIR + "vvawk." + name).readline()[2:].split()
    if mode == "file":
        with open(path, "w") as f:
            f.write(text)
    cmd = first + [DIR + "vvawk." + name] + args + [path if mode == "file" else "-"]
    p = subprocess.run(cmd, input=text if mode != "file" else None, capture_output=True, text=True, timeout=60)
    if p.returncode:
        raise Violation("vvawk.%s failed" % name, {"args": args, "table": text, "stderr": p.stderr[-400:]})
    return p.stdout


def number(w, name, text, args):
    try:
        x = float(w)
        if math.isfinite(x):
            return x
    except ValueError:
        pass
    raise Violation("vvawk.%s printed %r" % (name, w), {"args": args, "table": text})


def check(c):
    c.model("FiltersMC", "CONSTANTS N = %d Top = 3\nINIT Init\nNEXT Next\n" % c.n(4, 6)
            + "INVARIANTS AverageOk VarianceOk Rebuild SmoothOk ZerosOk AmplitudeOk\n")
    rng = c.rng
    events = []
    path = c.scratch + "/table"
    for n in range(c.n(1500, 20000)):
        name = rng.choice(["avg", "sd", "drv", "mavg", "zeros", "ampl"])
        rows = rng.choice([0, 1, 2, 3, 6, 12, 30])
        cols = rng.choice([2, 2, 3, 5])
        col = rng.randint(2, cols)
        top = rng.choice([1, 3, 9, 30])
        x, t, others = rng.randint(-15, 5), [], []
        kind = rng.choice(["any", "any", "wave", "same"])
        unit = rng.choice([1, 10])          # a table in tenths
        sep = rng.choice([" ", "\t", "\t", "  "])
        lines = []
        if rng.random() < 0.5:              # as vvxtract prints them
            lines.append("#time\t" + "".join("force[%d]\t" % k for k in range(1, cols)))
        ph = rng.random() * 6
        same = rng.randint(-top, top)
        for k in range(rows):
            y = {"any": rng.randint(-top, top), "wave": round(top * math.sin(ph + k * 0.9)), "same": same}[kind]
            vals = [x] + [rng.randint(-99, 99) for _ in range(cols - 1)]
            vals[col - 1] = y
            t.append([x, y])
            others.append([v for j, v in enumerate(vals) if j != col - 1])
            fmt = rng.choice(["%+.6e", "%g"])
            lines.append(sep.join(fmt % (v / unit) for v in vals) + rng.choice(["", sep]))
            x += rng.choice([1, 1, 1, 2])
            if rng.random() < 0.03:
                lines.append("# a remark")
        text = "".join(l + "\n" for l in lines)
        args, r = [], [-10 ** 6, 10 ** 6]
        if col != 2 or rng.random() < 0.3:
            args += ["-v", "col=%d" % col]
        e = {"name": name, "t": t, "others": others, "div": 1, "span": 1}
        if name in ("avg", "sd", "zeros", "ampl"):
            if rng.random() < 0.5:
                r[0] = rng.choice([0, 0, -3, 2, rng.randint(-15, 15)])
                args += ["-v", "xmin=%g" % (r[0] / unit)]
            if rng.random() < 0.5:
                r[1] = rng.choice([0, 0, 3, 7, rng.randint(-15, 25)])
                args += ["-v", "xmax=%g" % (r[1] / unit)]
        if name in ("mavg", "ampl"):
            e["span"] = rng.choice([1, 2, 3, 5, 7, 10]) if rng.random() < 0.8 else None
            if e["span"] is None:
                e["span"] = 20 if name == "mavg" else 5
            else:
                args += ["-v", "span=%d" % e["span"]]
        if name == "drv" and rng.random() < 0.6:
            e["div"] = rng.choice([2, 3, 8])
            args += ["-v", "div=%d" % e["div"]]
        out = run(name, args, text, rng.choice(["file", "-"]), path)
        e["range"] = r
        # printed numbers are good to six digits: the scale keeps products small
        sc = {"sd": 16 if rows > 12 else 64, "ampl": 100}.get(name, 1000)
        e["sc"] = sc
        e["out"] = []
        for l in out.splitlines():
            if l.startswith("#"):
                continue
            w = [number(v, name, text, args) for v in l.split()]
            if name in ("drv", "mavg"):
                if len(w) != cols:
                    raise Violation("vvawk.%s printed %d columns for %d" % (name, len(w), cols), {"args": args, "table": text, "out": out})
                e["out"].append({"v": qr(w[col - 1] * unit, sc), "others": [qr(v * unit, 1) for j, v in enumerate(w) if j != col - 1]})
            elif len(w) != 1:
                raise Violation("vvawk.%s printed a line %r" % (name, l), {"args": args, "table": text})
            else:
                e["out"].append({"v": qr(w[0] * unit, sc), "others": []})
        e["args"] = " ".join(args)
        events.append(e)
    for k in ("avg", "sd", "drv", "mavg", "zeros", "ampl"):
        c.notes["tables_" + k] = sum(e["name"] == k for e in events)
    for e in events[:4]:
        c.sample({"name": e["name"], "rows": len(e["t"]), "args": e["args"]})
    c.expect_all("FiltersTrace", events, "a filtered table")
