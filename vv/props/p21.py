"""Archives of the plotting tool against spec/Viewport.tla, lines over maps
against spec/Streamlines.tla."""
import concurrent.futures
import hashlib
import io
import math
import os
import re
import shutil
import struct
import tarfile

from vv.common import MachineryError, build, q, qr, sh
from vv.drive import Script

NAN = float("nan")
SHAPES = [[(0, 0), (0, 30), (30, 30), (30, 0)], [(0, 0), (24, 18), (48, 0)], [(0, 0), (0, 10), (20, 10), (20, 0)],
          [(0, 0), (18, 24), (48, 24), (30, 0)]]
LABELS = ["cyl", "body00", "body01", "vortex_list", "black", "map_pressure", "streamlines", "it's", "%2float", "plot.gp",
          "cyl", "body_holders", "a b", "wing", "wing", "nose/tail", "#adadad", "тело"]
FAKE = """#!/usr/bin/python3
import os, re, sys
out = os.environ["FAKE_OUT"]
s = open(sys.argv[1], newline="").read()
os.makedirs(out)
for n in sorted(set(re.findall(r"/dev/fd/(\\d+)", s))):
    open(out + "/" + n, "wb").write(open("/dev/fd/" + n, "rb").read())
open(out + "/plot.gp", "w", newline="").write(s)
os.write(1, os.environ["FAKE_PNG"].encode())
"""


# ------------------------------------------------------------------- flows
def flow(c, s, k):
    rng = c.rng
    unit = rng.choice([1, 1, 1 / 1024, 1e-6])
    L = lambda *a: " ".join(repr(float(v * unit)) for v in a)
    s.do("new", 0)
    s.do("set", "re", repr(100 / unit))
    s.do("set", "dt", 2, round(1 / unit))
    time = rng.choice([0, 12, -3, 1007])
    s.do("set", "time", time, 8)
    stream = [rng.choice([0, 1, -2]), rng.choice([0, 0, 1])]
    if k % 6 == 5:
        stream = [0, 0]
    s.do("set", "inf_vx", str(stream[0]))
    s.do("set", "inf_vy", str(stream[1]))
    marker = [rng.randint(-30, 30), rng.randint(-30, 30)]
    s.do("set", "marker", L(*marker))
    f = {"unit": unit, "time": round(time / 8 * 1e6), "marker": marker, "bodies": [], "src": [], "vort": [], "path": "%s/f%d.h5" % (c.scratch, k)}
    n = 0 if k % 6 == 5 else rng.choice([0, 1, 1, 2, 3])
    shapes = rng.sample(SHAPES, n)
    labels = [rng.choice(LABELS + [""] * 4) for _ in range(n)]
    if n > 1 and rng.random() < 0.3:
        labels = [rng.choice(labels)] * n
    for j, o in enumerate(shapes):
        ox, oy = 120 * j - 60, rng.randint(-10, 10)
        o = [(x + ox, y + oy) for x, y in o]
        dp = [rng.choice([0, 0, 7, -12]), rng.choice([0, 0, 5])]
        h = [o[0][0] + rng.randint(-5, 5), o[0][1] + rng.randint(-5, 5)]
        s.do("body", n and len(o), " ".join(L(*p) + " 0" for p in o))
        s.do("bset", j, "holder", L(*h), 0)
        s.do("bset", j, "dpos", L(*dp), 0)
        s.do("bset", j, "speed", rng.choice([0, 1]), 0, 0)
        if labels[j]:
            s.do("bset", j, "label", "-" + labels[j].encode().hex() + "-")
        f["bodies"].append({"o": o, "holder": h, "label": labels[j] or "body%02d" % j, "plain": not re.search("[\\x00-\\x1f']", labels[j])})
    for _ in range(0 if k % 6 == 5 else rng.choice([0, 1, 4, 7, 7])):
        p = (rng.randint(-60, 60), rng.choice([-55, -47, 52, 49, 61]))
        g = rng.choice([1, 2, -3, 80, -500])
        s.do("vort", L(*p, g), 0, 0)
        f["vort"].append([p[0], p[1], g])
    for m in range(0 if k % 6 == 5 else rng.choice([0, 0, 1, 2, 2, 4])):
        # some in the same place or next to it
        p = (p[0] + rng.choice([0, 0, 1]), p[1] + rng.choice([0, 1])) if m % 2 else (rng.randint(-90, 200) + 0.25, rng.randint(-60, 60) + 0.25)
        g = rng.choice([-7, 3, 20])
        s.do("src", L(*p, g), 0, 0)
        f["src"].append([p[0], p[1], g])
    f["info"] = s.ask("dump")
    s.do("save", f["path"])
    return f


# ----------------------------------------------------------------- options
def spell(rng, a):
    return rng.choice([",", ",", " , ", ", "]).join(a)


def command(c, f, k):
    """options as told to the tool and as the specification sees them"""
    rng, unit = c.rng, f["unit"]
    opts, argv = [], []
    off = 0

    def opt(o, a=(), none=(), word="", arg=None):
        opts.append({"o": o, "a": list(a), "none": list(none), "c": word})
        if arg is not None:
            argv.append(arg)

    num = lambda v, m: "nan" if m else rng.choice([repr(float(v * unit)), "%.17g" % (v * unit)])
    kind = k % 8
    maps = kind not in (0, 1)
    if not maps and rng.random() < 0.5:
        off = 1000000
    # the viewport
    lo, hi = sorted(rng.sample(range(-100, 100), 2))
    hi = lo + max(hi - lo, 20)
    ylo = rng.randint(-60, 20)
    yhi = ylo + rng.randint(15, 90)
    w, h = rng.choice([(16, 9), (16, 30), (40, 30), (40, 48), (64, 31), (300, 200), (300, 399), (399, 201)])
    way = rng.choice(["w", "h", "all", "x", "y", "x", "y", "xlo", "xhi", "ylo", "yhi", "", "mess"])
    x, y, size = [lo, hi, 0, 0], [ylo, yhi, 0, 0], [w, h]
    told = ["x", "y", "size"]
    if way == "w":
        size[0] = 0
        size[1] = rng.choice([h, h, 1, 2, 4])
    elif way == "h":
        size[1] = 0
        size[0] = rng.choice([w, w, 1, 2, 4])
    elif way == "x":
        x[1] = x[0]
        if rng.random() < 0.5 and not off:
            told.remove("x")
            x = [0, 0, 0, 0]
    elif way == "y":
        y[1] = y[0]
        if rng.random() < 0.6:
            told.remove("y")
            y = [0, 0, 0, 0]
    elif way in ("xlo", "xhi"):
        x[2 if way == "xlo" else 3] = 1
    elif way in ("ylo", "yhi"):
        y[2 if way == "ylo" else 3] = 1
    elif way == "":
        told = rng.sample(told, rng.choice([1, 2]))
    elif way == "mess":
        x = [rng.choice([lo, hi]), rng.choice([lo, hi]), int(rng.random() < 0.3), int(rng.random() < 0.3)]
        y = [rng.choice([ylo, yhi]), rng.choice([ylo, yhi]), int(rng.random() < 0.2), int(rng.random() < 0.2)]
        size = [rng.choice([0, 1, w]), rng.choice([0, 2, h])]
    if off:
        told = ["x", "y", "size"] if "x" not in told else told
    swap = rng.random() < 0.2
    parts = []
    if "size" in told or not maps:
        parts.append(lambda: opt("size", size, arg="--size=%dx%d" % tuple(size)))
    else:
        size = [1280, 720]

    def axis(name, a, off):
        if not a[2] and not a[3] and swap:
            a = [a[1], a[0], 0, 0]
        argv.append("-" + name)
        opt(name, a[:2], [bool(a[2]), bool(a[3])], arg=spell(rng, [num(a[0] + off, a[2]), num(a[1] + off, a[3])]))
    if "x" in told:
        parts.append(lambda: axis("x", x, off))
    if "y" in told:
        parts.append(lambda: axis("y", y, 0))
    # layers
    P = lambda p: rng.random() < p
    if P(0.6):
        parts.append(lambda: opt("B", arg="-B"))
    if P(0.5):
        n = rng.choice([None, 0, 2, 7])
        parts.append(lambda n=n: opt("V", [] if n is None else [n], arg="-V" if n is None else "--V=%d" % n))
    levels = None
    if maps:
        def G():
            g = rng.choice([None, 5, 0])
            opt("G", [] if g is None else [g], arg="-G" if g is None else "--G=%d" % g)

        def Pr():
            l = rng.choice([None, (-2000, 3000), (-1500, 500), (1000, 1000)])
            opt("P", [] if l is None else l, arg="-P" if l is None else "--P=" + spell(rng, [repr(l[0] / 1000), repr(l[1] / 1000)]))

        def U():
            z = rng.choice("xy")
            l = rng.choice([None, None, (-2, 3), (1, 1)])
            opt("U", [] if l is None else l, word=z, arg="-U" + z if l is None else "--U%s=%d,%d" % (z, *l))
        for _ in range(rng.choice([0, 1, 1, 2])):
            parts.append(rng.choice([G, G, Pr, U]))
        if P(0.5):
            if P(0.3) and unit == 1:
                levels = rng.choice([(-40, 40, 8), (-100, 100, 20), (3, 3, 1)])
            parts.append(lambda: opt("S", levels or [], arg="--S=" + spell(rng, [repr(float(v)) for v in levels]) if levels else "-S"))
        hi_, lo_ = rng.choice([4, 8, 11, 22]), rng.choice([5, 8, 7])
        argv += ["--res-hi", str(hi_), "--res-lo", str(lo_)]
        opt("res-hi", [hi_])
        opt("res-lo", [lo_])
        if P(0.3):
            m = rng.choice([1, 3, 9])
            parts.append(lambda m=m: opt("eps", [m], arg="--eps=%d" % m))
        if P(0.4):
            r = rng.choice("bfo")
            parts.append(lambda r=r: opt("ref-S", word=r, arg="--ref-S=" + r))
        if P(0.4):
            r = rng.choice("sbfo")
            parts.append(lambda r=r: opt("ref-P", word=r, arg="--ref-P=" + r))
    if P(0.4):
        r = rng.choice(["b", "bx", "by", "f", "o", "bxy"])
        parts.append(lambda r=r: opt("ref-xy", word={"bx": "x", "by": "y", "bxy": "b"}.get(r, r), arg="--ref-xy=" + r))
    for name in ("colorbox", "timelabel", "gray", "holder", "spring"):
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            no = rng.choice(["", "no"])
            parts.append(lambda no=no, name=name: opt(name, word=no, arg="--" + ("no-" if no else "") + name))
    if P(0.08):
        bad = rng.choice([["-x", "1"], ["-x", "1,inf"], ["-x", "1,2,3"], ["-x", "one,2"], ["--size", "10"], ["--size=-3x4"], ["--res-hi", "0"],
                          ["--res-lo=-4"], ["--G=-1"], ["--S=1,0,1"], ["--S=0,1,0"], ["--S=0,1"], ["--P=2,1"], ["--P=1"], ["--eps", "0"], ["--eps=x"],
                          ["--ref-xy", "z"], ["--ref-S", "s"], ["--ref-P", "q"], ["-Uz"], ["--Ux=3,1"], ["--V=-1"], ["--V=2px"],
                          ["--nothing"], ["-Q"], ["one_more"]])

        def wrong():
            opts.append({"o": "bad", "a": [], "none": [], "c": ""})
            argv.extend(bad)
        parts.append(wrong)
    rng.shuffle(parts)
    for p in parts:
        p()
    return {"opts": opts, "argv": argv, "off": off, "f": f, "k": k}


# ------------------------------------------------------------ what came out
def floats(data):
    return struct.unpack("%df" % (len(data) // 4), data[:len(data) // 4 * 4])


def matrix(data):
    """gnuplot's binary matrix: columns, rows, values from the bottom up"""
    v = floats(data)
    if not v or v[0] < 1 or v[0] != int(v[0]) or len(v) % (int(v[0]) + 1):
        return [], [], []
    n = int(v[0])
    rows = [v[k * (n + 1):(k + 1) * (n + 1)] for k in range(1, len(v) // (n + 1))]
    return list(v[1:n + 1]), [r[0] for r in rows], [list(r[1:]) for r in rows]


def read(path):
    with tarfile.open(path) as t:
        m = [x.name for x in t.getmembers()]
        return m, {x.name: t.extractfile(x).read() for x in t.getmembers()}


def items(script):
    """what the plot command draws: <<name, the rest>>"""
    p = script[script.index("plot \\\n"):] if "plot \\\n" in script else ""
    return re.findall(r"^ +'([^'\n]*)'(.*)$", p, re.M)


def got(j, path, rc, err):
    f, unit = j["f"], j["f"]["unit"]
    if rc != 0:
        return {"refused": True, "left": os.path.exists(path), "said": bool(err.strip()) and rc > 0}
    names, files = read(path)
    if names.count("plot.gp") != 1:
        return {"refused": True, "left": True, "said": False}
    s = files.pop("plot.gp").decode()
    rx = lambda r: (re.findall(r, s, re.M) or [()])[-1]
    lim = lambda a, off: [qr(float(v) / unit - off, 1000) for v in rx(r"^set %srange \[([^:\]]+):([^\]]+)\]" % a)]
    it = items(s)
    plotted = [n for n, _ in it if n]
    w, h = rx(r"^set terminal .* size (\d+), (\d+)")
    g = {"refused": False, "w": int(w), "h": int(h), "x": lim("x", j["off"]), "y": lim("y", 0), "plotted": plotted,
         "files": [n for n in names if n != "plot.gp"], "bar": "\nset colorbox" in s, "gray": "#808080" in s,
         "time": [round(float(v) * 1e6) for v in re.findall(r'"t = ([^"]+)"', s)], "radius": [], "vortices": [], "holders": [], "springs": [],
         "cb": [], "cbz": [], "grids": []}
    j["cs"] = 1
    cb = rx(r"^set cbrange \[([^:\]]+):([^\]]+)\]")
    m = [n for n in ("map_vorticity", "map_velocity_x", "map_velocity_y") if n in files]
    z = sum(matrix(files[m[0]])[2], []) if m else []
    # vorticity goes as one over the unit
    j["cs"] = unit if m and m[0] == "map_vorticity" and not any(o["o"] == "G" and o["a"] and o["a"][0] for o in j["opts"]) else 1
    g["cb"] = [qr(float(v) * j["cs"], 1000) for v in cb]
    g["cbz"] = [qr(v * j["cs"], 1000) for v in z if v or m[0] != "map_vorticity"]
    for n, rest in it:
        if "with circles" in rest:
            g["radius"] = [qr(float(re.search(r"1:2:\(([^)]+)\)", rest).group(1)) / unit, 100)]
    if "vortex_list" in files and "vortex_list" in plotted:
        v = floats(files["vortex_list"])
        g["vortices"] = [[q(a / unit, tol=1e-5) for a in v[k:k + 3]] for k in range(0, len(v), 3)]
    for name, key in (("body_holders", "holders"), ("body_springs", "springs")):
        if name in files:
            try:
                g[key] = [[q(float(t) / unit, tol=1e-5) for t in l.split()] for l in files[name].decode().splitlines()]
            except ValueError:
                g[key] = [[-1]]
    j["files"] = files
    g["outlines"] = []
    for n in sorted(files):
        v = floats(files[n]) if len(files[n]) <= 200 else ()
        g["outlines"].append([n, [[q(a / unit, tol=1e-5) for a in v[k:k + 2]] for k in range(0, len(v), 2)]])
    return g


def last(opts, name, default):
    w = [o["c"] or o["a"] for o in opts if o["o"] == name and (o["c"] or o["a"])]
    return w[-1] if w else default


SCALE = {"map_vorticity": -1, "map_pressure": 0, "map_velocity_x": 0, "map_velocity_y": 0, "map_streamfunction": 1}
KEY = {"map_vorticity": "om", "map_velocity_x": "vx", "map_velocity_y": "vy", "map_streamfunction": "psi"}


def polyline(data, x0, y0, d, t=10000):
    v = floats(data)
    out, cur = [], []
    for k in range(0, len(v) - 1, 2):
        if v[k] != v[k]:
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append([qr((v[k] - x0) / d, t), qr((v[k + 1] - y0) / d, t)])
    if cur:
        out.append(cur)
    return out


def rough(j, z, name, lines, lo, hi, n, cuts, xs, ys):
    """a map and lines over it, its values brought to about 10^5"""
    flat = [v for r in z for v in r] + [lo, hi] + [c[2] for c in cuts]
    if any(v != v or math.isinf(v) for v in flat):
        return None
    big = max(max(flat) - min(flat), hi - lo)
    if not big > 0:
        return None
    sc = 5e4 / big
    mid = (min(min(r) for r in z) + max(max(r) for r in z)) / 2
    if abs(mid) > 300 * big or hi - lo < 0.02 * big or n > 60 or len(z) > 150:
        return None
    # places are kept to single precision: the longer side tells the step best
    d = max((a[-1] - a[0], len(a) - 1) for a in (xs, ys))
    d = d[0] / d[1]
    return {"exact": False, "what": name, "argv": j["argv"], "src": j["f"]["src"], "unit": repr(j["f"]["unit"]), "at": [repr(xs), repr(ys)], "z": [[qr(v - mid, sc) for v in r] for r in z], "cuts": [[a, b, qr(g, sc)] for a, b, g in cuts],
            "levels": [qr(lo - mid, sc), qr(hi - mid, sc), n], "lines": polyline(lines, xs[0], ys[0], d)}


# ------------------------------------------------------- lines of given maps
def field(c, k, unit):
    """a map of integers in a file"""
    rng = c.rng
    nx, ny = rng.randint(2, 7), rng.randint(2, 6)
    x0, y0, d = rng.randint(-20, 20) * unit, rng.randint(-20, 20) * unit, rng.choice([1, 4]) * unit
    m = rng.choice([1, 2, 6, 33, 99])
    z = [[rng.randint(0, m) for _ in range(nx)] for _ in range(ny)]
    if rng.random() < 0.3:
        z = [[(i - 2) * (i - 2) + (j - 2) * (j - 2) for i in range(nx)] for j in range(ny)]
    data = struct.pack("%df" % (nx + 1), nx, *[x0 + d * i for i in range(nx)])
    for j in range(ny):
        data += struct.pack("%df" % (nx + 1), y0 + d * j, *z[j])
    path = "%s/m%d.bin" % (c.scratch, k)
    with open(path, "wb") as o:
        o.write(data)
    lv = rng.choice([None, None, (0, 4, 1), (-1, 7, 0.5), (0.5, 6, 1), (0, 3, 0.1), (0.05, 2, 0.1), (2, 2, 3), (1, 30, 7)])
    return {"path": path, "data": data, "z": z, "levels": lv, "x": (x0, y0, d)}


def levels_of(z, lv):
    """<<times everything by, levels>>"""
    lo, hi = min(map(min, z)), max(map(max, z))
    if lv is None:
        return 33, [33 * lo + k * (hi - lo) for k in range(34)] if hi > lo else [33 * lo]
    a, b, d = (round(20 * v) for v in lv)
    return 20, list(range(a, b + 1, d))


def run(b, c, argv, inp, out, env=None):
    p = sh([b.vvplot, "--tar"] + argv + [inp, out], timeout=120, env=env)
    return p.returncode, p.stderr


def check(c):
    b = build(["vvhd", "vvplot"], ["drv_flow"])
    c.model("ViewportMC", "CONSTANTS MaxOpts = %d R = %d\nINIT Init\nNEXT Next\nINVARIANTS Refusal Sane Square Keeps OneMap Drawn\n"
            % ((4, 2) if c.thorough else (3, 2)))
    c.model("StreamlinesMC", "CONSTANTS W = %d H = 3 V = %d\nINIT Init\nNEXT Next\nINVARIANTS EvenMeets Goes\n" % ((3, 2) if c.thorough else (3, 1)))
    s = Script(b.driver("drv_flow"))
    flows = [flow(c, s, k) for k in range(c.n(24, 200))]
    ans = s.run("flows")
    for f in flows:
        f["info"] = ans[f["info"]]
    jobs = [command(c, flows[k % len(flows)], k) for k in range(c.n(360, 4000))]
    # some of those whose layers are drawn too
    for k, j in enumerate(jobs):
        j["path"] = "%s/a%d.tar" % (c.scratch, k)

    def one(j):
        j["rc"], j["err"] = run(b, c, j["argv"], j["f"]["path"], j["path"])
        j["got"] = got(j, j["path"], j["rc"], j["err"])
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        list(pool.map(one, jobs))
    # what the library says the maps are
    s = Script(b.driver("drv_flow"))
    for j in jobs:
        j["ask"] = {}
        if j["rc"] or j["off"]:
            continue
        for n in sorted(KEY.keys() | {"map_pressure"}):
            if n not in j["files"] or n in [x["label"] for x in j["f"]["bodies"]] and n not in j["got"]["plotted"]:
                continue
            xs, ys, z = matrix(j["files"][n])
            if len(xs) < 2 or len(ys) < 2:
                continue
            frame = last(j["opts"], "ref-P", "s") if n == "map_pressure" else last(j["opts"], "ref-S", "o")
            m = last(j["opts"], "eps", [2])[0]
            s.do("new", 0)
            s.do("load", j["f"]["path"])
            d = (xs[-1] - xs[0]) / (len(xs) - 1)
            j["ask"][n] = s.ask("maps", "o" if frame == "s" or n == "map_vorticity" else frame, m, repr(xs[0]), repr(ys[0]), repr(d), len(xs), len(ys))
            if n == "map_pressure":
                j["pkey"] = "cps" if frame == "s" else "cp"
    ans = s.run("maps")
    events, lines = [], []
    for j in jobs:
        f, unit = j["f"], j["f"]["unit"]
        bs = f["bodies"]
        axis = [q(round(v / unit, 6)) for v in f["info"]["bodies"][0]["axis"][:2]] if bs else [0, 0]
        axes = [[q(round(v / unit, 6)) for v in x["axis"][:2]] for x in f["info"]["bodies"]]
        ev = {"kind": "archive", "exact": unit != 1e-6, "opts": j["opts"],
              "flow": {"bodies": len(bs), "marker": f["marker"], "axis": axis, "time": f["time"], "vort": f["vort"],
                       "names": [x["label"] for x in bs], "plain": [x["plain"] for x in bs], "outlines": [[list(p) for p in x["o"]] for x in bs],
                       "holders": [x["holder"] for x in bs],
                       "springs": [a + [x["holder"][0] - a[0], x["holder"][1] - a[1]] for a, x in zip(axes, bs)]},
              "got": j["got"]}
        for n, ask in j["ask"].items():
            m = ans[ask]
            xs, ys, z = matrix(j["files"][n])
            want = m[j["pkey"] if n == "map_pressure" else KEY[n]]
            if want == "refused":
                continue
            sc = 1000 / unit ** SCALE[n]
            # the jump behind a source: which side a row is on must be clear
            if n == "map_streamfunction" and any(abs(y / unit - sy) < 1e-3 for y in ys for _, sy, _ in f["src"]):
                want = sum(z, [])
            ev["got"]["grids"].append({"name": n, "x": [qr(v / unit, 1000) for v in xs], "y": [qr(v / unit, 1000) for v in ys],
                                       "z": [qr(v, sc) for r in z for v in r], "want": [qr(v, sc) for v in want]})
        events.append(ev)
        if j["rc"]:
            continue
        files = j["files"]
        if "isopressure" in j["got"]["plotted"] and "map_pressure" in files:
            xs, ys, z = matrix(files["map_pressure"])
            p = last(j["opts"], "P", [-1500, 1000])
            if p[1] > p[0] and xs:
                lines.append(rough(j, z, "isopressure", files.get("isopressure", b""), p[0] / 1000, p[1] / 1000, 33, [], xs, ys))
        if "streamlines" in j["got"]["plotted"] and "map_streamfunction" in files:
            xs, ys, z = matrix(files["map_streamfunction"])
            l = last(j["opts"], "S", None)
            lo, hi = min(map(min, z)), max(map(max, z))
            a = (l[0], l[1], (l[1] - l[0]) // l[2]) if l else (lo, hi, 33)
            src = [[v * unit for v in x] for x in f["src"]]
            clear = all(abs(y - sy) > 1e-3 * unit for y in ys for _, sy, _ in src) and all(abs(x - sx) > 1e-3 * unit for x in xs for sx, _, _ in src)
            cuts = [[max(i for i in range(len(xs)) if xs[i] < sx), max(k for k in range(len(ys)) if ys[k] < sy), g]
                    for sx, sy, g in src if xs[0] < sx and ys[0] < sy < ys[-1]]
            if a[2] and clear:
                lines.append(rough(j, z, "streamlines", files.get("streamlines", b""), *a, cuts, xs, ys))
    lines = [x for x in lines if x]
    # lines of maps of integers
    maps = [field(c, k, c.rng.choice([1, 1 / 1024])) for k in range(c.n(90, 2000))]

    def two(m):
        m["out"] = m["path"] + ".tar"
        m["rc"], m["err"] = run(b, c, ["-x", "0,1", "-y", "0,1", "-S" if not m["levels"] else "--S=" + ",".join(map(repr, m["levels"])),
                                       "--load-field", m["path"]], flows[5]["path"], m["out"])
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        list(pool.map(two, maps))
    for m in maps:
        if m["rc"]:
            c.expect_valid("StreamlinesTrace", [{"exact": True, "z": [], "failed": m["err"][-200:]}], "a map drawn from a file", context={"map": m["z"], "levels": m["levels"]})
        _, files = read(m["out"])
        t, lv = levels_of(m["z"], m["levels"])
        z = [[t * v for v in r] for r in m["z"]]
        x0, y0, d = m["x"]
        same = files.get("map_streamfunction") == m["data"]
        lines.append({"exact": True, "z": z if same else [[]], "cuts": [], "levels": lv, "generic": not set(lv) & {v for r in z for v in r},
                      "lines": polyline(files.get("streamlines", b""), x0, y0, d)})
    # images
    fake = c.scratch + "/bin"
    os.makedirs(fake)
    with open(fake + "/gnuplot", "w") as o:
        o.write(FAKE)
    os.chmod(fake + "/gnuplot", 0o755)
    drawn = [j for j in jobs if not j["rc"]][:c.n(60, 600)]
    drawn += [j for j in jobs if not j["rc"] and any(not x["plain"] or x["label"] in ("black", "%2float", "#adadad") for x in j["f"]["bodies"])][:30]

    def three(k_j):
        k, j = k_j
        out, png, direct = "%s/i%d" % (c.scratch, k), "%s/i%d.png" % (c.scratch, k), k % 3
        wrote = "image %d" % k
        if k % 2:
            with open(png, "w") as o:
                o.write("an older and longer image " * 20)
        env = dict(os.environ)
        env.update({"PATH": fake + ":" + env["PATH"], "FAKE_OUT": out, "FAKE_PNG": wrote})
        inp = j["path"]
        if k % 9 == 0:
            # a layer larger than any stack
            inp = "%s/fat%d.tar" % (c.scratch, k)
            shutil.copy(j["path"], inp)
            with tarfile.open(inp, "a") as t:
                i = tarfile.TarInfo("extra")
                i.size = 12 << 20
                t.addfile(i, io.BytesIO(bytes(i.size)))
        argv = [b.vvplot] + (j["argv"] + [j["f"]["path"]] if direct else [inp]) + [png]
        p = sh(argv, timeout=120, env=env)
        dg = lambda x: hashlib.sha1(x).hexdigest()[:10]
        _, files = read(j["path"])
        a = files["plot.gp"].decode()
        ev = {"kind": "image", "kept": [dg(files.get(n, b"?")) for n, _ in items(a) if n], "drawn": [], "script": False, "wrote": wrote,
              "image": "none", "rc": p.returncode}
        if p.returncode == 0 and os.path.exists(out + "/plot.gp"):
            with open(out + "/plot.gp") as o:
                t = o.read()
            for n, _ in items(t):
                if n:
                    path = out + "/" + n[8:] if n.startswith("/dev/fd/") else None
                    ev["drawn"].append(dg(open(path, "rb").read()) if path and os.path.exists(path) else "none")
            names = iter([n for n, _ in items(a) if n])
            back = re.sub(r"^( +)'/dev/fd/\d+'", lambda m: m.group(1) + "'" + next(names, "?") + "'", t, flags=re.M)
            strip = lambda x: "\n".join(l for l in x.splitlines() if not l.startswith("#"))
            ev["script"] = strip(back) == strip(a)
            with open(png) as o:
                ev["image"] = o.read()[:60]
        return ev
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        images = list(pool.map(three, enumerate(drawn)))
    # where nothing can be written
    for k, j in enumerate(drawn[:12]):
        where = ["/dev/full", c.scratch + "/no/such/place.tar"][k % 2]
        rc, err = run(b, c, j["argv"], j["f"]["path"], where)
        images.append({"kind": "nowhere", "where": where, "refused": rc > 0 and bool(err.strip())})
    # into a folder: by the name of the flow
    for k, j in enumerate(drawn[12:20]):
        d = "%s/dir%d" % (c.scratch, k)
        os.makedirs(d)
        rc, err = run(b, c, j["argv"], j["f"]["path"], d + ["", "/"][k % 2])
        kept, new = read(j["path"]), d + "/" + os.path.basename(j["f"]["path"])[:-3] + ".tar"
        there = read(new) if os.path.exists(new) else ([], {})
        cut = lambda x: {n: v for n, v in x[1].items() if n != "plot.gp"}
        images.append({"kind": "folder", "left": sorted(os.listdir(d)), "named": [os.path.basename(new)], "same": cut(there) == cut(kept)})
    c.notes["archives"] = len(events)
    c.notes["refused"] = sum(1 for j in jobs if j["rc"])
    c.notes["layers_compared"] = sum(len(e["got"].get("grids", [])) for e in events)
    c.notes["maps_with_lines"] = len(lines)
    c.notes["images"] = len(images)
    for j in jobs[:4]:
        c.sample({"argv": j["argv"], "refused": bool(j["rc"])})
    for e, j in zip(events, jobs):
        e["argv"] = j["argv"]
    c.expect_all("ViewportTrace", events + images, "archives")
    c.expect_all("StreamlinesTrace", lines, "lines")
