"""Sensor files of real runs against spec/RunLoop.tla."""
import os

from vv.common import Violation, build, qr
from vv import flows, runs
from vv.props.p02 import fine, near_ticks

SEPS = [("\n", " "), ("\n", "\t"), (" ", " "), ("\n\n", "  ")]


def probe_text(rng, probes):
    a, s = rng.choice(SEPS)
    t = a.join("%r%s%r" % (x, s, y) if rng.random() < 0.7 else "%.17e%s%+.17g" % (x, s, y)
               for x, y in probes)
    return rng.choice(["", "\n", "  "]) + t + rng.choice(["", "\n"])


def lines_of(path, D, nprobes, skip):
    """(times in ticks, rows of printed velocities); the first skip lines are
    the user's own"""
    with open(path) as f:
        text = f.read()
    if text and not text.endswith("\n"):
        raise Violation("the sensor file ends in the middle of a line")
    res = []
    for l in text.split("\n")[skip:-1]:
        p = l.split()
        if len(p) != 1 + 2 * nprobes:
            raise Violation("a sensor line holds %d numbers, not a time and %d velocities: %r"
                            % (len(p), nprobes, l[:200]))
        res.append((near_ticks(float(p[0]), D), [(p[1 + 2 * k], p[2 + 2 * k]) for k in range(nprobes)]))
    return res


def story(c, b, k, events):
    rng = c.rng
    name = rng.choice(["uniform", "uniform"] + sorted(flows.FLOWS) + ["cylinder", "rotating"])
    D = rng.choice([2, 4, 8, 16]) if name == "uniform" else rng.choice([10, 16, 20])
    t0 = rng.choice([0, 0, -3, 2])
    while True:
        cf = {"dt": rng.choice([1, 1, 2, 3]), "save": rng.choice([1, 2]), "streak": rng.choice([0, 1]),
              "fin2": 2 * t0 + rng.randint(0, 2 * c.n(8, 20)), "nsrc": -1}
        if fine(cf, t0, D):
            break
    if name != "uniform":
        cf["dt"] = 1
        if not fine(cf, t0, D):
            return None
    d = c.scratch + "/s%d" % k
    os.makedirs(d)
    cap = rng.choice(["", "a", "run 2", "b.c"])
    n = rng.choice([0, 1, 1, 2, 3, 7, 25])
    spots = [(0.0, 0.0), (1.5, -2.25), (0.1, 0.7), (-3.0, 1e-3), (12.0, 5.0), (39.5, 24.8), (40.3, 25.5), (0.55, 0.0), (0.4, -0.41)]
    probes = [rng.choice(spots) if rng.random() < 0.5
              else (rng.uniform(-3, 3), rng.uniform(-2, 2)) for _ in range(n)]
    ptext = probe_text(rng, probes) if n else rng.choice(["", "\n", " "])
    with open(d + "/probes", "w") as f:
        f.write(ptext)
    u = [rng.randint(-3, 3) for _ in range(4)]
    if name == "uniform":
        lua = "S.re=%s S.inf_vx='%d+%d*t' S.inf_vy='%d+(%d)*t'\n" % (
            rng.choice(["inf", "10"]), u[0], u[1], u[2], u[3])
        if rng.random() < 0.5:
            lua += "S.streak_source_list:append{0,0,1}\n"
        lua = lua.replace("+-", "-")
    else:
        lua = flows.FLOWS[name]
    lua = "S.caption=%r\n" % cap + lua
    out = d + "/velocity_" + cap
    skip = 0
    if n and rng.random() < 0.4:
        # lines of an earlier run, or the user's own
        skip = rng.randint(1, 3)
        own = "".join("# line %d\n" % x for x in range(skip))
        with open(out, "w") as f:
            f.write(own)
    with open(d + "/a.lua", "w") as f:
        f.write(lua + runs.config_lua(cf, t0, D) + "simulate()\n")
    opt = rng.choice([["-s", "probes"], ["--sensors", "probes"], ["--sensors=probes"]])
    args = opt + ["a.lua"]
    events.append({"op": "fresh"})
    events.append({"op": "config", "cf": cf, "t": t0})

    def observe(what):
        if n == 0:
            if os.path.exists(out):
                raise Violation("a sensor file was written without any probe")
            lines = []
        elif not os.path.exists(out):
            raise Violation("%s with %d probes wrote no sensor file" % (what, n))
        else:
            if skip:
                with open(out) as f:
                    if not f.read().startswith(own):
                        raise Violation("%s did not keep the lines that were there" % what)
            lines = lines_of(out, D, n, skip)
        sn, broken, _ = runs.snaps(b, d, cap, D)
        rows, cols, j = runs.stepdata(b, d, cap, D)
        if broken or rows is None:
            raise Violation("unreadable files")
        events.append({"op": "run", "flow": name, "snaps": sn, "rows": rows, "cols": cols, "exempt": [],
                       "sens": n > 0, "lines": [t for t, _ in lines], "told": False, "tend": 0})
        return lines, sn

    runs.check_exit(runs.vvflow(b, d, args), "a run with sensors")
    lines, sn = observe("a run")
    if rng.random() < 0.5 and sn:
        # resumed from one of its snapshots: the lines follow
        s = rng.choice(sn)
        snap = "results_%s/%06d.h5" % (cap, s["idx"])
        j = runs.dump(b, d + "/" + snap)
        if name != "stop":
            events.append({"op": "resume", "idx": s["idx"]})
            runs.check_exit(runs.vvflow(b, d, opt + [snap]), "a resumed run with sensors")
            lines, sn = observe("a resumed run")
    # what is said about a place at a time is always the same
    for t, vs in lines:
        for p, v in zip(probes, vs):
            events.append({"op": "fact", "k": "probe:%r,%r" % p, "t": t, "d": "%s %s" % v})
            if name == "uniform":
                events.append({"op": "stream", "t": t, "u": [u[0] * D, u[1], u[2] * D, u[3]],
                               "v": [near_ticks(float(v[0]), D), near_ticks(float(v[1]), D)]})
    if n and name != "stop":
        for s in sn:
            p = runs.sh([b.driver("probe"), "results_%s/%06d.h5" % (cap, s["idx"]), "probes"], cwd=d)
            got = [tuple(l.split()) for l in p.stdout.split("\n") if l]
            if len(got) != n:
                raise Violation("the probes of a snapshot cannot be evaluated: " + p.stderr[-300:])
            for q, v in zip(probes, got):
                events.append({"op": "fact", "k": "probe:%r,%r" % q, "t": s["t"], "d": "%s %s" % v[:2]})
                if v[5] == "1":
                    # cells are taken as one particle only from afar
                    x = [float(a) for a in v[:5]]
                    tol = 0.05 * x[4] + 2e-5 * (1 + abs(x[2]) + abs(x[3]))
                    events.append({"op": "near", "a": [qr(x[0], 1e6), qr(x[1], 1e6)],
                                   "b": [qr(x[2], 1e6), qr(x[3], 1e6)], "tol": qr(tol, 1e6)})
    return {"flow": name, "D": D, "cf": cf, "t0": t0, "probes": n}


def check(c):
    b = build(["vvflow"], ["probe"])
    c.model("RunLoopMC",
            "CONSTANTS MaxT = %d MaxCrash = 0\nINIT Init\nNEXT Next\nVIEW View\n" % c.n(5, 9)
            + "INVARIANTS Complete Times RowsGrow\n")
    events = []
    k = 0
    for _ in range(c.n(60, 500)):
        s = story(c, b, k, events)
        k += 1
        if s and k < 12:
            c.sample(s)
    c.notes["stories"] = k
    # without a probe file nothing is written and the user is told
    d = c.scratch + "/missing"
    os.makedirs(d)
    with open(d + "/a.lua", "w") as f:
        f.write("S.re=inf S.dt={1,10} S.finish=0.3\nsimulate()\n")
    p = runs.vvflow(b, d, ["-s", "nothing", "a.lua"])
    if "nothing" not in p.stderr:
        raise Violation("a missing probe file was not reported")
    if os.path.exists(d + "/velocity_"):
        raise Violation("a sensor file was written without any probe")
    c.expect_valid("RunLoopTrace", events, "the sensor file")
