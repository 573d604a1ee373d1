"""The output schedule of runs: real runs against spec/RunLoop.tla."""
import os

from vv.common import Violation, build
from vv import runs

DYADIC = (1, 2, 4, 8, 16)


def pick(rng, thorough=False):
    D = rng.choice([1, 2, 4, 8, 16, 10, 20, 25, 100, 3, 7])
    while True:
        dt = rng.choice([1, 1, 2, 3, 4, 5, 7])
        save = rng.choice([0, dt, 2 * dt, 3 * dt, 1, 2, 3, 5, 6, 4 * dt, 20 * dt])
        streak = rng.choice([0, dt, 2 * dt, 1, 3, 5])
        t0 = rng.choice([0, 0, 0, -dt, -2 * dt, -3 * dt + 1, 1, 2, dt, 5 * dt, -7, 40])
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 34] + ([90] if thorough else []))
        fin2 = 2 * t0 + 2 * n * dt + rng.choice([0, 0, 1, -1, 2, dt, -dt])
        cf = {"dt": dt, "save": save, "streak": streak, "fin2": fin2, "nsrc": rng.choice([0, 1, 3])}
        if fine(cf, t0, D):
            return D, cf, t0


def fine(cf, t0, D):
    """no ties that depend on how 1/D is rounded"""
    if D in DYADIC:
        return True
    dt = cf["dt"]
    return (cf["fin2"] + dt - 2 * t0) % (2 * dt) != 0 and (2 * t0 + dt) % (2 * dt) != 0


BODY = "S.body_list:insert(gen_cylinder{R=0.5,N=8})\n"
BODY2 = BODY + "local b2=gen_plate{R1=0.1,R2=0.1,L=0.7,N=9} b2:move_r{3,0} S.body_list:insert(b2)\n"


def observe(b, d, cap, D, ntold=None):
    sn, broken, _ = runs.snaps(b, d, cap, D, digests=False)
    if broken:
        raise Violation("a run left %d unreadable or misnamed files in its results directory" % broken)
    rows, cols, j = runs.stepdata(b, d, cap, D)
    if rows is None:
        raise Violation("the diagnostic file of a complete run is unreadable")
    return sn, [{"t": r["t"], "d": "", "f": ""} for r in rows], cols, j


def story(c, b, k, events):
    rng = c.rng
    D, cf, t0 = pick(rng, c.thorough)
    d = c.scratch + "/s%d" % k
    os.makedirs(d)
    cap = rng.choice(["", "a", "flow_1", "with space", "c" * 60, "p%d%s"])
    body = rng.choice(["", "", BODY, BODY2])
    prof = rng.random() < 0.4
    flags = ["--profile"] if prof else []
    parts = [(cf, t0, False)]
    for _ in range(rng.choice([0, 0, 1, 2])):
        # another simulate() in the same script
        prev, pt, _x = parts[-1]
        end = endof(prev, pt)
        cf2 = dict(prev)
        how = rng.choice(["later", "dt", "save", "same", "back"])
        tt = end
        if how == "later":
            cf2["fin2"] = prev["fin2"] + 2 * rng.randint(1, 9)
        elif how == "dt":
            cf2["dt"] = rng.choice([1, 2, 3])
            cf2["fin2"] = prev["fin2"] + 2 * rng.randint(1, 9)
        elif how == "save":
            cf2["save"] = rng.choice([0, 1, 2, 4, 2 * cf2["dt"]])
            cf2["fin2"] = prev["fin2"] + 2 * rng.randint(1, 9)
        elif how == "back":
            tt = end - rng.randint(0, 4) * prev["dt"]
        if not fine(cf2, tt, D) or any(
            abs(tt + x * cf2["dt"]) > 10**6 for x in (0, 1)
        ):
            continue
        parts.append((cf2, tt, how == "back"))
    lua = "S.caption=%r\nS.re=%s\nS.inf_vx='0'\n" % (
        cap, rng.choice(["inf", "100", "7.5"]))
    lua += body
    for s in range(cf["nsrc"]):
        lua += "S.streak_source_list:append{%d,%d,1}\n" % (-50 - s, 40 + 3 * s)
    lua += "local stop = tonumber(arg[1])\n"
    for n, (f, t, _b) in enumerate(parts):
        lua += "if stop >= %d then\n%ssimulate()\nprint(S.time)\nend\n" % (n, runs.config_lua(f, t, D))
    with open(d + "/a.lua", "w") as fh:
        fh.write(lua)
    events.append({"op": "fresh"})
    sub = []
    for n, (f, t, back) in enumerate(parts):
        # the n-th prefix of the script, in a fresh directory
        dd = d + "/%d" % n
        os.makedirs(dd)
        p = runs.vvflow(b, dd, flags + ["../a.lua", str(n)])
        runs.check_exit(p, "a plain run")
        told = p.stdout.split()
        if len(told) != n + 1:
            raise Violation("a script with %d runs reported %r" % (n + 1, told))
        sn, rows, cols, j = observe(b, dd, cap, D)
        nb = 0 if not body else (1 if body == BODY else 2)
        want = nb * (6 + (2 if prof else 0))
        if len(cols) != want:
            raise Violation("the diagnostic file holds %d body datasets, not %d (profile %s)"
                            % (len(cols), want, prof))
        others = set(os.listdir(dd)) - {"results_" + cap, "stepdata_" + cap + ".h5"}
        if others:
            raise Violation("a run left unexpected files %s" % sorted(others))
        events.append({"op": "config", "cf": f, "t": t})
        events.append({"op": "run", "snaps": sn, "rows": rows, "cols": cols, "exempt": [],
                       "sens": False, "lines": [], "told": True,
                       "tend": near_ticks(float(told[-1]), D)})
        sub.append({"D": D, "cf": f, "t0": t})
    if len(parts) == 1 and rng.random() < 0.5:
        # the script once more, with another finish, over the same files
        f, t = dict(cf), t0
        f["fin2"] += 2 * cf["dt"] * rng.choice([-3, -1, 0, 2])
        with open(d + "/b.lua", "w") as fh:
            fh.write(lua.replace(runs.config_lua(cf, t0, D), runs.config_lua(f, t, D)))
        p = runs.vvflow(b, dd, flags + ["../b.lua", "0"])
        runs.check_exit(p, "a run repeated over existing files")
        sn, rows, cols, j = observe(b, dd, cap, D)
        events.append({"op": "restart"})
        events.append({"op": "config", "cf": f, "t": t})
        events.append({"op": "run", "snaps": sn, "rows": rows, "cols": cols, "exempt": [],
                       "sens": False, "lines": [], "told": True,
                       "tend": near_ticks(float(p.stdout.split()[-1]), D)})
    return sub


def near_ticks(x, D):
    r = round(x * D)
    return int(r) if abs(x * D - r) < 1e-6 * max(1, abs(r)) else runs.BAD


def endof(cf, t0):
    dd = cf["fin2"] + cf["dt"] - 2 * t0
    n = 0 if dd <= 0 else -(-dd // (2 * cf["dt"]))
    return t0 + n * cf["dt"]


def refusals(c, b, events):
    for k, re in enumerate(["0", "-1", "-inf", "-1e-300"]):
        d = c.scratch + "/r%d" % k
        os.makedirs(d)
        with open(d + "/a.lua", "w") as f:
            f.write("S.re=%s S.dt={1,10} S.finish=1 S.dt_save={1,10}\nsimulate()\n" % re)
        p = runs.vvflow(b, d, ["a.lua"])
        if "re<=0" not in p.stderr and "ERROR" not in p.stderr and p.returncode == 0:
            raise Violation("Re=%s was not refused" % re)
        events.append({"op": "refused", "files": len(os.listdir(d)) - 1})


def check(c):
    b = build(["vvflow"])
    c.model("RunLoopMC",
            "CONSTANTS MaxT = %d MaxCrash = 0\nINIT Init\nNEXT Next\nVIEW View\n" % c.n(6, 9)
            + "INVARIANTS Complete Named Times RowsGrow\n")
    events = []
    refusals(c, b, events)
    n = c.n(90, 900)
    for k in range(n):
        s = story(c, b, k, events)
        if k < 8:
            c.sample(s)
    c.notes["stories"] = n
    c.expect_valid("RunLoopTrace", events, "a run did not follow its schedule")
