"""Interrupted and resumed runs against spec/RunLoop.tla."""
import os
import shutil

from vv.common import Violation, build
from vv import flows, runs


def observe(b, d, cap, D):
    sn, broken, _ = runs.snaps(b, d, cap, D)
    if broken:
        raise Violation("a run left %d unreadable or misnamed files" % broken)
    rows, cols, j = runs.stepdata(b, d, cap, D, split=True)
    if rows is None:
        raise Violation("the diagnostic file of a complete run is unreadable")
    return sn, rows, cols, j["profs"], any(k.startswith("body") for k in j)


class Story:
    def __init__(self, c, b, name, cf, t0, D, profile, events):
        self.c, self.b, self.name, self.cf, self.t0, self.D = c, b, name, cf, t0, D
        self.profile = profile
        self.events = events
        self.cap = "x"
        self.n = 0
        self.base = c.scratch + "/" + name + "_%d" % len(os.listdir(c.scratch))
        os.makedirs(self.base)
        self.lua = "S.caption='x'\n" + flows.FLOWS[name]

    def script(self, cf, load=None):
        head = self.lua if load is None else "S:load(%r)\n" % load
        times = runs.config_lua(cf, self.t0, self.D)
        if load is not None:
            times = "S.finish=%r\n" % (cf["fin2"] / 2.0 / self.D)
        return head + times + "simulate()\n"

    def run(self, d, args, what, op, cols=True):
        # every life of a run records profiles or does not
        prof = self.profile if self.profile is not None else self.c.rng.random() < 0.5
        p = runs.vvflow(self.b, d, (["--profile"] if prof else []) + args)
        runs.check_exit(p, "%s (flow %s)" % (what, self.name))
        sn, rows, nc, pc, bodies = observe(self.b, d, self.cap, self.D)
        self.events += op
        self.events.append({
            "op": "run", "flow": self.name, "snaps": sn, "rows": rows, "cols": nc, "exempt": [],
            "sens": False, "lines": [], "told": False, "tend": 0, "prof": prof and bodies, "pcols": pc,
        })
        return sn, rows

    def cfe(self, cf):
        return {"op": "config", "cf": dict(cf, nsrc=-1), "t": self.t0}

    def reference(self):
        d = self.base + "/ref"
        os.makedirs(d)
        with open(d + "/a.lua", "w") as f:
            f.write(self.script(self.cf))
        sn, rows = self.run(d, ["a.lua"], "a run", [{"op": "fresh"}, self.cfe(self.cf)])
        self.ref = {"snaps": {s["idx"]: s for s in sn}, "rows": {r["t"]: r for r in rows}}
        self.dir = d

    def resume(self, d, idx, cf=None):
        """continue in d from snapshot idx; with cf, through a script that
        changes the finish time"""
        t = self.ref["snaps"][idx]["t"]
        op = [{"op": "resume", "idx": idx}]
        name = "results_x/%06d.h5" % idx
        if cf is None:
            sn, rows = self.run(d, [name], "a resumed run", op)
        else:
            with open(d + "/r.lua", "w") as f:
                f.write(self.script(cf, load=name))
            # loading goes on at the time of the snapshot
            op = op + [{"op": "config", "cf": dict(cf, nsrc=-1), "t": t}]
            sn, rows = self.run(d, ["r.lua"], "a resumed run", op)

    def limits(self, d, idx):
        """does a body stand exactly at a limit in this snapshot"""
        j = runs.dump(self.b, d + "/results_x/%06d.h5" % idx)
        for n, o in j.items():
            if not n.startswith("body"):
                continue
            a = o["@"]
            for c in "xyo":
                p = runs.num(a["holder_position"][c]) + runs.num(a["delta_position"][c])
                for lim in ("collision_min", "collision_max"):
                    if abs(p - runs.num(a[lim][c])) < 1e-12:
                        return True
        return False

    def resume_at_limit(self, idx):
        """the collision itself is not in the snapshot (known finding)"""
        self.n += 1
        d = self.base + "/%d" % self.n
        shutil.copytree(self.dir, d)
        p = runs.vvflow(self.b, d, ["results_x/%06d.h5" % idx])
        runs.check_exit(p, "a resumed run")
        sn = observe(self.b, d, self.cap, self.D)[0]
        for s in sn:
            if s["d"] != self.ref["snaps"].get(s["idx"], {}).get("d"):
                self.c.finding(
                    "resume-at-collision",
                    "resumed from a snapshot with a body at its collision limit, snapshot %d of "
                    "flow %s differs" % (s["idx"], self.name))
                return

    def again(self, cf):
        self.n += 1
        d = self.base + "/%d" % self.n
        os.makedirs(d)
        with open(d + "/a.lua", "w") as f:
            f.write(self.script(cf))
        self.run(d, ["a.lua"], "a run", [{"op": "again"}, self.cfe(cf)])
        return d

    def done(self):
        shutil.rmtree(self.base)


def check(c):
    b = build(["vvflow"])
    c.model("RunLoopMC",
            "CONSTANTS MaxT = %d MaxCrash = 0\nINIT Init\nNEXT Next\nVIEW View\n" % c.n(6, 9)
            + "INVARIANTS Complete Safe Times RowsGrow\nPROPERTY Monotone\n")
    rng = c.rng
    events = []
    names = sorted(flows.FLOWS)
    rounds = c.n(1, 8)
    resumed = 0
    cf = {"dt": 1, "save": 1, "streak": 0, "fin2": 40, "nsrc": -1}
    s = Story(c, b, "stop", cf, 0, 20, False, events)
    s.reference()
    lim = [i for i in sorted(s.ref["snaps"]) if s.limits(s.dir, i)]
    c.notes["snapshots_at_a_limit"] = len(lim)
    for idx in lim:
        s.resume_at_limit(idx)
    s.done()
    for r in range(rounds):
        for name in names:
            D = rng.choice([20, 16, 10])
            save = rng.choice([1, 2, 3])
            t0 = rng.choice([0, 0, -2, -3])
            cf = {"dt": 1, "save": save, "streak": rng.choice([0, 1, 2]),
                  "fin2": 2 * rng.randint(8, c.n(10, 24)), "nsrc": -1}
            s = Story(c, b, name, cf, t0, D, rng.choice([False, True, None, None, None]), events)
            s.reference()
            idxs = sorted(s.ref["snaps"])
            for idx in [i for i in idxs if s.limits(s.dir, i)]:
                idxs.remove(idx)
                s.resume_at_limit(idx)
            if len(idxs) < 2:
                s.done()
                continue
            # one after the other in the same directory, back and forth
            d = s.dir
            for idx in rng.sample(idxs, min(len(idxs), c.n(2, 5))):
                s.resume(d, idx)
                resumed += 1
            # interrupted early, resumed with the finish moved out, then once
            # more from a snapshot of the second life
            cut = dict(cf, fin2=2 * rng.randint(3, 6))
            d = s.again(cut)
            have = [i for i in idxs if 2 * s.ref["snaps"][i]["t"] < cut["fin2"] + cut["dt"]]
            if have:
                s.resume(d, have[-1], cf)
                s.resume(d, rng.choice(idxs))
                resumed += 2
                # resumed from an earlier one, but not to the end
                s.resume(d, have[0], cut)
                resumed += 1
            s.done()
            c.sample({"flow": name, "D": D, "cf": cf, "t0": t0})
    c.notes["resumptions"] = resumed
    c.expect_valid("RunLoopTrace", events, "a resumed run is not the continuation")
