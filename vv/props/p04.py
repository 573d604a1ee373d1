"""Runs killed at any file-system operation, and continued, against RunLoop."""
import concurrent.futures
import os
import shutil

from vv.common import Violation, build
from vv import flows, runs


class Killer:
    """one flow, killed everywhere"""

    def __init__(self, c, b, name, cf, t0, D, profile, first, tag):
        self.c, self.b, self.name, self.cf, self.t0, self.D = c, b, name, cf, t0, D
        self.flags = ["--profile"] if profile else []
        self.first = first           # resume from this snapshot (None: fresh run)
        self.base = c.scratch + "/" + tag
        os.makedirs(self.base + "/ref")
        self.lua = ("S.caption='x'\n" + flows.FLOWS[name]
                    + runs.config_lua(cf, t0, D) + "simulate()\n")
        with open(self.base + "/a.lua", "w") as f:
            f.write(self.lua)
        self.dir0 = None

    def cfe(self):
        return {"op": "config", "cf": dict(self.cf, nsrc=-1), "t": self.t0}

    def run(self, d, args, log=None, at=None):
        env = {}
        if log:
            env = {"LD_PRELOAD": self.b.shim, "VV_KILL_LOG": log}
            if at:
                env["VV_KILL_AT"] = str(at)
        return runs.vvflow(self.b, d, self.flags + args, env=env)

    def observe(self, d, what):
        sn, broken, _ = runs.snaps(self.b, d, "x", self.D)
        if broken:
            raise Violation("%s (flow %s) left %d unreadable files" % (what, self.name, broken))
        rows, cols, _j = runs.stepdata(self.b, d, "x", self.D)
        if rows is None:
            raise Violation("%s (flow %s): the diagnostic file is unreadable" % (what, self.name))
        return {"op": "run", "snaps": sn, "rows": rows, "cols": cols, "exempt": [],
                "sens": False, "lines": [], "told": False, "tend": 0}

    def reference(self):
        d = self.base + "/ref"
        runs.check_exit(self.run(d, ["../a.lua"]), "a run")
        ev = [{"op": "fresh"}, self.cfe(), self.observe(d, "a run")]
        self.args = ["../a.lua"]
        if self.first is not None:
            have = sorted(s["idx"] for s in ev[-1]["snaps"])
            self.first = have[min(self.first, len(have) - 1)]
            self.args = ["results_x/%06d.h5" % self.first]
        self.idle = ev[-1]["snaps"]
        # the number of operations of the life that is to be killed
        p = self.base + "/probe"
        self.start(p)
        log = self.base + "/probe.log"
        runs.check_exit(self.run(p, self.args, log=log), "a run")
        with open(log) as f:
            self.ops = len(f.readlines())
        shutil.rmtree(p)
        return ev

    def start(self, d):
        if self.first is None:
            os.makedirs(d)
        else:
            shutil.copytree(self.base + "/ref", d, symlinks=True)

    def killed(self, d, args, n, tag):
        """kill at the n-th operation; the event, and whether the diagnostic
        file was being written at that moment"""
        log = self.base + "/%s.log" % tag
        before = stats(d)
        p = self.run(d, args, log=log, at=n)
        if p.returncode != 137:
            raise Violation("a run of flow %s ended with %d: %s"
                            % (self.name, p.returncode, p.stderr[-500:]))
        with open(log) as f:
            ops = [x.split(None, 2) for x in f.read().splitlines()]
        os.remove(log)
        step = [("stepdata_" in x[2]) for x in ops]
        made = os.path.exists(d + "/stepdata_x.h5")
        torn = len(step) >= 2 and step[-1] and step[-2]
        sn, broken, _ = runs.snaps(self.b, d, "x", self.D)
        after = stats(d)
        new = [s["idx"] for s in sn if after.get(s["idx"]) != before.get(s["idx"])]
        front = max(new) if new else (self.first if self.first is not None else -1)
        return {"op": "killed", "snaps": sn, "broken": broken, "lost": False, "front": front}, torn, made

    def one(self, n, second):
        """events of one kill story"""
        tag = "k%d_%d" % (n, second or 0)
        d = self.base + "/" + tag
        self.start(d)
        ev = [{"op": "again"}, self.cfe()]
        if self.first is not None:
            ref = self.observe(d, "a run")
            ev += [ref, {"op": "resume", "idx": self.first}]
        e, torn, made = self.killed(d, self.args, n, tag)
        ev.append(e)
        finding = None
        if e["front"] < 0:
            args, how = ["../a.lua"], [{"op": "rerun"}, self.cfe()]
        else:
            args, how = ["results_x/%06d.h5" % e["front"]], [{"op": "resume", "idx": e["front"]}]
        if second and not torn:
            keep = self.first
            self_first = e["front"] if e["front"] >= 0 else None
            k = Killer.__new__(Killer)
            k.__dict__.update(self.__dict__)
            k.first = self_first
            try:
                e2, torn2, made = k.killed(d, args, second, tag + "s")
            except Violation as v:
                if "ended with 0" not in str(v):
                    raise
                e2 = None
            if e2:
                ev += how + [e2]
                torn = torn2
                if e2["front"] < 0:
                    args, how = ["../a.lua"], [{"op": "rerun"}, self.cfe()]
                else:
                    args = ["results_x/%06d.h5" % e2["front"]]
                    how = [{"op": "resume", "idx": e2["front"]}]
                e = e2
        # go on to the end
        if torn:
            d2 = d + "_t"
            shutil.copytree(d, d2)
            p = self.run(d2, args)
            bad = p.returncode != 0
            if not bad:
                # only the diagnostic file matters here; it may still be torn
                rows = runs.stepdata(self.b, d2, "x", self.D)[0]
                bad = rows is None or [r["t"] for r in rows] != self.reftimes or any(
                    r["d"] != q["d"] or r["f"] != q["f"] for r, q in zip(rows, self.refrows))
            if bad:
                finding = n
                # without the torn file the flow itself must go on
                if os.path.exists(d + "/stepdata_x.h5"):
                    os.remove(d + "/stepdata_x.h5")
                ev.append({"op": "cleared"})
            shutil.rmtree(d2)
        p = self.run(d, args)
        if p.returncode != 0:
            raise Violation(
                "a run of flow %s killed at operation %d cannot be continued: exit status %d: %s"
                % (self.name, n, p.returncode, p.stderr[-500:]))
        ev += how + [self.observe(d, "a run continued after a kill at operation %d" % n)]
        shutil.rmtree(d)
        return ev, finding


def stats(d):
    res = {}
    r = d + "/results_x"
    if os.path.isdir(r):
        for f in os.listdir(r):
            if f.endswith(".h5"):
                s = os.stat(r + "/" + f)
                res[int(f[:-3])] = (s.st_ino, s.st_mtime_ns)
    return res


def check(c):
    b = build(["vvflow"])
    c.model("RunLoopMC",
            "CONSTANTS MaxT = %d MaxCrash = %d\nINIT Init\nNEXT Next\nVIEW View\n" % c.n((4, 1), (4, 2))
            + "INVARIANTS Complete Safe Times RowsGrow\nPROPERTY Monotone\n")
    rng = c.rng
    stories = [("cylinder", None, False), ("three", 1, True)]
    if c.thorough:
        stories = [(n, f, p) for n in sorted(flows.FLOWS) if n not in ("empty", "stop")
                   for f, p in ((None, True), (1, False), (0, True))]
    kills = torn = 0
    pool = concurrent.futures.ThreadPoolExecutor(8)
    for k, (name, first, profile) in enumerate(stories):
        cf = {"dt": 1, "save": rng.choice([2, 3]), "streak": rng.choice([0, 1, 2]),
              "fin2": 2 * c.n(9, rng.randint(8, 14)), "nsrc": -1}
        kl = Killer(c, b, name, cf, rng.choice([0, 0, -2]), 20, profile, first, "f%d" % k)
        events = kl.reference()
        kl.refrows = events[-1]["rows"]
        kl.reftimes = [r["t"] for r in kl.refrows]
        points = [(n, None) for n in range(1, kl.ops + 1)]
        points += [(rng.randint(2, kl.ops), rng.randint(1, kl.ops)) for _ in range(c.n(8, 40))]
        # nothing in a story depends on another one
        for ev, finding in pool.map(lambda a: kl.one(*a), points):
            events += ev
            kills += 1
            if finding is not None:
                torn += 1
                c.finding(
                    "kill-during-stepdata-flush",
                    "flow %s killed at operation %d, inside the flush of the diagnostic file, "
                    "cannot be continued with all its rows" % (name, finding))
        c.expect_valid("RunLoopTrace", events, "a killed run (flow %s)" % name)
        c.sample({"flow": name, "resumed": first is not None, "operations": kl.ops, "cf": cf})
        shutil.rmtree(kl.base)
    c.notes["kills"] = kills
    c.notes["kills_inside_a_flush_of_the_diagnostic_file"] = torn
