"""Results under different numbers of threads against spec/ParallelStep.tla."""
import os
import shutil
import subprocess

from vv.common import Violation, build
from vv import flows, runs

# Flows in which every parallel loop really is shared out: a chunk of the
# dynamic schedules is 256 particles of one leaf, so leaves must hold more.
BIG = {
    "cloud": """
S.re=inf S.inf_vx='sin(3*t)' S.inf_vy='cos(7*t)*0.2'
local b=gen_cylinder{R=1,N=12}
b.holder_vo='2*cos(5*t)'
S.body_list:insert(b)
local p=gen_cylinder{R=0.7,N=10}
p:move_r{4,0.3} p.spring_const={1,2,3} p.density=2
S.body_list:insert(p)
for i=1,%(n)d do
  local r,a=1.1+(i%%37)*0.1, i*0.7548776
  S.vort_list:append{r*math.cos(a), r*math.sin(a), 1e-3*math.cos(i)}
end
S.sink_list:append{6,1,0.4} S.sink_list:append{-6,-1,-0.2}
""",
    "sinks": """
S.re=inf S.inf_vx='0.3+t' S.inf_vy='-t*t'
for i=1,400 do
  S.sink_list:append{2*math.cos(i*i*0.3)*math.sin(i), 1.9*math.sin(i*2.7), math.cos(7*i)/17}
end
for i=1,%(n)d do
  S.vort_list:append{2*math.cos(i*i*0.21)*math.sin(i), 1.9*math.sin(i*1.7), 1e-2*math.cos(i)}
end
""",
    "strip": """
S.re=50 S.inf_vx='1'
local b=gen_cylinder{R=2,N=10}
b.holder_vo='cos(9*t)'
S.body_list:insert(b)
local dl=4*math.sin(math.pi/10)
for i=1,%(n)d do
  S.vort_list:append{2.2+0.5*dl*i, 0.6*dl*((i*i)%%5-2), 0.1*math.cos(i)}
end
""",
    "free": """
S.re=40 S.inf_vx='cos(t)' S.inf_g=0.1
for i=1,%(n)d do
  local r,a=0.01*i, i*2.399963
  S.vort_list:append{math.sqrt(r)*math.cos(a), math.sqrt(r)*math.sin(a), 0.01*math.cos(3*i)}
end
""",
    "ink": """
S.re=300 S.inf_vx='1+0.2*sin(t)'
local b=gen_cylinder{R=1,N=14}
S.body_list:insert(b)
for i=1,%(n)d do
  local r,a=1.2+(i%%11)*0.2, i*0.7548776
  S.streak_source_list:append{r*math.cos(a), r*math.sin(a), 1}
end
""",
}


def observe(b, d, D):
    sn, broken, _ = runs.snaps(b, d, "x", D)
    rows, cols, j = runs.stepdata(b, d, "x", D)
    if broken or rows is None:
        raise Violation("a run left unreadable files")
    return sn, rows, cols


def one(c, b, d, lua, cf, t0, D, profile, threads, events, first, win):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(d + "/a.lua", "w") as f:
        f.write("S.caption='x'\n" + lua + runs.config_lua(cf, t0, D) + "simulate()\n")
    args = (["--profile"] if profile else []) + ["a.lua"]
    p = runs.vvflow(b, d, args, threads=threads)
    runs.check_exit(p, "a run on %d threads" % threads)
    sn, rows, cols = observe(b, d, D)
    events.append({"op": "fresh" if first else "again", "threads": threads})
    events.append({"op": "config", "cf": cf, "t": t0})
    events.append({"op": "run", "snaps": sn, "rows": rows, "cols": cols, "exempt": [],
                   "sens": False, "lines": [], "told": False, "tend": 0})
    if sn and win:
        last = sn[-1]
        p = runs.sh([b.driver("fields"), d + "/results_x/%06d.h5" % last["idx"]]
                    + [str(x) for x in win], env={"OMP_NUM_THREADS": str(threads)})
        if p.returncode:
            raise Violation("the maps of a snapshot cannot be computed: " + p.stderr[-300:])
        for l in p.stdout.split("\n"):
            if l:
                n, dg = l.split()
                events.append({"op": "fact", "k": "map:" + n, "t": last["t"], "d": dg})
    return sum(1 for s in sn)


class Load:
    """something else to do for the machine, so that threads get interrupted"""

    def __enter__(self):
        self.p = [subprocess.Popen(["sh", "-c", "while :; do :; done"]) for _ in range(6)]

    def __exit__(self, *a):
        for p in self.p:
            p.kill()
            p.wait()


def check(c):
    b = build(["vvflow"], ["fields"])
    cfg = ("CONSTANTS Threads = {1,2,3} Items = %d Chunk = %d Phases = %d Shared = FALSE\n"
           "SPECIFICATION Spec\nINVARIANTS Deterministic Once Exclusive\nPROPERTY Ends\n")
    c.model("ParallelStep", cfg % (4, 2, 2))
    if c.thorough:
        c.model("ParallelStep", cfg % (6, 2, 2))
        c.model("ParallelStep", cfg % (3, 1, 2))
    events = []
    runsn = 0
    jobs = []
    for name in sorted(BIG):
        jobs.append((name, BIG[name] % {"n": c.n(700, 2500)}, True))
    for name in sorted(flows.FLOWS):
        jobs.append((name, flows.FLOWS[name], False))
    for name, lua, big in jobs:
        D = 50
        cf = {"dt": 1, "save": 1, "streak": 1, "fin2": 2 * (c.n(4, 8) if big else c.n(6, 20)), "nsrc": -1}
        prof = c.rng.random() < 0.5
        d = c.scratch + "/" + name
        win = [-3.1, -2.9, 0.21, c.n(25, 60), c.n(24, 60)] if (big or c.thorough) else None
        if name == "sinks":
            win = [-2, -2, 0.06, 70, 70]
        plan = [1, 8, 3, 8] if big else [1, 4]
        if c.thorough:
            plan = [1, 2, 3, 5, 8, 8, 8, 16]
        for k, th in enumerate(plan):
            one(c, b, d, lua, cf, 0, D, prof, th, events, k == 0, win)
            runsn += 1
        if big and not c.thorough or c.thorough:
            with Load():
                one(c, b, d, lua, cf, 0, D, prof, 7, events, False, win)
            runsn += 1
        shutil.rmtree(d)
        c.sample({"flow": name, "threads": plan, "particles_per_leaf_over_256": big})
    c.notes["runs"] = runsn
    c.assumptions.append("interleavings of the real code are those that occurred on 1 to 16 threads "
                         "with and without other load; the model covers all of them for its tasks")
    c.expect_valid("RunLoopTrace", events, "the number of threads changes the results")
