"""Collision limits (spec/Rigid.tla)."""
import concurrent.futures
import math

from vv.common import build, qr
from vv import history, rigid
from vv.drive import Script

FLOWS = {
    "drop": """
S.re=inf S.inf_vx='1' S.gravity={0,-2}
local b=gen_cylinder{R=0.5,N=10} b.density=2 b.spring_const={inf,0,inf}
b.collision_min={nan,-0.4,nan} b.collision_max={nan,0.3,nan} b.bounce=0.5
S.body_list:insert(b)
""",
    "corner": """
S.re=inf S.inf_vx='1' S.gravity={3,-2}
local b=gen_cylinder{R=0.5,N=10} b.density=2 b.spring_const={0,0,inf}
b.collision_min={-0.1,-0.25,nan} b.collision_max={0.15,0.2,nan} b.bounce=1
S.body_list:insert(b)
""",
    "pair": """
S.re=inf S.inf_vx='1' S.gravity={0,-3}
for k=0,1 do
local b=gen_cylinder{R=0.5,N=10} b:move_r{0,2*k} b.density=2 b.spring_const={1,0,inf}
b.collision_min={-0.05,2*k-0.1,nan} b.collision_max={0.05,2*k+0.1,nan} b.bounce=k
S.body_list:insert(b)
end
""",
    "pendulum": """
S.re=inf S.inf_vx='1' S.gravity={0,-4}
local b=gen_plate{R1=0.1,R2=0.1,L=1,N=12} b.density=3 b.spring_const={inf,inf,0}
b.collision_min={nan,nan,-0.3} b.collision_max={nan,nan,0.1} b.bounce=0.3
S.body_list:insert(b)
""",
    "resting": """
S.re=inf S.inf_vx='0'
local b=gen_cylinder{R=0.5,N=10} b.density=2 b.holder_pos={0,0.1,0} b.delta_pos={0,0.2,0} b.spring_const={inf,0,inf}
b.collision_min={nan,-1,nan} b.collision_max={nan,0.3,nan}
S.body_list:insert(b)
""",
    "carried": """
S.re=inf S.inf_vx='1' S.gravity={0,-2}
local r=gen_cylinder{R=0.3,N=8} r.holder_vx='0.2'
local b=gen_cylinder{R=0.3,N=10} b:move_r{0,1.5} b.root=r b.density=2 b.spring_const={inf,0,inf}
b.collision_min={nan,1.3,nan} b.collision_max={nan,1.6,nan} b.bounce=0.5
S.body_list:insert(r) S.body_list:insert(b)
""",
}


def runs_(c, b):
    def one(job):
        name, lua = job
        st = history.record(b, c.scratch + "/run_" + name, lua, (1, 20), c.n(50, 200), what="the flow '%s'" % name)
        ev, stood = [], 0
        for s in st:
            at = []
            for k in s["bodies"]:
                for m in range(3):
                    if math.isinf(k["kspring"][m]):
                        continue
                    z = lambda v: rigid.NOLIMIT if v != v else qr(v, 10 ** 5)
                    at.append([qr(k["holder"][m] + k["dpos"][m], 10 ** 5), z(k["cmin"][m]), z(k["cmax"][m])])
            ev.append({"op": "limits", "what": name, "at": at})
        return ev
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        return [e for l in pool.map(one, sorted(FLOWS.items())) for e in l]


def check(c):
    b = build(["vvhd", "vvflow"], ["drv_flow"])
    c.model("RigidMC", "CONSTANTS Steps = 2\n Ends = {1, 2, 4}\nINIT Init\nNEXT Next\n"
            "INVARIANTS SameShape Within JointHolds StiffHolds Exact\n")
    s = Script(b.driver("drv_flow"))
    jobs = []
    for _ in range(c.n(600, 8000)):
        rigid.scenario(s, c.rng, jobs, True)
    events = rigid.observe(jobs, s.run("moving bodies against their limits"))
    for op in ("move", "stop", "bounce"):
        c.notes["events_" + op] = sum(e["op"] == op for e in events)
    c.notes["hits"] = sum(e["op"] == "move" and e["hit"] != [0, 0] for e in events)
    ev = runs_(c, b)
    c.notes["states_of_runs"] = len(ev)
    c.notes["at_a_limit"] = sum(a[0] in (a[1], a[2]) for e in ev for a in e["at"])
    for e in events[:3] + ev[:1]:
        c.sample(e)
    c.expect_all("RigidTrace", events, "a step of the bodies")
    c.expect_all("RigidTrace", ev, "a limited body in a run", parts=2)
