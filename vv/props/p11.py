"""Rigid motion, joints and prescribed motion (spec/Rigid.tla)."""
import concurrent.futures
import math

from vv.common import build, qr
from vv import flows, history, rigid
from vv.drive import Script

# prescribed motions, as Lua expressions and as functions
FLOWS = {
    "steered": ("""
S.re=inf S.inf_vx='0.5*t'
local b=gen_cylinder{R=0.5,N=10} b.holder_vx='sin(3*t)' b.holder_vy='t*t' b.holder_vo='cos(t)'
S.body_list:insert(b)
""", {0: (lambda t: math.sin(3 * t), lambda t: t * t, math.cos)}),
    "chain": ("""
S.re=inf S.inf_vx='1'
local b=gen_plate{R1=0.1,R2=0.1,L=1,N=12} b.holder_vo='3*t' b.holder_vx='0.2'
local c=gen_plate{R1=0.1,R2=0.1,L=1,N=12} c:move_r{1.5,0} c.root=b c.holder_vo='-2'
local d=gen_cylinder{R=0.2,N=8} d:move_r{3,0} d.root=c d.holder_vo='1'
S.body_list:insert(b) S.body_list:insert(c) S.body_list:insert(d)
""", {0: (lambda t: 0.2, lambda t: 0, lambda t: 3 * t)}),
    "hinge": ("""
S.re=inf S.inf_vx='1' S.gravity={0,-1}
local b=gen_cylinder{R=0.4,N=10} b.holder_vo='2' b.holder_vx='0.3*cos(t)'
local c=gen_plate{R1=0.1,R2=0.1,L=1,N=12} c:move_r{1.2,0.3} c.root=b c.spring_const={inf,inf,0} c.density=2
S.body_list:insert(b) S.body_list:insert(c)
""", {0: (lambda t: 0.3 * math.cos(t), lambda t: 0, lambda t: 2)}),
    "slider": ("""
S.re=inf S.inf_vx='1' S.gravity={0,-1}
local b=gen_cylinder{R=0.4,N=10} b.holder_vo='1.5'
local c=gen_cylinder{R=0.2,N=8} c:move_r{1.2,0.3} c.root=b c.spring_const={1,inf,inf} c.density=2
S.body_list:insert(b) S.body_list:insert(c)
""", {0: (lambda t: 0, lambda t: 0, lambda t: 1.5)}),
}


def r5(v):
    return qr(v, 10 ** 5)


def shape(b):
    ax = [b["holder"][0] + b["dpos"][0], b["holder"][1] + b["dpos"][1]]
    c = b["c"]
    res = [r5((p[0] - ax[0]) ** 2 + (p[1] - ax[1]) ** 2) for p in c]
    res += [r5((p[0] - o[0]) ** 2 + (p[1] - o[1]) ** 2) for p, o in zip(c, c[1:] + c[:1])]
    return res + [r5(b["area"]), r5(b["moi"])]


def turn(a, d):
    return [d[0] * math.cos(a) - d[1] * math.sin(a), d[0] * math.sin(a) + d[1] * math.cos(a)]


def runs_(c, b):
    jobs = [(n, l, p) for n, (l, p) in sorted(FLOWS.items())]
    jobs += [(n, flows.FLOWS[n], {}) for n in ("rotating", "joint", "spring", "stop")]

    def one(job):
        name, lua, pres = job
        dt = (1, 20)
        st = history.record(b, c.scratch + "/run_" + name, lua, dt, c.n(24, 80), what="the flow '%s'" % name)
        ev = []
        h = dt[0] / dt[1]
        for j, s in enumerate(st):
            for n, k in enumerate(s["bodies"]):
                ev.append({"op": "shape", "what": name, "tol": 2, "first": shape(st[0]["bodies"][n]), "now": shape(k)})
                o = st[0]["bodies"][n]
                # stiff components keep their offset
                stiff = [m for m in range(3) if math.isinf(k["kspring"][m])]
                ev.append({"op": "shape", "what": name, "tol": 1, "first": [r5(o["dpos"][m]) for m in stiff],
                           "now": [r5(k["dpos"][m]) for m in stiff]})
                # the body has turned as its angle says
                a = k["holder"][2] + k["dpos"][2] - o["holder"][2] - o["dpos"][2]
                d0 = [o["c"][0][m] - o["holder"][m] - o["dpos"][m] for m in (0, 1)]
                d1 = [k["c"][0][m] - k["holder"][m] - k["dpos"][m] for m in (0, 1)]
                ev.append({"op": "shape", "what": name, "tol": 2, "first": [r5(v) for v in turn(a, d0)], "now": [r5(v) for v in d1]})
                # a joint without motion of its own stays where it is on its body
                if k["root"] and not (k["vx"] or k["vy"]):
                    r = int(k["root"][4:])
                    R, O = s["bodies"][r], st[0]["bodies"][r]
                    a = R["holder"][2] + R["dpos"][2] - O["holder"][2] - O["dpos"][2]
                    j0 = [o["holder"][m] - O["holder"][m] - O["dpos"][m] for m in (0, 1)]
                    j1 = [k["holder"][m] - R["holder"][m] - R["dpos"][m] for m in (0, 1)]
                    ev.append({"op": "shape", "what": name, "tol": 2, "first": [r5(v) for v in turn(a, j0)],
                               "now": [r5(v) for v in j1]})
                # the prescribed motion
                if n in pres:
                    want = [o["holder"][m] + sum(pres[n][m](i * h) * h for i in range(j)) for m in range(3)]
                    ev.append({"op": "shape", "what": name, "tol": 2, "first": [r5(v) for v in want],
                               "now": [r5(v) for v in k["holder"]]})
        return ev
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        return [e for l in pool.map(one, jobs) for e in l]


def check(c):
    b = build(["vvhd", "vvflow"], ["drv_flow"])
    c.model("RigidMC", "CONSTANTS Steps = 2\n Ends = {2, 4}\nINIT Init\nNEXT Next\n"
            "INVARIANTS SameShape Within JointHolds StiffHolds Exact\n")
    s = Script(b.driver("drv_flow"))
    jobs = []
    for _ in range(c.n(500, 8000)):
        rigid.scenario(s, c.rng, jobs, False)
    events = rigid.observe(jobs, s.run("moving bodies"))
    c.notes["moves"] = len(events)
    c.notes["attached"] = sum(x["root"] > 0 for e in events for x in e["bodies"])
    ev = runs_(c, b)
    c.notes["observations_of_runs"] = len(ev)
    for e in events[:2] + ev[:2]:
        c.sample(e)
    c.expect_all("RigidTrace", events, "a step of the bodies")
    c.expect_all("RigidTrace", ev, "the motion of a body in a run", parts=4)
