"""The equations of motion of spec/Dynamics.tla, on solutions the real code finds."""
from vv.common import build
from vv import dynamics
from vv.drive import Script


def check(c):
    b = build(["vvhd"], ["drv_flow"])
    s = Script(b.driver("drv_flow"))
    jobs = []
    for _ in range(c.n(250, 4000)):
        dynamics.scenario(s, c.rng, jobs)
    ans = s.run("solving the flow")
    events = [dynamics.observe("motion", p, w, ans[k]) for p, w, k in jobs]
    c.notes["solutions"] = len(events)
    c.notes["bodies"] = sum(len(e["bodies"]) for e in events)
    c.notes["attached"] = sum(x["root"] > 0 for e in events for x in e["bodies"])
    c.notes["free_components"] = sum(not r for e in events for x in e["bodies"] for r in x["rigid"])
    for e in events[:4]:
        c.sample({"m": e["m"], "bodies": [{k: x[k] for k in ("rho2", "root", "rigid", "v", "F", "H")} for x in e["bodies"]]})
    c.expect_all("DynamicsTrace", events, "a solution of the flow")
