"""Conservation of circulation and tightness of bodies (spec/Dynamics.tla), on
solutions the real code finds, in made-up flows and in whole runs."""
import concurrent.futures

from vv.common import build, qr
from vv import dynamics, flows, history
from vv.drive import Script


def runs_(c, b):
    names = ["cylinder", "rotating", "slip", "joint", "stop", "three", "inviscid", "spring"]
    r7 = lambda x: qr(x, 10 ** 7)

    def one(name):
        infg = {"cylinder": "S.inf_g=0.5\n"}.get(name, "")
        st = history.record(b, c.scratch + "/run_" + name, flows.FLOWS[name] + infg, (1, 20), c.n(12, 60),
                            what="the flow '%s'" % name)
        return [{"op": "kelvin", "flow": name, "infg": r7(y["inf_g"]), "free": r7(sum(v[2] for v in y["vort"])),
                 "placed": [r7(sum(k["g"])) for k in y["bodies"]],
                 "turn": [r7(2 * k["area"] * k["speed"][2]) for k in y["bodies"]],
                 "was": [r7(2 * k["area"] * k["speed"][2]) for k in x["bodies"]],
                 "dead": [r7(k["g_dead"]) for k in y["bodies"]]} for x, y in zip(st, st[1:])]
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        return [e for l in pool.map(one, names) for e in l]


def check(c):
    b = build(["vvhd", "vvflow"], ["drv_flow"])
    c.model("DynamicsMC", "CONSTANTS N = %d Max = 1 InfG = 1 Steps = 2\n" % c.n(2, 3)
            + "INIT Init\nNEXT Next\nINVARIANTS Total Owes\n")
    s = Script(b.driver("drv_flow"))
    jobs = []
    for _ in range(c.n(250, 4000)):
        dynamics.scenario(s, c.rng, jobs)
    ans = s.run("solving the flow")
    events = [dynamics.observe("circulation", p, w, ans[k]) for p, w, k in jobs]
    c.notes["solutions"] = len(events)
    c.notes["segments"] = sum(len(x["c"]) for e in events for x in e["bodies"])
    r = runs_(c, b)
    c.notes["steps_of_runs"] = len(r)
    for e in events[:3] + r[:2]:
        c.sample(e)
    c.expect_all("DynamicsTrace", events + r, "a solution of the flow")
