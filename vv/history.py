"""Runs of the real vvflow that save every step, as lists of states."""
import glob
import os

from vv import runs
from vv.common import MachineryError, Violation
from vv.runs import num


def v3(x):
    return [num(x["x"]), num(x["y"]), num(x["o"])]


def state(j):
    """what a saved file holds, as plain numbers"""
    st = {"t": j["@"]["time"], "dt": j["@"]["dt"], "inf_g": num(j["@"]["inf_circulation"]),
          "marker": [num(j["@"]["inf_marker"]["x"]), num(j["@"]["inf_marker"]["y"])],
          "gravity": [num(j["@"]["gravity"]["x"]), num(j["@"]["gravity"]["y"])],
          "vort": [[num(x) for x in r] for r in j["vort"]["data"]] if "vort" in j else [],
          "ink": [[num(x) for x in r] for r in j["ink"]["data"]] if "ink" in j else [],
          "bodies": []}
    k = 0
    while "body%02d" % k in j:
        b = j["body%02d" % k]
        a = b["@"]
        st["bodies"].append({
            "c": [[num(r[0]), num(r[1])] for r in b["data"]],
            "g": [num(r[2]) for r in b["data"]], "gsum": [num(r[3]) for r in b["data"]],
            "root": a.get("root_body", ""),
            "special": a["special_segment_no"], "bc": a["boundary_condition"],
            "area": num(a["area"]), "moi": num(a["moi_axis"]), "g_dead": num(a["g_dead"]),
            "density": num(a["density"]), "bounce": num(a["bounce"]),
            "cofm": [num(a["cofm"]["x"]), num(a["cofm"]["y"])],
            "holder": v3(a["holder_position"]), "dpos": v3(a["delta_position"]),
            "speed": v3(a["speed_slae"]), "speed_prev": v3(a["speed_slae_prev"]),
            "kspring": v3(a["spring_const"]), "damping": v3(a["spring_damping"]),
            "cmin": v3(a["collision_min"]), "cmax": v3(a["collision_max"]),
            "hydro": v3(a["force_hydro"]), "fholder": v3(a["force_holder"]),
            "friction_prev": v3(a["friction_prev"]), "fdt_dead": v3(a["fdt_dead"]),
            "vx": a.get("speed_x", ""), "vy": a.get("speed_y", ""), "vo": a.get("speed_o", ""),
        })
        k += 1
    return st


def record(b, d, lua, dt, steps, t0=0, what="a run", profile=False, files=None):
    """run `steps` steps of size dt = (n, D) from t0 (in units of dt); the saved
    states, in order"""
    os.makedirs(d)
    n, D = dt
    for name, text in (files or {}).items():
        with open(d + "/" + name, "w") as f:
            f.write(text)
    with open(d + "/a.lua", "w") as f:
        f.write("S.caption='h'\n" + lua + "\nS.time={%d,%d} S.dt={%d,%d} S.dt_save={%d,%d} S.finish=%r\nsimulate()\n"
                % (t0 * n, D, n, D, n, D, (t0 + steps) * n / D))
    p = runs.vvflow(b, d, ["--profile"] * profile + ["a.lua"])
    runs.check_exit(p, what)
    res = []
    for f in sorted(glob.glob(d + "/results_h/*.h5")):
        j = runs.dump(b, f)
        if j is None:
            raise Violation("%s left an unreadable snapshot" % what, {"lua": lua})
        res.append(state(j))
    if len(res) < 2:
        raise Violation("%s left %d snapshots" % (what, len(res)), {"lua": lua, "stderr": p.stderr[-500:]})
    return res
