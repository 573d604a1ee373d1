"""vvxtract against spec/Extract.tla."""
import os

from vv import runs
from vv.common import Violation, build, sh
from vv.drive import Script
from vv.flows import FLOWS
from vv.props import p05
from vv.runs import dump, num


def g(x):
    return "%g" % num(x)


def cell(x):
    return "%+.6e" % num(x)


def names(j, pre=""):
    """datasets by their full names, groups, named types"""
    sets, other = {}, []
    for k, d in j.items():
        if k == "@" or not isinstance(d, dict):
            continue
        if "data" in d:
            sets[pre + k] = d
        else:
            other.append(pre + k)
            if "type" not in d:
                a, o = names(d, pre + k + "/")
                sets.update(a)
                other += o
    return sets, other


def data(j):
    r = {}
    for k, d in names(j)[0].items():
        two = len(d["dims"]) == 2
        r[k] = {"dims": d["dims"], "rows": [[cell(x) for x in w] for w in d["data"]] if two else []}
    return r


def flow_file(j):
    """the file as the specification has it, numbers as the summary prints them"""
    def attrs(a, texts):
        r = {}
        for k, v in a.items():
            if k in ("git_rev", "git_info", "git_diff", "time_local"):
                continue
            if k in texts:
                r[k] = v
            elif isinstance(v, dict) and "timescale" in v:
                r[k] = ["%d" % v["value"], "%d" % v["timescale"]]
            elif isinstance(v, dict):
                r[k] = [g(v[n]) for n in ("x", "y", "o") if n in v]
            else:
                r[k] = g(v)
        return r
    f = {"attr": attrs(j["@"], ("caption", "inf_speed_x", "inf_speed_y")), "data": {}}
    for k, d in j.items():
        if k == "@" or "data" not in d:
            continue
        a = dict(d.get("@", {}))
        slip = a.pop("slip", [])
        f["data"][k] = {"rows": [[g(x) for x in (r if isinstance(r, list) else [r])] for r in d["data"]],
                        "attr": attrs(a, ("label", "root_body", "speed_x", "speed_y", "speed_o", "force_o")),
                        "slip": [g(x) for x in slip]}
    return f


SKIP = (".get_axis()", ".get_slen()")


def pairs(text):
    r = []
    for l in text.split("\n"):
        if l.startswith("-- "):
            l = l[3:]
            if " = " not in l:
                continue        # a heading
        if not l:
            continue
        if not r or ": " in l.split(" = ")[0]:
            k, _, v = l.partition(": ")
            r.append([k, v])
            continue
        k, _, v = l.partition(" = ")
        if k.endswith(SKIP):
            continue
        r.append([k, v.split(" -- ")[0]])
    return r


class World(p05.World):
    pass


TEXTS = ["", "", "a", "two words", "run%d_%s", "q\"\\", "\u0432\u0438\u0445\u0440\u044c", "body00", "x" * 70, "0", "body0", "body01"]


def check(c):
    b = build(["vvflow", "vvxtract"], ["drv_flow"])
    c.model("ExtractMC", "CONSTANTS MaxRows = %d MaxCols = 2 MaxReq = %d\nINIT Init\nNEXT Next\n"
            "INVARIANTS Shape Placed Rebuilt\n" % (c.n(2, 3), c.n(3, 4)))
    rng = c.rng
    files = []
    # flows made by commands
    keep = p05.TEXTS
    p05.TEXTS = TEXTS
    try:
        s = Script(b.driver("drv_flow"))
        for k in range(c.n(40, 400)):
            w = p05.World(c, s)
            s.do("new", 0)
            for _ in range(rng.choice([0, 3, 10, 25, 60])):
                w.change()
            f = "%s/flow%d.h5" % (c.scratch, k)
            if all(len(set(x)) == 1 for x in w.heat):
                s.do("save", f)
                files.append(f)
        s.raw("saving flows")
    finally:
        p05.TEXTS = keep
    # what runs leave
    for n in rng.sample(sorted(FLOWS), c.n(3, len(FLOWS))):
        d = "%s/run_%s" % (c.scratch, n)
        os.makedirs(d)
        with open(d + "/a.lua", "w") as f:
            f.write(FLOWS[n] + "S.caption='r' S.dt={1,16} S.dt_save={1,8} S.dt_profile={1,16} S.finish=0.3 simulate()\n")
        p = runs.vvflow(b, d, ["--profile", "a.lua"])
        runs.check_exit(p, "a run")
        files.append(d + "/stepdata_r.h5")
        for k in (0, 4):
            f = d + "/results_r/%06d.h5" % k
            if os.path.exists(f):
                files.append(f)
    events = []
    for f in files:
        j = dump(b, f)
        if j is None:
            raise Violation("a saved file can not be read", {"file": os.path.basename(f)})
        sets, other = names(j)
        D = data(j)
        head = [[k, j["@"].get(a, "")] for k, a in (("caption", "caption"), ("created", "time_local"), ("version", "git_info"),
                                                  ("git_rev", "git_rev"), ("git_diff", "git_diff"))
                if k != "git_diff" or j["@"].get("git_diff")]
        is_flow = "dt" in j["@"]
        for kind in ["list", "summary"] + ["table"] * c.n(3, 6):
            req = []
            if kind == "table":
                pool = sorted(sets)
                while not req:
                    req = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3, 5]))] if pool else ["vort"]
                    if rng.random() < 0.15:
                        req.insert(rng.randint(0, len(req)), rng.choice(["nope", "bod", "body000", "body99"] + other))
            elif kind == "list" and rng.random() < 0.3:
                req = ["vort"]
            args = {"list": [rng.choice(["-l", "--list"])], "summary": rng.choice([["-i"], ["--info"], []]), "table": []}[kind]
            p = sh([b.vvxtract] + args + [f] + req)
            e = {"kind": kind, "rc": p.returncode, "args": " ".join(args + req)}
            out = p.stdout
            if p.returncode == 0 and not out.endswith("\n") and out:
                raise Violation("vvxtract's last line is cut", {"args": e["args"]})
            if kind == "table":
                e["req"] = req
                e["data"] = {k: v for k, v in D.items() if k in req}
                e["lines"] = []
                for l in out.split("\n")[:-1]:
                    w = l.split("\t")
                    if w[-1] != "":
                        raise Violation("vvxtract printed a line that ends with %r" % w[-1], {"args": e["args"]})
                    e["lines"].append(w[:-1])
            elif kind == "list":
                e["data"] = {k: {} for k in D}
                e["names"] = out.split("\n")[:-1]
            else:
                e["flow"] = is_flow
                e["head"] = head
                e["pairs"] = pairs(out)
                e["file"] = flow_file(j) if is_flow else {}
            events.append(e)
    # what is not a file of data
    for n, content in (("text", b"caption: x\n"), ("empty", b""), ("nothing", None), ("half", open(files[0], "rb").read()[:700])):
        f = c.scratch + "/bad_" + n
        if content is not None:
            with open(f, "wb") as o:
                o.write(content)
        for args in ([], ["-l"], ["-i"]):
            p = sh([b.vvxtract] + args + [f] + rng.choice([[], ["vort"]]))
            events.append({"kind": "none", "rc": p.returncode, "args": n, "lines": p.stdout.split("\n")[:-1]})
    for k in ("table", "list", "summary"):
        c.notes["invocations_" + k] = sum(e["kind"] == k for e in events)
    c.notes["files"] = len(files)
    for e in events[2:5]:
        c.sample({"args": e["args"], "rc": e["rc"], "lines": len(e.get("lines", []))})
    c.expect_all("ExtractTrace", events, "what vvxtract printed")
