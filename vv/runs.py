"""Running the real vvflow and reading what it leaves on the disk."""

import glob
import hashlib
import json
import math
import os
import re
import struct

from vv.common import BAD, MachineryError, Violation, q, sh

VOLATILE = ("time_local", "git_rev", "git_info", "git_diff", "time_to_finish")
FRIC_SETS = ("force_friction", "force_hydro", "force_holder", "friction")


def dump(b, path):
    """A saved file as the independent dumper sees it, or None."""
    p = sh([b.h5json, path])
    if p.returncode != 0:
        return None
    try:
        return json.loads(p.stdout)
    except ValueError:
        return None


def num(x):
    if isinstance(x, str):
        return float.fromhex(x) if "x" in x else float(x)
    return float(x)


def strip(j):
    if isinstance(j, dict):
        return {k: strip(v) for k, v in j.items() if k not in VOLATILE}
    if isinstance(j, list):
        return [strip(x) for x in j]
    return j


def digest(j):
    return hashlib.sha1(json.dumps(strip(j), sort_keys=True).encode()).hexdigest()[:12]


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def ticks(x, D):
    """a time stored as a 32-bit float -> ticks"""
    r = math.floor(x * D + 0.5) if abs(x) < 1e9 else BAD
    if r is BAD or f32(r / D) != x:
        return BAD
    return int(r)


def vvflow(b, d, args, env=None, timeout=300, threads=1):
    e = {"OMP_NUM_THREADS": str(threads)}
    if env:
        e.update(env)
    return sh([b.vvflow] + list(args), cwd=d, env=e, timeout=timeout)


def snaps(b, d, caption, D, digests=True):
    """[{idx,t,ink,d}], number of unreadable files, {idx: inode}"""
    res, broken, inodes = [], 0, {}
    for f in sorted(glob.glob(glob.escape(d + "/results_" + caption) + "/*")):
        if f.endswith(".tmp"):
            continue
        m = re.match(r"(\d{6,})\.h5$", os.path.basename(f))
        j = dump(b, f)
        if not m or j is None or "time" not in j.get("@", {}):
            broken += 1
            continue
        t = j["@"]["time"]
        v = t["value"] * D
        idx = int(m.group(1))
        inodes[idx] = os.stat(f).st_ino
        res.append({
            "idx": idx,
            "t": v // t["timescale"] if v % t["timescale"] == 0 else BAD,
            "ink": len(j["ink"]["data"]) if "ink" in j else 0,
            "d": digest(j) if digests else "",
        })
    return res, broken, inodes


def data(ds):
    return ds["data"]


def stepdata(b, d, caption, D, split=False):
    """rows [{t,d,f}], the number of rows of every dataset; with split, the
    profiles stand apart: rows [{t,d,f,p,pf}], "" where there is none"""
    path = d + "/stepdata_" + caption + ".h5"
    if not os.path.exists(path):
        return [], [], None
    j = dump(b, path)
    if j is None or "time" not in j:
        return None, [], None
    ts = [num(r[0]) for r in data(j["time"])]
    sets = {}
    for g, v in sorted(j.items()):
        if g.startswith("body") and isinstance(v, dict):
            for n, ds in sorted(v.items()):
                if isinstance(ds, dict) and "data" in ds:
                    sets[g + "/" + n] = data(ds)
    profs = {n: sets.pop(n) for n in list(sets) if split and n.split("/")[1] in ("pressure", "friction")}
    if split:
        j["profs"] = [len(x) for x in profs.values()]
    rows = []
    for k, t in enumerate(ts):
        main, fric = [], []
        for n, ds in sets.items():
            x = ds[k] if k < len(ds) else None
            (fric if n.split("/")[1] in FRIC_SETS else main).append([n, x])
        rows.append({
            "t": ticks(t, D),
            "d": digest(main),
            "f": digest(fric),
        })
        for key, name in (("p", "pressure"), ("pf", "friction")):
            x = [ds[k] for n, ds in sorted(profs.items()) if n.endswith("/" + name) and k < len(ds)]
            if split:
                rows[-1][key] = "" if all(math.isnan(num(v)) for r in x for v in r) else digest(x)
    return rows, [len(x) for x in sets.values()], j


def lua_time(t, D):
    return "{%d,%d}" % (t, D)


def config_lua(cf, t0, D, fin=None):
    """Lua assignments for a configuration in ticks"""
    return (
        "S.time=%s S.dt=%s S.dt_save=%s S.dt_streak=%s S.finish=%r\n"
        % (lua_time(t0, D), lua_time(cf["dt"], D), lua_time(cf["save"], D),
           lua_time(cf["streak"], D), cf["fin2"] / 2.0 / D)
    )


def check_exit(p, what):
    if p.returncode != 0:
        raise Violation("%s ended with exit status %d: %s" % (what, p.returncode, p.stderr[-800:]))
