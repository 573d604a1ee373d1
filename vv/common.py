"""Shared machinery of the checks: build the tree under test, run TLC, validate
recorded traces against a specification, report, write evidence."""

import fcntl
import glob
import itertools
import json
import math
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
JARS = (
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
)
DEPS = "/opt/vp/deps"


class Violation(Exception):
    """The code under test does something the specification does not allow."""

    def __init__(self, what, data=None, known_key=None):
        super().__init__(what)
        self.what = what
        self.data = data
        self.known_key = known_key


class MachineryError(Exception):
    """The check itself could not run."""


def sh(cmd, timeout=600, cwd=None, env=None, inp=None, check=False):
    e = dict(os.environ)
    e.setdefault("OMP_NUM_THREADS", "1")
    e["OPENBLAS_NUM_THREADS"] = e.get("OPENBLAS_NUM_THREADS", "1")
    if env:
        e.update(env)
    p = subprocess.run(
        cmd,
        cwd=cwd,
        env=e,
        input=inp,
        timeout=timeout,
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        text=not isinstance(inp, (bytes,)),
        errors=None if isinstance(inp, bytes) else "replace",
    )
    if check and p.returncode != 0:
        raise MachineryError(
            "command failed (%d): %s\n%s\n%s"
            % (p.returncode, cmd, p.stdout[-3000:], p.stderr[-3000:])
        )
    return p


# --------------------------------------------------------------------------
# building


class Built:
    def __init__(self, root):
        self.root = root
        self.vvflow = root + "/repo/utils/vvflow/vvflow"
        self.vvplot = root + "/repo/utils/vvplot/vvplot"
        self.vvxtract = root + "/repo/utils/vvxtract/vvxtract"
        self.h5json = root + "/h5json"
        self.shim = root + "/killshim.so"
        self.scripts = REPO + "/utils/scripts"

    def driver(self, name):
        return self.root + "/" + name


def _lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(BUILD + "/.lock", "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build(targets=("vvhd",), drivers=()):
    """Build the named cmake targets of /repo's working tree and the named
    C++ drivers of /verif/harness, out of tree."""
    b = Built(BUILD)
    lock = _lock()
    try:
        rb = BUILD + "/repo"
        env = {
            "CC": "gcc",
            "CXX": "g++",
            "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        }
        p = sh(
            [
                "cmake", "-S", REPO, "-B", rb, "-G", "Ninja",
                "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                "-DCMAKE_MODULE_PATH=/opt/vp/cmake",
                "-DWITH_MANPAGES=FALSE",
                "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
            ],
            env=env,
        )
        if p.returncode:
            raise MachineryError("cmake failed:\n" + p.stderr[-3000:])
        p = sh(["ninja", "-C", rb] + list(targets), env=env)
        if p.returncode:
            raise MachineryError("build of /repo failed:\n" + p.stdout[-4000:])
        inc = [
            "-I" + REPO + "/libvvhd/headers",
            "-I" + REPO + "/utils/vvflow",
            "-I" + REPO + "/utils/vvplot",
            "-I" + DEPS + "/hdf5/include",
            "-I" + DEPS + "/lua/src",
            "-I" + VERIF + "/harness",
        ]
        for d in drivers:
            src = VERIF + "/harness/" + d + ".cpp"
            cmd = (
                ["g++", "-std=c++11", "-O1", "-g", "-fopenmp", "-w"]
                + inc
                + [src, "-o", b.driver(d)]
                + ["-L" + rb + "/libvvhd", "-Wl,-rpath," + rb + "/libvvhd", "-lvvhd"]
                + ["-L" + DEPS + "/hdf5/lib", "-l:libhdf5.a"]
                + _lua_lib()
                + ["-lm", "-ldl"]
            )
            p = sh(cmd)
            if p.returncode:
                raise MachineryError("driver %s: %s" % (d, p.stderr[-4000:]))
        p = sh(
            ["gcc", "-O1", VERIF + "/harness/h5json.c", "-o", b.h5json]
            + ["-I" + DEPS + "/hdf5/include", DEPS + "/hdf5/lib/libhdf5.a"]
        )
        if p.returncode:
            raise MachineryError("h5json: " + p.stderr[-2000:])
        p = sh(["gcc", "-shared", "-fPIC", "-O1", VERIF + "/harness/killshim.c", "-o", b.shim, "-ldl"])
        if p.returncode:
            raise MachineryError("killshim: " + p.stderr[-2000:])
    finally:
        lock.close()
    return b


def _lua_lib():
    for pat in ("liblua.a", "liblua*.a", "liblua*.so"):
        g = glob.glob(DEPS + "/lua/src/" + pat)
        if g:
            return [g[0]]
    return []


# --------------------------------------------------------------------------
# numbers in traces

BAD = 1999999998  # not representable at the chosen scale
NAN = 1999999999
INF = 1999999997
NINF = 1999999996


def q(x, scale=1, tol=1e-6):
    """double -> integer at scale; a sentinel when it is not (nearly) one."""
    if x != x:
        return NAN
    if math.isinf(x):
        return INF if x > 0 else NINF
    y = x * scale
    r = math.floor(y + 0.5)
    if abs(r) > 1900000000 or abs(y - r) > tol * max(1.0, abs(y)):
        return BAD
    return int(r)


def qr(x, scale):
    """double -> nearest integer at scale (rounded, for tolerance bands)."""
    if x != x:
        return NAN
    if math.isinf(x) or abs(x * scale) > 1900000000:
        return INF if x > 0 else NINF
    return int(math.floor(x * scale + 0.5))


# --------------------------------------------------------------------------
# TLC


class Tlc:
    def __init__(self, out, rc, wall):
        self.out = out
        self.rc = rc
        self.wall = wall
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        if os.environ.get("VV_VERBOSE"):
            print("  [tlc] %.1f s, %d generated" % (wall, self.generated), flush=True)
        self.prints = re.findall(r"^@@(.*)$", out, re.M)

    @property
    def ok(self):
        return self.rc == 0


def tlc(module, cfg_text, env=None, workers=1, timeout=800, extra=(), heap="3g"):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    tmp = tempfile.mkdtemp(prefix="tlc_")
    t0 = time.time()
    try:
        for f in glob.glob(SPEC + "/*.tla"):
            os.symlink(f, tmp + "/" + os.path.basename(f))
        with open(tmp + "/run.cfg", "w") as f:
            f.write(cfg_text)
        e = dict(os.environ)
        if env:
            e.update({k: str(v) for k, v in env.items()})
        cmd = [
            "java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
            "-Dtlc2.tool.impl.Tool.cdot=true",
            "-cp", JARS, "tlc2.TLC", "-config", "run.cfg",
            "-workers", str(workers), "-metadir", tmp + "/meta",
            "-noGenerateSpecTE", "-deadlock",
        ] + list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(
                cmd, cwd=tmp, env=e, timeout=timeout,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                errors="replace",
            )
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on " + module)
        return Tlc(p.stdout, p.returncode, time.time() - t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Rejected:
    def __init__(self, index, event, out):
        self.index = index
        self.event = event
        self.out = out


def dump_trace(events, path):
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")


class Check:
    """One run of one property's check: counters, evidence, verdict."""

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s/%s" % (pid, self.seed))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.opens = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.scratch = tempfile.mkdtemp(prefix="vv_%s_" % pid)
        self.known = load_known(pid)
        self.known_hit = {}
        self.counter = itertools.count()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s if isinstance(s, str) else json.dumps(s)[:400])

    # -- the specification itself ------------------------------------------
    def model(self, module, cfg, workers=8, env=None, timeout=800, extra=()):
        """Exhaustively check a model of the specification."""
        r = tlc(module, cfg, env=env, workers=workers, timeout=timeout, extra=extra)
        if not r.ok:
            raise MachineryError(
                "the specification %s does not satisfy its own properties:\n%s"
                % (module, r.out[-5000:])
            )
        self.states += r.distinct
        self.transitions += r.generated
        return r

    def expect_all(self, module, events, what, context=None, parts=8):
        """Independent events: validated in several TLC runs side by side."""
        import concurrent.futures
        parts = max(1, min(parts, len(events) // 20))
        chunks = [events[k::parts] for k in range(parts)]
        with concurrent.futures.ThreadPoolExecutor(parts) as pool:
            list(pool.map(lambda ev: self.expect_valid(module, ev, what, context=context), chunks))

    # -- traces of the implementation --------------------------------------
    def validate(self, module, events, env=None, timeout=800, cfg=None, label="trace"):
        """Check a recorded trace against spec/<module>.tla. Returns None or
        Rejected."""
        path = self.scratch + "/%s_%d.ndjson" % (module, next(self.counter))
        dump_trace(events, path)
        ev = {"TRACE": path}
        if env:
            ev.update(env)
        cfg = cfg or "INIT TInit\nNEXT TNext\nPOSTCONDITION Accepted\n"
        r = tlc(module, cfg, env=ev, workers=1, timeout=timeout)
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += 1
        self.opens += r.out.count('"OPEN"')
        depth = None
        m = re.search(r"TRACE_DEPTH\D+(\d+)", r.out)
        if m:
            depth = int(m.group(1))
        if r.ok and depth is not None and depth == len(events):
            self.events += len(events)
            return None
        if depth is None:
            # TLC could not evaluate an event (e.g. a value of the wrong type):
            # the last state number it reached locates it.
            m = re.findall(r"/\\ i = (\d+)|^i = (\d+)", r.out, re.M)
            if m and ("evaluat" in r.out or "Attempted" in r.out or "Overflow when computing" in r.out):
                depth = max(int(a or b) for a, b in m) - 1
            else:
                raise MachineryError(
                    "TLC failed on %s:\n%s" % (module, r.out[-5000:])
                )
        k = min(depth, len(events) - 1)
        return Rejected(k, events[k], r.out[-2500:])

    def expect_valid(self, module, events, what, env=None, key=None, context=None):
        """Validate and raise Violation on rejection (confirmed by a rerun)."""
        rej = self.validate(module, events, env=env)
        if rej is None:
            return
        rej2 = self.validate(module, events, env=env)
        if rej2 is None or rej2.index != rej.index:
            raise MachineryError("unrepeatable rejection in " + module)
        data = {
            "module": module,
            "event_index": rej.index,
            "event": rej.event,
            "previous": events[max(0, rej.index - 8): rej.index],
            "tlc": rej.out[-1500:],
        }
        if context is not None:
            data["context"] = context(rej) if callable(context) else context
        raise Violation(what + ": event #%d %s" % (rej.index, json.dumps(rej.event)[:500]), data)

    def finding(self, key, what, data=None):
        """A violation identified by key: known findings are printed, others
        raised."""
        if key in self.known:
            self.known_hit[key] = self.known[key]
            return
        raise Violation(what, data, key)

    # -- the end ------------------------------------------------------------
    def evidence(self, violations):
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "events_validated": self.events,
            "samples": self.samples,
        }
        cov.update(self.notes)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": violations,
            "assumptions": self.assumptions,
        }
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.pid, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


def load_known(pid):
    """known_findings.txt: 'known: property=<id> key=<key> <what fails>'"""
    res = {}
    try:
        with open(VERIF + "/known_findings.txt") as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == pid:
                    res[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return res


def run_check(pid, tier, fn):
    c = Check(pid, tier)
    rc = 0
    try:
        try:
            fn(c)
            violations = 0
        except Violation as v:
            violations = 1
            rc = 1
            d = VERIF + "/replay/%s" % pid
            os.makedirs(d, exist_ok=True)
            path = d + "/violation.json"
            with open(path, "w") as f:
                json.dump({"property": pid, "what": v.what, "data": v.data}, f, indent=1, default=str)
                f.write("\n")
            print("violated: " + v.what[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        except MachineryError as e:
            print("the check could not run: %s" % e, file=sys.stderr)
            return 2
        for k, w in sorted(c.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (pid, w))
        c.evidence(violations)
        print(
            "%s %s: %s; %d spec states, %d traces (%d events) validated, %.1f s"
            % (pid, tier, "ok" if rc == 0 else "VIOLATED", c.states, c.traces, c.events, c.elapsed())
        )
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)
    sys.stdout.flush()
    return rc
