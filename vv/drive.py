"""Talking to the command driven space of harness/drv_flow.cpp."""
import json

from vv.common import MachineryError, Violation, sh


class Script:
    """collects commands of many scenarios, runs them all in one process"""

    def __init__(self, exe):
        self.exe = exe
        self.cmds = []
        self.want = []      # indices of commands whose answer is needed

    def do(self, *a):
        self.cmds.append(" ".join(x if isinstance(x, str) else repr(x) for x in a))

    def ask(self, *a):
        self.do(*a)
        self.want.append(len(self.cmds) - 1)
        return len(self.want) - 1

    def raw(self, what, env=None):
        p = sh([self.exe], inp="\n".join(self.cmds) + "\n", env=env)
        out = p.stdout.split("\n")[:-1]
        if p.returncode or len(out) != len(self.cmds):
            if p.returncode == 3:
                raise MachineryError("driver: " + p.stderr[-500:])
            at = self.cmds[len(out)] if len(out) < len(self.cmds) else "?"
            raise Violation("%s ended with exit status %d at '%s' (command %d)"
                            % (what, p.returncode, at[:200], len(out)),
                            {"commands": self.cmds[max(0, len(out) - 60): len(out) + 1], "stderr": p.stderr[-1000:]})
        for k, (c, o) in enumerate(zip(self.cmds, out)):
            if o != "ok" and k not in set_of(self.want):
                if o.startswith('{"error"'):
                    raise Violation("%s: '%s' failed: %s" % (what, c[:200], o[:300]))
        return out

    def run(self, what="the operations", env=None):
        out = self.raw(what, env)
        return [{} if out[k] == "ok" else json.loads(out[k]) for k in self.want]


_cache = {}


def set_of(l):
    k = (id(l), len(l))
    if k not in _cache:
        _cache.clear()
        _cache[k] = set(l)
    return _cache[k]
