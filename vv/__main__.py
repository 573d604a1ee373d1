import importlib
import sys

from vv import common


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    mod = importlib.import_module("vv.props." + pid.lower())
    return common.run_check(pid, tier, mod.check)


sys.exit(main())
