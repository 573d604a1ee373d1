#!/bin/bash
# Nothing is kept between checks: each builds what it needs from /repo. This
# only shows that the tools and the tree are there.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec python3 -c "
from vv import common
b = common.build(['vvhd', 'vvflow', 'vvplot', 'vvxtract'])
r = common.tlc('TimeArithMC', 'CONSTANTS MaxV = 1 MaxTs = 1 MaxN = 1\nINIT Init\nNEXT Next\n')
assert r.ok, r.out
print('ready')
"
