"""Build everything once, so that each check has only what changed to build"""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import checks  # noqa: E402

for pid in sorted(checks.CHECKS):
    try:
        checks.build(dict(checks.CHECKS[pid], id=pid))
        print(pid, 'built')
    except build.BuildError as e:
        # the check will say so itself
        print(pid, 'did not build:', str(e)[-2000:])
