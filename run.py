#!/usr/bin/env python3
"""check ID | replay FILE | shard ... (internal)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
# hypothesis is installed for another interpreter of the same version; it goes
# last so that numpy and scipy come from the environment pykalman is built in
for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if p not in sys.path:
        sys.path.append(p)

from pbt import core  # noqa: E402

if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "check":
        sys.exit(core.main_check(sys.argv[2]))
    elif cmd == "replay":
        sys.exit(core.main_replay(sys.argv[2]))
    elif cmd == "shard":
        pid, tier, seed, index, out = sys.argv[2:7]
        core.shard(pid, tier, int(seed), int(index), out)
        sys.exit(0)
    elif cmd == "selftest":
        # offline self-check of the tools the checks need
        core.import_sut()
        import hypothesis
        import numpy
        import scipy

        print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "scipy", scipy.__version__)
        sys.exit(0)
    sys.exit("usage: run.py check ID | replay FILE")
