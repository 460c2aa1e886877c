"""setup_cmd: builds the clock and disk shim and checks that the sandbox can run the simulator."""
import os
import subprocess
import sys

from sim import check


def main():
    so = check.build()
    env = check.lane_env(0, so)
    code = ("from sim.seams import Clock, PRESENT; import time; assert PRESENT; Clock.start(1e9); "
            "assert time.time() == 1e9; Clock.stop(); import sys; assert hasattr(sys, 'monitoring'); print('simulator ready')")
    return subprocess.run([check.PY, "-c", code], env=env, cwd=check.VERIF).returncode


if __name__ == "__main__":
    sys.exit(main())
