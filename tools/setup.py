"""Checks that the simulator starts and that a run repeats exactly (no build is needed:
the checks import /repo's working tree)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import runner

runner.reexec()
from sim import props

runner.boot()
c = props.get("P01")
s = c.scenario(1, "deaths", 0)
a, b = c.run(s), c.run(s)
assert a["key"] == b["key"], "the simulator is not deterministic here"
sys.__stdout__.write("simulator ready\n")
sys.__stdout__.flush()
os._exit(0)
