#!/usr/bin/env python
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] ..."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import runner

runner.reexec()
from sim import check, props

if __name__ == "__main__":
    pid = sys.argv[1]
    rc = check.main(props.get(pid), sys.argv[2:])
    sys.__stdout__.flush()
    os._exit(rc)
