#!/usr/bin/env python3
"""Builds the MIR driver and warms the dependency build used by every check."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import program                                                      # noqa: E402
for tier, floor in (("core", 150), ("full", 600)):
    js, info = program.load(tier)
    print(len(js["fns"]), "bodies", info)
    if len(js["fns"]) < floor:
        sys.exit("the driver wrote an incomplete program")
