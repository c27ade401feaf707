#!/usr/bin/env python3
"""Checks that the simulator can be built here: builds every target once."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sim'))
import build, targets
for name, t in targets.TARGETS.items():
    print(name, build.build_target(name, t), flush=True)
