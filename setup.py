#!/usr/bin/env python3
"""Builds the MIR exporter offline and warms the exported programs."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import load, plan, checker
load.driver()
r = checker.programs(sorted({c for p in plan.PLAN for c in plan.configs(p, 'quick')}))
for c, d in r.items():
    print(c, 'ok' if isinstance(d, dict) else d.what)
