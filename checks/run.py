#!/usr/bin/env python3
"""python3 checks/run.py <property id>"""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "lib")]
from check import Check, main
pid = sys.argv[1]
mod = importlib.import_module(pid.lower())
main(Check(pid, mod.TITLE), mod.body)
