#!/usr/bin/env python3
"""Builds the analyzers (checks build them too if they are missing)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from concurrent.futures import ThreadPoolExecutor
tools = sorted(f[:-4] for f in os.listdir(os.path.join(VERIF, "sa")) if f.endswith(".cpp"))
with ThreadPoolExecutor(JOBS) as ex: list(ex.map(build_tool, tools))
print("built", ", ".join(tools))
