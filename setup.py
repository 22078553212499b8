#!/usr/bin/env python3
"""Builds what the checks share, so that the first check does not pay for it."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import common, replay  # noqa: E402
os.makedirs(common.BUILD, exist_ok=True)
os.makedirs(common.EVIDENCE, exist_ok=True)
print(f"replay crate built in {replay.build():.0f} s")
