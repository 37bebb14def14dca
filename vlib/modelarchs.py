#!/usr/bin/env python3
"""Writes spec/model-archs.ndjson, the archives that the model of the reader reads: python3 -m vlib.modelarchs"""
import os, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import tlc

with tempfile.TemporaryDirectory() as work:
    rc, txt, _ = tlc.run("ModelArchs", "ModelArchs.cfg", work, "archs", {"OUT": os.path.join(tlc.SPEC, "model-archs.ndjson")})
if "Error" in txt:
    sys.exit(txt)
