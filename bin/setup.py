#!/usr/bin/env python3
"""Warms the Go build cache, so that the checks build quickly."""
import os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
with tempfile.TemporaryDirectory() as d:
    check.build(d, False)
    check.build(d, True)
print("ok")
