#!/usr/bin/env python3
"""Builds the library and every driver once (warms the compiler cache)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, props
t = sorted({x for _, ts in props.CHECKS.values() for x in ts})
vlib.build(t)
print("built", t)
