#!/usr/bin/env python3
"""Builds what the checks need (they rebuild whatever is missing or changed themselves)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vf
print(vf.build_daemon("asan"))
print(vf.build_client("asan"))
