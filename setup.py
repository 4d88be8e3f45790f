#!/usr/bin/env python3
"""Builds the executor and the (offline) dependencies of harness and replay once; checks rebuild what changed."""
import os, vlib
os.makedirs(vlib.BUILD, exist_ok=True)
vlib.build_engine()
for sub in ("", "wll"):
    vlib.build_bitcode(sub=sub)
    vlib.build_replay(sub=sub)
print("setup done")
