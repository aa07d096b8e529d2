#!/usr/bin/env python3
"""Checks that the tools are there, and builds the harness once."""
import shutil, sys
import impl

for tool in ("cargo", "java"):
    if not shutil.which(tool):
        sys.exit("%s is missing" % tool)
impl.BUILD.mkdir(exist_ok=True)
impl.build()
print("ready")
