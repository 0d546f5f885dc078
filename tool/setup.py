#!/usr/bin/env python3
"""Builds every simulator binary once, to show that the framework builds here."""
import os, shutil, sys, tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import overlay
from props import PROPS

done = set()
for m in PROPS.values():
    if m["area"] in done:
        continue
    done.add(m["area"])
    d = tempfile.mkdtemp(prefix="verifsim-setup-")
    try:
        overlay.prepare(d, m["area"], m["pkgs"], m.get("lib", ()))
        overlay.compile_(d, m["area"], False)
        print("built simulator for", m["area"])
    finally:
        shutil.rmtree(d, ignore_errors=True)
