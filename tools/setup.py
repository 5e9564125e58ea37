#!/usr/bin/env python3
"""Prepare what the checks share: the compiled Java twins and Go's build cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

vlib.classes()
KW = {"dagman": dict(pkgs=("yield",), hook=True, instrument=("internal/dag",))}
for d in sorted(os.listdir(os.path.join(vlib.ROOT, "drivers"))):
    if d not in ("rec", "yield", "hooks", "inpkg") and os.path.exists(os.path.join(vlib.ROOT, "drivers", d, "main.go")):
        vlib.build_driver(d, **KW.get(d, {}))
vlib.build_driver("clients", flags=["-race"], tag="race")
vlib.build_driver("clients", tag="386", arch="386")
import checks
checks.dagman(True)
print("setup done")
