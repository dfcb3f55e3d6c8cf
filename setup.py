#!/usr/bin/env python3
"""Builds every harness once (checks rebuild what changed)."""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
import build as B
from registry import REGISTRY
done = set()
for prop, cfg in REGISTRY.items():
    prof = cfg.get("profile", "asan")
    if isinstance(prof, dict):
        prof = prof["quick"]
    k = (cfg["harness"], prof)
    if k in done:
        continue
    done.add(k)
    B.build(cfg["harness"], prof, extra_flags=[B.subst(s) for s in cfg.get("flags", [])],
            extra_sources=[B.subst(s) for s in cfg.get("sources", [])],
            libs=cfg.get("libs", ["-lpugixml"]), qt=cfg.get("qt", False))
    print("built", *k)
