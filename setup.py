#!/usr/bin/env python3
"""Builds what the checks need (each check also builds it itself when it is missing)."""
import sys, threading
import check, layer_a

errors = {}
ts = [threading.Thread(target=check.build, args=(c, errors)) for c in check.CONFIGS]
[t.start() for t in ts]
[t.join() for t in ts]
x, e = layer_a.extractor()
if x is None:
    errors['extractor'] = e
for c, e in errors.items():
    print(c, e)
sys.exit(1 if errors else 0)
