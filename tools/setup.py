#!/usr/bin/env python3
"""Builds every harness once (objects are cached by content, a check rebuilds whatever changed)."""
import os, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import check
from registry import REG
jobs = [(p + "-" + h, c) for p, r in sorted(REG.items()) for h, c in r["harnesses"] if "main" in c]
check.prepare(sorted({c.get("variant", "asan") for _, c in jobs}))
bad = 0
def one(j):
    try: check.build(*j); return None
    except check.BuildError as e: return "%s: %s" % (j[0], str(e)[:800])
with cf.ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, jobs):
        if r: bad += 1; print(r)
print("setup: %d harnesses, %d failed" % (len(jobs), bad))
sys.exit(1 if bad else 0)
