#!/usr/bin/env python3
"""tools/models.py PROP [thorough]: runs only the exhaustive models of one property."""
import os, sys, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vf import runner
from vf.props import PROPS
for p in (sys.argv[1].split(",") if sys.argv[1] != "all" else sorted(PROPS)):
    j = runner.Job(p, "quick", 1)
    os.makedirs(j.work)
    try:
        for m in PROPS[p].get("models", []) + (PROPS[p].get("models_thorough", []) if len(sys.argv) > 2 else []):
            try:
                j.model_check(m)
                x = j.stats["models"][-1]
                print("%s ok  %-34s states %-9d %6.1f s  expect %s" % (p, x["cfg"], x["states"], x["s"], x["expect"]), flush=True)
            except runner.CheckError as e:
                print("%s BAD %s %s" % (p, m["cfg"], str(e)[:1500]), flush=True)
    finally:
        shutil.rmtree(j.work, ignore_errors=True)
