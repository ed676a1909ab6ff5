#!/usr/bin/env python3
"""replay.py FILE: compiles the harness named in a replay file natively against /repo and runs the recorded inputs."""
import os, re, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [HERE, os.path.join(HERE, "harness")]
import check, config
path = sys.argv[1]; head = open(path).readline()
prop, goal, module = re.search(r"property (\S+) goal (\S+) module (\S+)", head).groups()
name, target, flavor = module.rsplit(".", 2)
cfg = config.PROPS[prop]
unit = next(u for u in cfg["units"] + cfg.get("thorough", {}).get("units", []) if os.path.splitext(os.path.basename(u["src"]))[0] == name)
work = tempfile.mkdtemp(prefix="vp.replay.")
try:
    got, tries = check.replay(work, os.path.join(HERE, "harness", unit["src"]), target, flavor, unit.get("flags", []), goal, path, "memory" if "memory" in open(path).read(400) else "check")
    print(got or "not reproduced: " + "; ".join(tries)); sys.exit(1 if got else 0)
finally: shutil.rmtree(work, ignore_errors=True)
