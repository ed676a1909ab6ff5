#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE 'old' 'new' NEEDS BREAKS TARGETFLAGS DEMOBODY  (called from small scripts; see seedlib)"""
import os, subprocess, json, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
FL = {"sse2": "-DHWY_COMPILE_ONLY_STATIC", "ssse3": "-mssse3 -DHWY_COMPILE_ONLY_STATIC", "sse4": "-msse4.2 -maes -mpclmul -DHWY_COMPILE_ONLY_STATIC", "avx2": "-march=haswell -maes -DHWY_COMPILE_ONLY_STATIC",
      "avx3": "-march=skylake-avx512 -maes -DHWY_COMPILE_ONLY_STATIC", "scalar": "-DHWY_COMPILE_ONLY_SCALAR", "emu": "-DHWY_COMPILE_ONLY_EMU128"}
VECHEAD = """#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include "hwy/highway.h"
%s
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE {
static int Test() {
%s
  return 0;
}
} }
HWY_AFTER_NAMESPACE();
int main() { int r = hwy::HWY_NAMESPACE::Test(); printf(r ? "WRONG (%%d)\\n" : "ok\\n", r); return r ? 1 : 0; }
"""
def seed(id, prop, edits, needs, breaks, target="avx2", body=None, inc="", src=None, extra="", cc="g++"):
    d = os.path.join(SEEDED, id); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed"); 
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, old, new, *nth in edits:
        p = os.path.join(w, "r", f); t = open(p).read(); n = nth[0] if nth else None
        if n is None:
            assert t.count(old) == 1, (id, f, t.count(old)); t = t.replace(old, new)
        else:
            parts = t.split(old); assert len(parts) > n + 1; t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, "w").write(t)
    diff = subprocess.check_output(["git", "diff"], cwd=w + "/r", text=True); assert diff
    open(d + "/patch.diff", "w").write(diff); shutil.rmtree(w)
    open(d + "/demo.cc", "w").write(src if src else VECHEAD % (inc, body))
    open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# Exit 0: behaves as documented; nonzero: does not.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf -- "$T"' EXIT
{cc} -std=c++17 -O1 -w {FL[target]} -I. "$D/demo.cc" {extra} -lpthread -o "$T/demo" || exit 2
timeout 120 "$T/demo"
""")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("seed", id)
