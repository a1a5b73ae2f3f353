"""helper: mk(id, property, [(file, old, new), ...], needs, what, demo_body) writes /verif/seeded/<id>/"""
import json, os, subprocess, shutil, tempfile
from pathlib import Path
PRE = r'''// demonstration: exits 0 when the behaviour is right, 1 when it is not
#include "slide.hpp"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <memory>
#include <fstream>
#include <sstream>
#include <iostream>
#include <vector>
#include <set>
#include <map>
#include <string>
using namespace slide;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); bad = 1; } } while (0)
static bool near(double a, double b, double tol = 1e-9) { return std::abs(a - b) <= tol * (1 + std::abs(b)); }
'''
SH = r'''#!/bin/bash
# builds demo.cpp against the library of the current tree and runs it in a scratch folder
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d "${TMPDIR:-/tmp}/slide-demo-XXXXXX")
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/a/b" "$T/o" "$T/results"
ln -s "$R/data" "$T/data"
INC="-I$R/src"
for d in $(find "$R/src" -name CMakeLists.txt -printf '%h\n'); do INC="$INC -I$d"; done
SRCS=$(find "$R/src/cells" "$R/src/modules" "$R/src/cooling" "$R/src/power_conversion" "$R/src/system" "$R/src/procedures" "$R/src/factories" -name '*.cpp' \
  ! -name 'degradation.cpp' ! -name 'determine_*' ! -name '*_fitting.cpp' ! -name 'paperCode.cpp')
export INC T
printf '%s\n' "$D/demo.cpp" $SRCS | xargs -P 8 -I{} sh -c 'g++ -std=c++20 -O1 -w -pthread @FLAGS@ $INC -c "{}" -o "$T/o/$(echo "{}" | tr / _).o"' || { echo "build failed"; exit 99; }
g++ -pthread @FLAGS@ "$T"/o/*.o -o "$T/demo" || { echo "link failed"; exit 99; }
cd "$T/a/b" && timeout 200 "$T/demo"
'''
def mk(id, prop, edits, needs, what, demo, flags=""):
    d = Path("/verif/seeded") / id
    d.mkdir(parents=True, exist_ok=True)
    w = Path(tempfile.mkdtemp())
    diff = ""
    files = {}
    for f, old, new in edits:
        s = files.get(f) or Path("/repo", f).read_text()
        assert s.count(old) == 1, (f, s.count(old), old)
        files[f] = s.replace(old, new)
    for f, s in files.items():
        (w / "b").write_text(s)
        r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, str(w / "b")], capture_output=True, text=True)
        diff += r.stdout
    (d / "patch.diff").write_text(diff)
    (d / "demo.cpp").write_text(PRE + demo)
    (d / "demo.sh").write_text(SH.replace("@FLAGS@", flags))
    (d / "meta.json").write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=what), indent=1) + "\n")
    shutil.rmtree(w)
    # does the patch change original lines?
    base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
    for f, old, new in edits:
        o = subprocess.run(["git", "-C", "/repo", "show", base + ":" + f], capture_output=True, text=True).stdout
        gone = [l for l in old.splitlines() if l not in new.splitlines()]
        if any(l not in o for l in gone): print("warning: changes a line of ours:", f, gone)
    print("wrote", d)
