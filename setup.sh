#!/bin/bash
# Builds the analysis tools from the committed sources (checks rebuild them on demand as well).
cd "$(dirname "$0")" || exit 1
exec python3 -B - <<'P'
import sys, os, glob
sys.path.insert(0, "lib")
import build
for t in sorted(glob.glob("tools/*.cpp")):
    print(build.tool(os.path.basename(t)[:-4]))
P
