#!/bin/sh
# Builds muon from /repo and the helpers (cached in .build, rebuilt on change).
cd "$(dirname "$0")" && exec python3 -c "
from vf import common
common.build_muon()
import os
for h in sorted(os.listdir('vf/helpers')):
    if h.endswith('.c'): common.build_helper(h[:-2])
"
