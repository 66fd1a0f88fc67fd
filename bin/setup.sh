#!/bin/bash
# Builds the harness once (which fills the build cache) and checks that the specification parses.
cd "$(dirname "$0")/.." || exit 1
PYTHONDONTWRITEBYTECODE=1 python3 -c "
import sys; sys.path.insert(0, 'bin')
from vlib import *
build()
bad, st = conform([(b'a', '', {'A': '\"ok\"'})])
assert not bad, bad
print('ready')
"
