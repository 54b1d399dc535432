#!/bin/bash
# Builds the fact extractor and parses /repo once (later runs re-parse only what changed).
cd "$(dirname "$0")"
exec python3 -c "
import sys; sys.setrecursionlimit(20000)
from engine import facts
p = facts.program()
print('parsed', len(p.tus), 'units,', len(p.fns), 'functions')
"
