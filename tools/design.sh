#!/bin/bash
# Rewrites the table of planted bugs at the end of DESIGN.md.
cd /verif || exit 2
n=$(grep -n '^|---|---|---|---|$' DESIGN.md | tail -1 | cut -d: -f1)
{ head -n "$n" DESIGN.md; python3 tools/seedtable.py; } > DESIGN.md.new && mv DESIGN.md.new DESIGN.md
