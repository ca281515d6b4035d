#!/bin/sh
# DESIGN.md = design_text.md + the planted-bug table
cd "$(dirname "$0")/.." && { cat tools/design_text.md; echo; echo '## Planted bugs and the checks that catch them'; echo; python3 tools/make_planted_table.py; } > DESIGN.md
