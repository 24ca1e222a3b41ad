#!/bin/bash
# Builds the native harness and warms the MIR build; the checks redo both from /repo's current tree.
cd "$(dirname "$0")"
python3-vt - <<'P'
import sys
sys.path.insert(0, '.')
from vc import common
import os
for c, p in (('intl', 'intl_pluralrules'), ('parser', 'cldr_pluralrules_parser'), ('gen', 'make_pluralrules')):
    if not os.path.exists('native/%s/Cargo.toml' % c):
        continue
    try:
        common.build_native(c)
        common.emit_mir(c, p)
    except Exception as e:
        print('setup: %s: %s' % (c, str(e)[-500:]))
from vc import tool
try:
    tool.build_tool()
    common.emit_bin_mir('gen', 'make_pluralrules', 'make_pluralrules')
except Exception as e:
    print('setup: tool: %s' % str(e)[-500:])
P
exit 0
