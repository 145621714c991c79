#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text, per-property sections from the registry, and the table of planted bugs from design_bugs.txt."""
import os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from galcheck.registry import PROPS, NOT_APPLICABLE  # noqa: E402
from galcheck.design import HEAD, HOW, TAIL  # noqa: E402

out = [HEAD]
out.append('## How each property is decided\n')
for p in PROPS:
    out.append('### %s %s\n' % (p.id, p.title))
    out.append(HOW[p.id].strip() + '\n')
out.append('## Not applicable\n')
for p in NOT_APPLICABLE:
    out.append('* **%s %s** – %s.' % (p.id, p.title, p.reason))
out.append('')
out.append(TAIL)
out.append(open(os.path.join(ROOT, 'design_bugs.txt')).read())
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
