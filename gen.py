#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from galcheck/registry.py."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from galcheck.registry import PROPS, NOT_APPLICABLE  # noqa: E402
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NOT_APPLICABLE:
        f.write(json.dumps(p.record(), ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='python3 check_setup.py',
         checks=[dict(property=p.id, quick_cmd='python3 check.py %s --tier quick' % p.id, thorough_cmd='python3 check.py %s --tier thorough' % p.id,
                      technique=p.technique, level=p.level, level_note=p.note) for p in PROPS],
         not_applicable=[dict(property=p.id, reason=p.reason) for p in NOT_APPLICABLE])
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
