"""Regenerate MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, '/repo', '/repo/segpy-ext/segpy_numpy']
sys.dont_write_bytecode = True

checks, missing = [], []
with open(os.path.join(VERIF, 'properties.jsonl')) as f:
    ids = [json.loads(line)['id'] for line in f]
for p in ids:
    if not os.path.exists(os.path.join(VERIF, 'checks', p.lower() + '.py')):
        missing.append({'property': p, 'reason': 'the check for it has not been built yet'})
        continue
    c = importlib.import_module('checks.' + p.lower()).CHECK
    assert c.id == p, (c.id, p)
    checks.append({'property': p, 'quick_cmd': './run.sh %s --tier quick' % p,
                   'thorough_cmd': './run.sh %s --tier thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                   'technique': c.technique, 'level': c.level, 'level_note': c.level_note})
manifest = {'version': 1,
            'setup_cmd': '/opt/venv/bin/python -B -c "import segpy, sys; print(sys.version)" && chmod +x run.sh && mkdir -p evidence',
            'checks': checks, 'not_applicable': missing,
            'notes': 'No hooks are needed: the explorer drives the public API, wraps the file objects it passes in, and '
                     'schedules threads with audit hooks and line tracing. See DESIGN.md.'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(missing), 'without')
