"""Write MANIFEST.json for all checks in mc/checks."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

TECHNIQUE = {
    'model_checking': 'explicit-state enumeration of all cases within bounds, '
                      'executed on the real code and compared with a '
                      'reference model',
    'fault_enumeration': 'exhaustive enumeration of fault points, each '
                         'executed on the real code',
}
checks = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    prop = json.loads(line)['id']
    name = 'mc.checks.' + prop.lower()
    if not os.path.exists(os.path.join(ROOT, name.replace('.', '/') + '.py')):
        continue
    module = importlib.import_module(name)
    checks.append({
        'property': prop,
        'quick_cmd': './check.sh %s quick' % prop,
        'thorough_cmd': './check.sh %s thorough' % prop,
        'technique': getattr(module, 'TECHNIQUE', TECHNIQUE[module.LEVEL]),
        'level': module.LEVEL,
        'level_note': 'Holds for every case within these bounds: %s. %s' % (
            module.BOUNDS, ' '.join('Assumes: %s.' % a.rstrip('.')
                                    for a in module.ASSUMPTIONS))})
manifest = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -B -c "import numpy, h5py, scipy.io"',
    'checks': checks, 'not_applicable': [],
    'notes': 'Pure Python: each check imports dsch freshly from /repo (no '
             'byte code cache), so nothing has to be built.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as file_:
    json.dump(manifest, file_, indent=1)
    file_.write('\n')
print(len(checks), 'checks')
