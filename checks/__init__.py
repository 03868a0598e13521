import importlib
MODULES = ['scalars', 'gen', 'runtime', 'blobs', 'api', 'errors', 'hostile', 'schemas', 'compiler', 'carried']
def registry():
    r = {}
    for m in MODULES:
        r.update(importlib.import_module('checks.' + m).CHECKS)
    return r

def level(pid, fn):
    return getattr(fn, 'level', 'translation_validation' if pid.startswith('G') else 'proof')
