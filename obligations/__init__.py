"""All obligations, one module per component."""
import importlib, pkgutil
OBLIGATIONS = []
for m in sorted(x.name for x in pkgutil.iter_modules(__path__)):
    OBLIGATIONS += importlib.import_module(__name__ + '.' + m).OBLIGATIONS
_seen = set()
for _o in OBLIGATIONS:
    assert (_o['prop'], _o['name']) not in _seen, _o['name']
    _seen.add((_o['prop'], _o['name']))
