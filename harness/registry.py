"""What MANIFEST.json claims: every harness module present here."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True

NOTE = ('Symbolic execution of the real functions, every check decided by z3 over all inputs and draws within stated '
        'bounds (sizes fixed, values free; exact reals for floats). Counterexamples are replayed on the real code.')
MANIFEST_INFO = {}
NOT_APPLICABLE = {}
for _f in sorted(os.listdir(HERE)):
    if _f.startswith('c') and _f[1:3].isdigit() and _f.endswith('.py'):
        m = importlib.import_module('harness.' + _f[:-3])
        note = NOTE + ' Bounds: ' + '; '.join('%s: %s' % (h.name, h.bounds) for h in m.H)[:1500]
        if getattr(m, 'NOT_COVERED', None):
            note += ' Not covered: ' + '; '.join(m.NOT_COVERED)
        MANIFEST_INFO[_f[:3].upper()] = note
