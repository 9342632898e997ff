"""symx: a small symbolic executor for the Python and Fortran code of tloredo/inference."""
import sys, warnings
warnings.filterwarnings('ignore')
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)      # at the END: z3 comes from there, numpy from /opt/venv
