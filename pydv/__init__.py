"""pydv: a contract-based deductive verifier for the Python subset used by yaocptool."""
import sys
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
