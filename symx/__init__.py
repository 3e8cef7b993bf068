"""symx: a small symbolic executor for the Python code of /repo.

The modules of /repo are loaded from their current source, instrumented at the
few places where CPython would look through a symbolic proxy, and run natively on
proxies; z3 decides every branch and every assertion.
"""
import sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)  # z3; at the end, so that the project's own venv wins
