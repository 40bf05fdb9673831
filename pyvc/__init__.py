"""pyvc: a small deductive verifier for the Python code of /repo (see DESIGN.md)."""
import sys

# z3/cvc5 come from the verification venv; appended (not prepended) so that the
# project's own numpy/xarray/zarr keep priority.
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
