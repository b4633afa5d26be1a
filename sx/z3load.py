"""Import z3 from the verification venv without exposing its other packages."""
import sys

_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if "z3" not in sys.modules:
    sys.path.append(_P)
    try:
        import z3  # noqa
    finally:
        sys.path.remove(_P)
import z3  # noqa
