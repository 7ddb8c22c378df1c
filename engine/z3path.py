"""Make the z3 bindings of the tooling venv importable under the repository's own interpreter."""
import sys
P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3  # noqa
except ImportError:
    if P not in sys.path:
        sys.path.append(P)
    import z3  # noqa
