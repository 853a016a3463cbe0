"""The registered sub-checks: {property: [(name, rule)]}."""
import os
import sys
import tempfile

root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.dont_write_bytecode = True
with tempfile.TemporaryDirectory() as tmp:
    os.environ.update(NUMBA_CACHE_DIR=tmp, MPLBACKEND="Agg", MPLCONFIGDIR=tmp)
    sys.pycache_prefix = tmp
    sys.path[:0] = [root, "/repo"]
    sys.path.append(os.path.join(root, ".deps"))
    import vf.checks  # noqa
    from vf.core import SUBS
ALL = {p: [(s.name, s.rule) for s in SUBS[p]] for p in sorted(SUBS)}
