import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get('DSCH_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:] = [p for p in sys.path if p not in ('', os.getcwd(), HERE)]
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

if len(sys.argv) > 1 and (sys.argv[1].upper() in ('C15', 'C17') or
                          sys.argv[1] == 'replay'):
    from mc import faults
    faults.preload()

# Third-party modules may use their byte code caches, dsch must not: it is
# always compiled from the current source.
import numpy      # noqa: E402,F401
import h5py       # noqa: E402,F401
import scipy.io   # noqa: E402,F401
import asciitree  # noqa: E402,F401

sys.pycache_prefix = '/nonexistent/dsch-mc'

from mc import core  # noqa: E402

sys.exit(core.main())
