"""Import environment: the code under test from /repo, Hypothesis from the tools venv (or the wheelhouse)."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('PYCOSE_VERIF_OUT', VERIF)          # where evidence and replay files go; likewise
REPO = os.environ.get('PYCOSE_VERIF_REPO', '/repo')      # a scratch copy, for experiments only
_TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_DEPS = os.path.join(VERIF, '.deps')


class HarnessError(Exception):
    """Something is wrong with the harness or its environment; never a statement about the code under test."""


def setup():
    sys.dont_write_bytecode = True
    # read no stale byte code of the code under test
    sys.pycache_prefix = os.path.join(VERIF, '.pycache-none')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        import pycose.messages  # noqa
        import pycose.keys  # noqa
        import pycose.headers  # noqa
        import pycose.algorithms  # noqa
        import pycose.extensions.x509  # noqa
    finally:
        sys.pycache_prefix = None
    import pycose
    if not os.path.abspath(pycose.__file__).startswith(REPO + '/'):
        raise HarnessError('pycose imported from %s' % pycose.__file__)
    for p in (_DEPS, _TOOLS):
        if os.path.isdir(p) and p not in sys.path:
            sys.path.append(p)
    import hypothesis  # noqa
    return pycose
