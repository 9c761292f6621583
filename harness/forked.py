"""Run a function in a forked child, so that nothing it does to the code under test is left behind."""
import os
import pickle

from core import Violation
from env import HarnessError


def run(fn, *args):
    """fn's (picklable) result; a Violation in the child is raised here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ('ok', fn(*args))
            except Violation as e:
                out = ('violation', str(e))
            except BaseException as e:      # reported by the parent
                import traceback
                out = ('error', ''.join(traceback.format_exception(e)[-8:]))
            try:
                data = pickle.dumps(out)
            except Exception as e:
                data = pickle.dumps(('error', 'result cannot be sent: %r' % e))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError('the child died')
    kind, out = pickle.loads(data)
    if kind == 'violation':
        raise Violation(out)
    if kind == 'error':
        raise Violation('unexpected exception in a child process: %s' % out)
    return out
