"""Faults at the calls the code under test makes into other libraries: the n-th such call raises instead of being made."""
import sys

from sched import ROOT

LIBRARIES = ('cryptography', 'cbor2', '_cbor2', 'ecdsa', 'posix', 'binascii', '_hashlib', 'ec', 'asn1crypto', 'certvalidator')


class Fault(Exception):
    pass


def module(fn):
    own = getattr(fn, '__self__', None)
    name = getattr(fn, '__module__', None) or type(own).__module__
    return (name or '').partition('.')[0]


def run(fn, at=None):
    """fn() with a fault at call number `at`; returns the result (or Fault) and the number of calls seen."""
    n = 0

    def prof(frame, event, arg):
        nonlocal n
        if event == 'c_call':
            if not frame.f_code.co_filename.startswith(ROOT) or module(arg) not in LIBRARIES:
                return
        elif event == 'call':
            back = frame.f_back
            if back is None or not back.f_code.co_filename.startswith(ROOT) or frame.f_code.co_filename.startswith(ROOT) or \
                    (frame.f_globals.get('__name__') or '').partition('.')[0] not in LIBRARIES:
                return
        else:
            return
        n += 1
        if n - 1 == at:
            raise Fault('call %d' % at)
    sys.setprofile(prof)
    try:
        out = fn()
    except Fault as e:
        out = e
    finally:
        sys.setprofile(None)
    return out, n
