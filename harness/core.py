"""What checks are written with: facets, the recorder and the assertion helpers."""
import hashlib


class Violation(AssertionError):
    """The property does not hold for this case."""


class Facet:
    def __init__(self, name, strategy, check, quick, thorough=None, enum=None, shards=4, driver=None):
        self.name = name
        self.strategy = strategy        # callable returning a Hypothesis strategy, or None
        self.check = check              # check(case, rec)
        self.quick = quick
        self.thorough = thorough or quick * 25
        self.enum = enum                # callable returning a list of cases which are always run
        self.shards = shards
        self.driver = driver            # driver(job, n, seed), instead of a strategy


class Rec:
    """Counts what a check actually covered."""

    def __init__(self):
        self.evaluations = 0
        self.labels = {}
        self.seen = set()
        self.samples = []
        self._nt = False

    def begin(self):
        self.evaluations += 1
        self._nt = False

    def nt(self):
        """This case is non-trivial by the rule of the property."""
        self._nt = True

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def end(self, case):
        if self._nt:
            h = hashlib.blake2b(repr(case).encode('utf-8', 'replace'), digest_size=8).digest()
            if h not in self.seen:
                self.seen.add(h)
                n = len(self.seen)
                if n in (3, 40, 400) and len(self.samples) < 3:
                    r = repr(case)
                    self.samples.append(r if len(r) < 1500 else r[:1500] + '...')


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def expect(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def same(a, b):
    """Equality that keeps True, 1 and 1.0 (and bytes and str) apart, all the way down."""
    if isinstance(a, type) or isinstance(b, type):
        return a is b
    if type(a) is not type(b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        if not (hasattr(a, 'items') and hasattr(b, 'items')):
            return False
    if hasattr(a, 'items') and hasattr(b, 'items'):
        if len(a) != len(b):
            return False
        ka = {(k.__class__, k): k for k in a}
        for k in b:
            if (k.__class__, k) not in ka or not same(a[ka[(k.__class__, k)]], b[k]):
                return False
        return True
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    if hasattr(a, 'tag') and hasattr(a, 'value'):
        return a.tag == b.tag and same(a.value, b.value)
    if hasattr(a, 'as_bytes'):
        return a.as_bytes() == b.as_bytes()     # a MIME message, which has no equality
    return a == b


def eq(got, want, what):
    if not same(got, want):
        fail('%s: got %s, expected %s', what, short(got), short(want))


def short(x):
    try:
        r = x.hex() if isinstance(x, bytes) else repr(x)
    except Exception:   # a broken __repr__ must not hide the finding
        r = object.__repr__(x)
    return r if len(r) < 400 else r[:400] + '...'


class Raised:
    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return 'raised %s: %s' % (type(self.exc).__name__, self.exc)


def attempt(fn, *args, **kw):
    """The result of fn, or Raised(...)."""
    try:
        return fn(*args, **kw)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        return Raised(e)


def refused(what, fn, *args, **kw):
    """fn must raise an ordinary exception."""
    r = attempt(fn, *args, **kw)
    if not isinstance(r, Raised):
        fail('%s: was accepted and returned %s', what, short(r))
    return r.exc


def not_true(what, fn, *args, **kw):
    """fn must not return anything that counts as true (False or an exception are both fine)."""
    r = attempt(fn, *args, **kw)
    if isinstance(r, Raised):
        return r
    if r:
        fail('%s: was accepted and returned %s', what, short(r))
    return r


def is_true(what, got):
    if got is not True:
        fail('%s: got %s instead of True', what, short(got))


def fresh_bits(values, size, clamped=0):
    """Generated values of this many bits look like a fair generator made them: none twice, every bit varies (but the
    clamped ones), and no two bits are always equal or always different. For 60 values a fair generator fails this with a
    probability below 10**-11."""
    mask = (1 << size) - 1
    ones = zeros = 0
    expect(len(set(values)) == len(values), 'a generated key is used twice')
    for v in values:
        expect(0 <= v <= mask, 'generated key too large')
        ones |= v
        zeros |= ~v & mask
    free = ones & zeros
    expect(free | clamped == mask, 'bits of the generated keys never change: %x', mask & ~(free | clamped))
    cols = {}
    for i in range(size):
        if free >> i & 1:
            col = tuple(v >> i & 1 for v in values)
            if col[0]:
                col = tuple(1 - b for b in col)
            expect(col not in cols, 'bits %s and %s of the generated keys always go together', i, cols.get(col))
            cols[col] = i
