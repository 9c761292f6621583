"""A small CBOR encoder of our own, including non-preferred encodings.

enc(x)            preferred (shortest) encoding, maps in insertion order
enc(x, wild=gen)  gen() yields small ints that pick longer heads / indefinite lengths
"""
import struct


class Tag:
    __slots__ = ('tag', 'value')

    def __init__(self, tag, value):
        self.tag, self.value = tag, value

    def __repr__(self):
        return 'Tag(%r, %r)' % (self.tag, self.value)


class Raw(bytes):
    """Bytes which are already CBOR."""


class Undefined:
    pass


def head(major, n, bump=0):
    m = major << 5
    if n < 24:
        size = 0
    elif n < 1 << 8:
        size = 1
    elif n < 1 << 16:
        size = 2
    elif n < 1 << 32:
        size = 3
    else:
        size = 4
    size = min(4, size + bump)
    if size == 0:
        return bytes([m | n])
    return bytes([m | (23 + size)]) + n.to_bytes(1 << (size - 1), 'big')


_INF = float('inf')


def enc(x, wild=None):
    def pick():
        return wild() if wild is not None else 0

    if isinstance(x, Raw):
        return bytes(x)
    if x is False:
        return b'\xf4'
    if x is True:
        return b'\xf5'
    if x is None:
        return b'\xf6'
    if x is Undefined:
        return b'\xf7'
    if isinstance(x, int):
        if x >= 0:
            if x >= 1 << 64:
                return b'\xc2' + enc(x.to_bytes((x.bit_length() + 7) // 8, 'big'), wild)
            return head(0, x, pick() & 3)
        if -1 - x >= 1 << 64:
            y = -1 - x
            return b'\xc3' + enc(y.to_bytes((y.bit_length() + 7) // 8, 'big'), wild)
        return head(1, -1 - x, pick() & 3)
    if isinstance(x, float):
        if x != x or x in (_INF, -_INF):
            return b'\xf9' + struct.pack('>e', x)
        for ib, fmt in [(b'\xf9', '>e'), (b'\xfa', '>f')][(pick() - 1) & 3:]:
            # a shorter float, which the same number fits in
            try:
                short = struct.pack(fmt, x)
            except OverflowError:
                continue
            if struct.unpack(fmt, short)[0] == x:
                return ib + short
        return b'\xfb' + struct.pack('>d', x)
    if isinstance(x, (bytes, str)):
        major, raw = (2, bytes(x)) if isinstance(x, bytes) else (3, x.encode())
        c = pick()
        if c >= 12 and (major == 2 or x.isascii()):
            # indefinite length, in two chunks
            cut = len(raw) // 2
            return bytes([major << 5 | 31]) + head(major, cut) + raw[:cut] + \
                head(major, len(raw) - cut) + raw[cut:] + b'\xff'
        return head(major, len(raw), c & 3) + raw
    if isinstance(x, (list, tuple)):
        c = pick()
        body = b''.join(enc(i, wild) for i in x)
        if c >= 12:
            return b'\x9f' + body + b'\xff'
        return head(4, len(x), c & 3) + body
    if isinstance(x, dict):
        c = pick()
        body = b''.join(enc(k, wild) + enc(v, wild) for k, v in x.items())
        if c >= 12:
            return b'\xbf' + body + b'\xff'
        return head(5, len(x), c & 3) + body
    if isinstance(x, Tag):
        return head(6, x.tag, pick() & 3) + enc(x.value, wild)
    raise TypeError('cannot encode %r' % (x,))


def wild_from(choices):
    """An endless supply of encoding choices from a list of small ints (all preferred when it runs out)."""
    it = iter(choices)
    return lambda: next(it, 0)


def item_end(b, i=0, depth=0):
    """Index just behind the CBOR item which starts at i (raises on malformed input)."""
    if depth > 200:
        raise ValueError('too deep')
    ib = b[i]
    major, info = ib >> 5, ib & 31
    i += 1
    if info < 24:
        n = info
    elif info < 28:
        size = 1 << (info - 24)
        if i + size > len(b):
            raise ValueError('truncated')
        n = int.from_bytes(b[i:i + size], 'big')
        i += size
    elif info == 31 and major in (2, 3, 4, 5):
        while b[i] != 0xff:
            i = item_end(b, i, depth + 1)
        return i + 1
    else:
        raise ValueError('bad head')
    if major in (2, 3):
        if i + n > len(b):
            raise ValueError('truncated')
        return i + n
    if major in (4, 5):
        for _ in range(n * (major - 3)):
            i = item_end(b, i, depth + 1)
        return i
    if major == 6:
        return item_end(b, i, depth + 1)
    return i


class _Found(Exception):
    pass


RESOLVED = (25, 28, 29, 256, 55799)     # shared strings and values, self-description: the CBOR library resolves these tags


def odd_key(b, embedded=True):
    """Is there a tag or a NaN in the key of a map, or a resolved tag (as far as the bytes can be read)? Byte strings are looked into, too.

    The CBOR library hashes tags, and after failing to do so once it may fail again on innocent input; a map with NaN as
    a key is not equal to itself."""
    def walk(i, key, depth):
        if depth > 100:
            raise ValueError('too deep')
        ib = b[i]
        major, info = ib >> 5, ib & 31
        i += 1
        n = info
        if 24 <= info < 28:
            size = 1 << (info - 24)
            if i + size > len(b):
                raise ValueError('truncated')
            n = int.from_bytes(b[i:i + size], 'big')
            i += size
        elif info == 31 and major in (2, 3, 4, 5):
            j = 0
            while b[i] != 0xff:
                i = walk(i, key or (major == 5 and j % 2 == 0), depth + 1)
                j += 1
            return i + 1
        elif info >= 28:
            raise ValueError('bad head')
        if major in (2, 3):
            if major == 2 and embedded and n and depth < 20 and odd_key(b[i:i + n]):
                raise _Found
            if i + n > len(b):
                raise ValueError('truncated')
            return i + n
        if major in (4, 5):
            for j in range(n * (major - 3)):
                i = walk(i, key or (major == 5 and j % 2 == 0), depth + 1)
            return i
        if major == 6:
            if key or n in RESOLVED:
                raise _Found
            return walk(i, key or n == 258, depth + 1)     # 258: a set
        if key and 25 <= info <= 27:
            f = struct.unpack({25: '>e', 26: '>f', 27: '>d'}[info], b[i - (1 << (info - 24)):i])[0]
            if f != f:
                raise _Found
        return i
    try:
        walk(0, False, 0)
    except _Found:
        return True
    except (ValueError, IndexError):
        pass
    return False
