"""Alterations of messages on the wire: strategies (plain data) and their application."""
import cbor2
import hypothesis.strategies as st

import algs
import gen as G
from refcbor import enc, wild_from

# ------------------------------------------------------------------------------------------- byte strings

byte_op = st.one_of(
    st.tuples(st.just('flip'), st.integers(0, 10000)), st.tuples(st.just('flip'), st.integers(0, 10000)),
    st.tuples(st.just('flip'), st.integers(0, 63)), st.tuples(st.just('flip'), st.integers(-64, -1)),
    st.tuples(st.just('trunc'), st.integers(1, 40)), st.tuples(st.just('ext'), G.blob(1, 20)),
    st.tuples(st.just('pre'), G.blob(1, 20)), st.tuples(st.just('drop'), st.integers(1, 20)),
    st.just(('empty',)), st.just(('zero',)), st.tuples(st.just('fill'), st.integers(0, 255)), st.just(('dup',)),
    st.tuples(st.just('rot'), st.integers(1, 100)), st.just(('halves',)), st.just(('rev',)),
    st.tuples(st.just('half'), st.integers(0, 1)), st.tuples(st.just('byte'), st.integers(0, 10000), st.integers(0, 255)),
    st.tuples(st.just('set'), G.blob(0, 100))).map(list)


def mut_bytes(b, op):
    k = op[0]
    if k == 'flip':
        if not b:
            return b'\x01'
        i = op[1] % (8 * len(b))
        return b[:i // 8] + bytes([b[i // 8] ^ (1 << (i % 8))]) + b[i // 8 + 1:]
    if k == 'byte':
        i = op[1] % max(1, len(b))
        return b[:i] + bytes([op[2]]) + b[i + 1:]
    if k == 'trunc':
        return b[:-op[1]]
    if k == 'drop':
        return b[op[1]:]
    if k == 'ext':
        return b + op[1]
    if k == 'pre':
        return op[1] + b
    if k == 'empty':
        return b''
    if k == 'zero':
        return b'\0' * len(b)
    if k == 'fill':
        return bytes([op[1]]) * len(b)
    if k == 'dup':
        return b + b
    if k == 'rev':
        return b[::-1]
    if k == 'rot':
        i = op[1] % max(1, len(b))
        return b[i:] + b[:i]
    if k == 'halves':
        return b[len(b) // 2:] + b[:len(b) // 2]
    if k == 'half':
        return b[len(b) // 2:] if op[1] else b[:len(b) // 2]
    return op[1]



def far(n):
    """Alterations of n bytes, at their end and around the powers of two."""
    out = [['flip', -1], ['flip', 0], ['trunc', 1], ['ext', b'\0'], ['drop', 1], ['pre', b'\0']]
    i = 256
    while i < n:
        out += [['flip', 8 * i - 1], ['flip', 8 * i]]
        i *= 4 if i < 65536 else 2
    return out

# ------------------------------------------------------------------------------------------- headers

wild_choices = st.lists(st.sampled_from([0, 1, 1, 2, 3, 12, 13]), min_size=1, max_size=8)


@st.composite
def prot_op(draw):
    k = draw(st.sampled_from(['add', 'add', 'del', 'val', 'wild', 'raw', 'empty', 'a0', 'order', 'move', 'pull', 'tail']))
    if k == 'add':
        lab = draw(st.one_of(st.sampled_from([4, 3, 10, -3, 99, 'x']), G.unknown_label))
        return [k, lab, draw(G.value_for(lab)) if lab in (4, 3, 10) else draw(G.leaf)]
    if k in ('del', 'move', 'pull'):
        return [k, draw(st.integers(0, 5))]
    if k == 'val':
        return [k, draw(st.integers(0, 5)), draw(st.one_of(G.small, G.leaf))]
    if k == 'wild':
        return [k, draw(wild_choices)]
    if k == 'raw':
        return [k, draw(byte_op)]
    if k == 'tail':
        return [k, draw(G.blob(1, 8))]
    return [k]


def mut_headers(node, op):
    """Alter the protected (and perhaps unprotected) header of the structure `node` = [prot, uhdr, ...]."""
    k = op[0]
    prot, u = node[0], node[1]
    if k == 'raw':
        node[0] = mut_bytes(prot, op[1])
        return
    if k == 'tail':
        node[0] = prot + op[1]
        return
    if k == 'empty':
        node[0] = b''
        return
    if k == 'a0':
        node[0] = b'\xa0'
        return
    m = cbor2.loads(prot) if prot else {}
    if not isinstance(m, dict):
        return
    keys = list(m)
    if k == 'add':
        m[op[1]] = op[2]
    elif k == 'del' and keys:
        del m[keys[op[1] % len(keys)]]
    elif k == 'val' and keys:
        m[keys[op[1] % len(keys)]] = op[2]
    elif k == 'order':
        m = {x: m[x] for x in keys[::-1]}
    elif k == 'move' and keys:
        x = keys[op[1] % len(keys)]
        u[x] = m.pop(x)
    elif k == 'pull' and u:
        x = list(u)[op[1] % len(u)]
        m[x] = u.pop(x)
    elif k == 'wild':
        node[0] = enc(m, wild_from(op[1]))
        return
    node[0] = enc(m)


def prot_meaning(prot):
    """What of a protected header is authenticated: its bytes, all encodings of the empty map being one."""
    if prot == b'':
        return b''
    try:
        if cbor2.loads(prot) == {}:
            return b''
    except Exception:
        pass
    return prot


def find(node, label):
    """Value of an attribute in either bucket of a wire structure; ('both',) when in both; None when absent."""
    try:
        p = cbor2.loads(node[0]) if node[0] else {}
    except Exception:
        p = {}
    inp = isinstance(p, dict) and label in p
    inu = label in node[1]
    if inp and inu:
        return ('both',)
    return p[label] if inp else node[1].get(label)


_BY_NAME = {v: k for k, v in algs.ALG_NAMES.items()}


def find_alg(node):
    """The algorithm which the headers of a wire structure select, names and numbers being the same."""
    a = find(node, 1)
    return _BY_NAME.get(a.upper(), a) if isinstance(a, str) else a
