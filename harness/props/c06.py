"""C06 Tag verification accepts nothing that was not MACed."""
import copy

import cbor2
import hypothesis.strategies as st

import algs
import build as B
import gen as G
import msgs as M
import refcose as R
import tamper as T
from core import Facet, Raised, attempt, is_true, not_true, refused
from refcbor import Tag, enc

RULE = ('A MACed message is made by the library and verified as a control; then several alterations are drawn (protected '
        'header on the wire and in memory, payload, external data, tag, algorithm, key, recipient information, transfer '
        'between message kinds) and verification of each result must not be true. For the fixed messages every single-bit '
        'change of the tag and every proper prefix of it is enumerated. Non-trivial: at least one alteration changed what '
        'is authenticated.')
ASSUMPTIONS = ['no forgery by chance (tags of 8 bytes and more)',
               'HMAC keys that differ only in trailing zeros are the same HMAC key (RFC 2104)',
               'an ECDH peer point and its negation yield the same secret']


@st.composite
def mutation(draw, c):
    kinds = ['prot', 'prot', 'payload', 'payload', 'null', 'aad', 'tag', 'tag', 'alg', 'key', 'transfer', 'obj', 'obj']
    if c['k'] == 'mac' and c['rcpts'][0]['t'] != 'direct':
        kinds += ['rcpt', 'rcpt', 'rkey']
    k = draw(st.sampled_from(kinds))
    m = {'m': k}
    if k == 'prot':
        m['op'] = draw(T.prot_op())
    elif k in ('payload', 'aad', 'tag'):
        m['op'] = draw(T.byte_op)
    elif k == 'alg':
        m['alg'] = draw(G.mac_alg)
    elif k == 'key':
        m['key'] = draw(G.mac_key(c['alg']))
        m['flip'] = draw(st.one_of(st.none(), st.integers(0, 255)))
    elif k == 'transfer':
        m['v'] = draw(st.integers(0, 3))
    elif k == 'obj':
        m['what'] = draw(st.sampled_from(['phdr_update', 'phdr', 'payload', 'nopayload', 'aad', 'tag', 'key', 'keyin']))
        m['op'] = draw(T.byte_op)
        m['val'] = draw(G.small)
        m['drop'] = draw(st.booleans())
        m['pre'] = draw(st.integers(0, 2))
        if m['what'] in ('key', 'keyin'):
            m['key'] = draw(G.mac_key(c['alg']))
    elif k == 'rcpt':
        m['op'] = draw(st.sampled_from(['ct', 'ct', 'prot', 'party', 'peer']))
        m['b'] = draw(T.byte_op)
        m['p'] = draw(T.prot_op())
        m['lab'] = draw(st.sampled_from(M.PARTY))
        m['d'] = draw(st.integers(2, 10**9))
    elif k == 'rkey':
        m['v'] = draw(st.integers(1, 10**9))
    return m


def tag_of(wire):
    return wire[3]


def rcpt_effective(r, op):
    """Does this recipient depend on the altered part?"""
    return {'kw': op == 'ct', 'oaep': op == 'ct', 'dka': op in ('prot', 'party', 'peer'),
            'kakw': True}[r['t']]


def alter_rcpt(c, wire, m):
    """Alter what the receiver of recipient `who` needs to obtain the key. True if altered."""
    i = c['who']
    r, node = c['rcpts'][i], wire[-1][i]
    op = m['op']
    if not rcpt_effective(r, op):
        return False
    if op == 'ct':
        new = T.mut_bytes(node[2], m['b'])
        if new == node[2]:
            return False
        node[2] = new
        return True
    if op == 'prot':
        before = T.prot_meaning(node[0]), T.find_alg(node)
        T.mut_headers(node, m['p'])
        return (T.prot_meaning(node[0]), T.find_alg(node)) != before and before[0] != T.prot_meaning(node[0])
    if op == 'party':
        lab = m['lab']
        old = T.find(node, lab)
        p = cbor2.loads(node[0]) if node[0] else {}
        new = b'\x01' if old is None else old ^ 1 if isinstance(old, int) else None if not old else T.mut_bytes(old, m['b'])
        if new == old:
            return False
        if lab in p:
            p[lab] = new
            node[0] = enc(p)
        else:
            node[1][lab] = new
        return True
    es = algs.ECDH[r['alg']][1]
    lab = -1 if es else -2
    x, y = B.refcose.ec_pub(r['rk']['crv'], m['d'])
    peer = {1: 2, -1: algs.CURVE_ID[r['rk']['crv']], -2: x, -3: y}
    p = cbor2.loads(node[0]) if node[0] else {}
    bucket = p if lab in p else node[1]
    if bucket[lab][-2] == x:
        return False
    bucket[lab] = peer
    if bucket is p:
        node[0] = enc(p)
    return True


def other_rkey(r, n):
    """Another key of the same kind for the receiver."""
    r = copy.deepcopy(r)
    if r['t'] == 'kw':
        r['key'] = {'kt': 'sym', 'k': B.refcose._xor(r['key']['k'], (n % 2**127 + 1).to_bytes(len(r['key']['k']), 'big'))}
    elif r['t'] == 'oaep':
        bits = B.fix.RSA_BITS
        r['key'] = {'kt': 'rsa', 'i': (r['key']['i'] + 1 + n % (len(bits) - 1)) % len(bits)}
    else:
        d = n % 2**60 + 1
        q = B.refcose.EC[r['rk']['crv']][2]
        if d == r['rk']['d'] or d == q - r['rk']['d']:
            d += 7
        r['rk'] = {**r['rk'], 'd': d}
    return r


def arm_and_verify(c, data):
    msg = B.CoseMessage.decode(data)
    M.arm(c, msg)
    return msg, msg.verify_tag


def meaning(c, wire):
    key = c['key']['k'] if 'key' in c else b''
    if c['alg'] in (4, 5, 6, 7):
        key = key.rstrip(b'\0')
    return T.prot_meaning(wire[0]), wire[2], c['aad'], wire[3], repr(T.find_alg(wire)), key


def transferred(c, wire, v):
    """The same content, key and cryptographic result as a message of the other kind."""
    if c['k'] == 'mac0':
        if v < 2:
            r, node = {'t': 'direct'}, [b'', {1: -6}, b'']
        elif v == 2:
            kek = G.expand(3, 16)
            r = {'t': 'kw', 'key': {'kt': 'sym', 'k': kek}, 'rp': {}, 'kp': {}, 'kf': 0, 'vf': 0}
            node = [b'', {1: -3}, R.kw_wrap(kek, c['key']['k'])]
        else:
            # no recipient at all: the key is used as it is
            return {**c, 'k': 'mac', 'rcpts': []}, wire
        return {**c, 'k': 'mac', 'who': 0, 'rcpts': [r]}, wire + [[node]]
    i = c['who']
    c2 = {x: y for x, y in c.items() if x != 'rcpts'}
    if c['rcpts'][i]['t'] != 'direct':
        c2.update(key={'kt': 'sym', 'k': M.ref_open_recipient(c, i, wire[-1][i])}, kp={}, vp={}, kf=0, vf=0)
    return {**c2, 'k': 'mac0'}, wire[:-1]


def apply(c0, data, m, rec):
    c = copy.deepcopy(c0)
    wire = cbor2.loads(data).value
    before = meaning(c, wire)
    k = m['m']
    what = 'verification after %s' % m
    tag = M.TAG[c['k']]
    if k == 'obj':
        msg, verify = arm_and_verify(c, data)
        w = m['what']
        back = None
        for _ in range(m['pre']):
            # the object has been used for a genuine verification before it changes
            is_true('verification before an alteration in memory', verify())
        if w in ('phdr', 'phdr_update'):
            lab = B.pycose.headers.KID
            new = dict(msg.phdr)
            if m['drop'] and w == 'phdr':
                new = {B.pycose.headers.Algorithm: B.alg_class(c['alg'])} if lab in new else {}
            else:
                new[lab] = m['val']
            if B.frozen(new) == B.frozen(msg.phdr):
                return
            if B.pycose.headers.Algorithm not in new and B.pycose.headers.Algorithm in msg.phdr:
                msg.uhdr_update({B.pycose.headers.Algorithm: B.alg_class(c['alg'])})
            if w == 'phdr':
                msg.phdr = new
            else:
                msg.phdr_update({lab: m['val']})
            if not new and not T.prot_meaning(wire[0]):
                return
        elif w == 'payload':
            new = T.mut_bytes(wire[2], m['op'])
            if new == wire[2]:
                return
            msg.payload = new
            back = (msg, 'payload', wire[2])
        elif w == 'nopayload':
            msg.payload = None
            back = (msg, 'payload', wire[2])
        elif w == 'aad':
            new = T.mut_bytes(c['aad'], m['op'])
            if new == c['aad']:
                return
            msg.external_aad = new
            back = (msg, 'external_aad', c['aad'])
        elif w in ('key', 'keyin'):
            old, new = msg.key.k, m['key']['k']
            if new == old or c['alg'] in (4, 5, 6, 7) and new.rstrip(b'\0') == old.rstrip(b'\0'):
                return
            if w == 'key':
                back = (msg, 'key', msg.key)
                msg.key = B.key(m['key'], True, c.get('vp'), c.get('vf', 0))
            else:
                back = (msg.key, 'k', old)
                msg.key.k = new
        else:
            new = T.mut_bytes(wire[3], m['op'])
            if new == wire[3]:
                return
            msg.auth_tag = new
            back = (msg, 'auth_tag', wire[3])
        not_true(what, verify)
        if w == 'nopayload' and c['k'] == 'mac0':
            refused('verification without a payload', msg.verify_tag)
            refused('MACing without a payload', msg.compute_tag)
        if back:
            setattr(*back)
            is_true('verification after the alteration was undone', verify())
        rec.label('in memory: ' + w)
        rec.nt()
        return
    if k == 'transfer':
        c2, wire = transferred(c, wire, m['v'])
        v = attempt(arm_and_verify, c2, enc(Tag(114 - tag, wire)))
        if not isinstance(v, Raised):
            not_true(what, v[1])
        rec.label('transfer between message kinds')
        rec.nt()
        return
    changed = False
    if k == 'prot':
        T.mut_headers(wire, m['op'])
    elif k == 'null':
        wire[2] = None
    elif k == 'payload':
        wire[2] = T.mut_bytes(wire[2], m['op'])
    elif k == 'aad':
        c['aad'] = T.mut_bytes(c['aad'], m['op'])
    elif k == 'tag':
        wire[3] = T.mut_bytes(wire[3], m['op'])
    elif k == 'alg':
        p = cbor2.loads(wire[0]) if wire[0] else {}
        if 1 in p:
            p[1] = m['alg']
            wire[0] = enc(p)
        else:
            wire[1][1] = m['alg']
        if 'vp' in c:
            c['vp'] = {x: y for x, y in c['vp'].items() if x != 3}
    elif k == 'key':
        if 'key' not in c:
            return
        if m['flip'] is None:
            c['key'] = m['key']
        else:
            c['key'] = {'kt': 'sym', 'k': T.mut_bytes(c['key']['k'], ['flip', m['flip']])}
    elif k == 'rcpt':
        changed = alter_rcpt(c, wire, m)
    elif k == 'rkey':
        c['rcpts'][c['who']] = other_rkey(c['rcpts'][c['who']], m['v'])
        changed = True
    if not changed and meaning(c, wire) == before:
        return
    rec.label('altered: ' + k)
    rec.nt()
    v = attempt(arm_and_verify, c, enc(Tag(tag, wire)))
    if isinstance(v, Raised):
        rec.label('refused before verification')
        return
    not_true(what, v[1])


def check(case, rec):
    c = case['c']
    data = M.send(c)
    _, verify = arm_and_verify(c, data)
    is_true('verification of the unaltered message', verify())
    for m in case['m']:
        apply(c, data, m, rec)


def strategy(kind, n):
    @st.composite
    def s(draw):
        c = draw(kind())
        return {'c': c, 'm': draw(st.lists(mutation(c), min_size=n, max_size=n + 3))}
    return s


def enum():
    out = []
    for a in algs.MAC:
        tl = algs.MAC[a][4]
        for loc in 'pu':
            h = {'p': [], 'u': [], 'sp': [0]}
            h[loc].append([1, a])
            c = {'k': 'mac0', 'alg': a, 'key': {'kt': 'sym', 'k': G.expand(a, min(32, algs.MAC[a][3]))}, 'kf': 0, 'vf': 1,
                 'kp': {}, 'vp': {}, 'payload': b'This is the content.', 'aad': b'', 'h': h}
            ms = [{'m': 'tag', 'op': ['flip', i]} for i in range(tl * 8)]
            ms += [{'m': 'tag', 'op': ['trunc', i]} for i in range(1, tl + 1)]
            ms += [{'m': 'tag', 'op': ['ext', b'\0' * i]} for i in (1, 2, 8, 16)]
            ms += [{'m': 'alg', 'alg': b} for b in algs.MAC]
            out.append({'c': c, 'm': ms})
            out.append({'c': {**c, 'payload': b''}, 'm': [{'m': 'null'}, {'m': 'obj', 'what': 'nopayload', 'pre': 1}]})
        for pl, aad in ((7, 70000), (70000, 7), (1 << 20, 66000)):
            c2 = {**c, 'payload': G.expand(1, pl), 'aad': G.expand(2, aad)}
            out.append({'c': c2, 'm': [{'m': k, 'op': op} for k, n in (('aad', aad), ('payload', pl)) for op in T.far(n)]})
    return out


FACETS = [
    Facet('mac0', strategy(M.mac0, 4), check, 3000, enum=enum, shards=4),
    Facet('mac', strategy(M.macm, 4), check, 1500, shards=6),
]
