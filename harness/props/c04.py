"""C04 Decryption never accepts an altered message."""
import copy

import cbor2
import hypothesis.strategies as st

import algs
import build as B
import gen as G
import msgs as M
import refcose as R
import tamper as T
from core import Facet, Raised, attempt, eq, refused
from props.c06 import alter_rcpt, other_rkey
from refcbor import Tag, enc

RULE = ('An encrypted message is made by the library and decrypted as a control; then several alterations are drawn '
        '(protected header on the wire and in memory, ciphertext, tag, nonce attributes and base IV, external data, key, '
        'recipient information, transfer between message kinds) and decryption of each result must raise. For fixed '
        'messages every single-bit change of the ciphertext and every truncation is enumerated. Non-trivial: at least one '
        'alteration changed what is authenticated.')
ASSUMPTIONS = ['no forgery by chance (tags of 8 bytes and more)',
               'an ECDH peer point and its negation yield the same secret']


@st.composite
def mutation(draw, c):
    kinds = ['prot', 'prot', 'ct', 'ct', 'aad', 'nonce', 'nonce', 'alg', 'key', 'transfer', 'obj', 'obj']
    if c['k'] == 'enc' and c['rcpts'][0]['t'] != 'direct':
        kinds += ['rcpt', 'rcpt', 'rcpt', 'rkey']
    k = draw(st.sampled_from(kinds))
    m = {'m': k}
    if k == 'prot':
        m['op'] = draw(T.prot_op())
    elif k in ('ct', 'aad', 'nonce'):
        m['op'] = draw(T.byte_op)
        if k == 'nonce':
            m['base'] = draw(st.booleans())
    elif k == 'alg':
        m['alg'] = draw(G.enc_alg)
    elif k == 'key':
        m['key'] = draw(G.enc_key(c['alg']))
        m['flip'] = draw(st.one_of(st.none(), st.integers(0, 255)))
    elif k == 'transfer':
        m['v'] = draw(st.integers(0, 3))
    elif k == 'obj':
        m['what'] = draw(st.sampled_from(['phdr_update', 'phdr', 'payload', 'aad', 'iv', 'key', 'keyin', 'rkey']))
        m['op'] = draw(T.byte_op)
        m['val'] = draw(G.small)
        m['drop'] = draw(st.booleans())
        m['pre'] = draw(st.integers(0, 2))
        m['v'] = draw(st.integers(1, 10**9))
        if m['what'] in ('key', 'keyin'):
            m['key'] = draw(G.enc_key(c['alg']))
    elif k == 'rcpt':
        m['op'] = draw(st.sampled_from(['ct', 'ct', 'prot', 'party', 'peer']))
        m['b'] = draw(T.byte_op)
        m['p'] = draw(T.prot_op())
        m['lab'] = draw(st.sampled_from(M.PARTY))
        m['d'] = draw(st.integers(2, 10**9))
    elif k == 'rkey':
        m['v'] = draw(st.integers(1, 10**9))
    return m


def arm_and_decrypt(c, data):
    msg = B.CoseMessage.decode(data)
    obj = M.arm(c, msg)
    return msg, (msg.decrypt if obj is None else (lambda: msg.decrypt(obj)))


def wire_nonce(c, wire):
    iv, part = T.find(wire, 5), T.find(wire, 6)
    if iv is not None or 'base' not in c:
        return repr(iv)
    if not isinstance(part, bytes) or len(part) > len(c['base']):
        return repr(part)
    return repr(M.nonce_of({'base': c['base'], 'part': part}))


def computation(alg):
    """What an algorithm computes: those which differ only in the nonce length they prescribe compute the same."""
    try:
        return repr(algs.ENC[alg][1:4])
    except (KeyError, TypeError):
        return repr(alg)


def meaning(c, wire):
    key = c['key']['k'] if 'key' in c else b''
    return T.prot_meaning(wire[0]), wire[2], c['aad'], wire_nonce(c, wire), computation(T.find_alg(wire)), key


def edit(wire, label, f):
    """Change the attribute in whichever bucket it is."""
    p = cbor2.loads(wire[0]) if wire[0] else {}
    if label in p:
        p[label] = f(p[label])
        wire[0] = enc(p)
    elif label in wire[1]:
        wire[1][label] = f(wire[1][label])


def transferred(c, wire, v):
    """The same content, key and cryptographic result as a message of the other kind."""
    if c['k'] == 'enc0':
        if v < 2:
            r, node = {'t': 'direct'}, [b'', {1: -6}, b'']
        elif v == 2:
            kek = G.expand(3, 16)
            r = {'t': 'kw', 'key': {'kt': 'sym', 'k': kek}, 'rp': {}, 'kp': {}, 'kf': 0, 'vf': 0}
            node = [b'', {1: -3}, R.kw_wrap(kek, c['key']['k'])]
        else:
            r, node = {'t': 'direct'}, [b'', {1: -6, 4: b''}, b'']
        return {**c, 'k': 'enc', 'who': 0, 'rcpts': [r]}, wire + [[node]]
    i = c['who']
    c2 = {x: y for x, y in c.items() if x != 'rcpts'}
    if c['rcpts'][i]['t'] != 'direct':
        c2.update(key={'kt': 'sym', 'k': M.ref_open_recipient(c, i, wire[-1][i])}, kp={}, vp={}, kf=0, vf=0)
    return {**c2, 'k': 'enc0'}, wire[:-1]


def apply(c0, data, m, rec):
    c = copy.deepcopy(c0)
    wire = cbor2.loads(data).value
    before = meaning(c, wire)
    k = m['m']
    what = 'decryption after %s' % m
    tag = M.TAG[c['k']]
    if k == 'obj':
        msg, decrypt = arm_and_decrypt(c, data)
        w = m['what']
        H = B.pycose.headers
        back = None
        for _ in range(m['pre']):
            # the object has been used for a genuine decryption before it changes
            eq(decrypt(), c['payload'], 'plaintext before an alteration in memory')
        if w in ('phdr', 'phdr_update'):
            lab = H.KID
            new = dict(msg.phdr)
            if m['drop'] and w == 'phdr':
                new = {H.Algorithm: B.alg_class(c['alg'])} if lab in new else {}
            else:
                new[lab] = m['val']
            if B.frozen(new) == B.frozen(msg.phdr) or (not new and not T.prot_meaning(wire[0])):
                return
            for x in msg.phdr:
                if x not in new:
                    msg.uhdr_update({x: msg.phdr[x]})
            if w == 'phdr':
                msg.phdr = new
            else:
                msg.phdr_update({lab: m['val']})
        elif w == 'payload':
            new = T.mut_bytes(wire[2], m['op'])
            if new == wire[2]:
                return
            msg.payload = new
            back = (msg, 'payload', wire[2])
        elif w == 'aad':
            new = T.mut_bytes(c['aad'], m['op'])
            if new == c['aad']:
                return
            msg.external_aad = new
            back = (msg, 'external_aad', c['aad'])
        elif w in ('key', 'keyin'):
            if 'key' not in c or m['key']['k'] == c['key']['k']:
                return
            if w == 'key':
                back = (msg, 'key', msg.key)
                msg.key = B.key(m['key'], True, c['vp'], c['vf'])
            else:
                back = (msg.key, 'k', msg.key.k)
                msg.key.k = m['key']['k']
        elif w == 'rkey':
            if c['k'] != 'enc' or c['rcpts'][c['who']]['t'] == 'direct':
                return
            obj = msg.recipients[c['who']]
            back = (obj, 'key', obj.key)
            obj.key = M.receiver_key(other_rkey(c['rcpts'][c['who']], m['v']))
        else:
            if 'iv' not in c or H.IV not in msg.uhdr:
                return
            new = T.mut_bytes(c['iv'], m['op'])
            if new == c['iv']:
                return
            msg.uhdr_update({H.IV: new})
        refused(what, decrypt)
        if back:
            setattr(*back)
            eq(decrypt(), c['payload'], 'plaintext after the alteration was undone')
        rec.label('in memory: ' + w)
        rec.nt()
        return
    if k == 'transfer':
        c2, wire = transferred(c, wire, m['v'])
        v = attempt(arm_and_decrypt, c2, enc(Tag(112 - tag, wire)))
        if not isinstance(v, Raised):
            refused(what, v[1])
        rec.label('transfer between message kinds')
        rec.nt()
        return
    changed = False
    if k == 'prot':
        T.mut_headers(wire, m['op'])
    elif k == 'ct':
        wire[2] = T.mut_bytes(wire[2], m['op'])
    elif k == 'aad':
        c['aad'] = T.mut_bytes(c['aad'], m['op'])
    elif k == 'nonce':
        if 'base' in c and m['base'] and 'vp' in c:
            c['base'] = c['vp'][5] = T.mut_bytes(c['base'], m['op'])
        else:
            edit(wire, 6 if 'base' in c else 5, lambda v: T.mut_bytes(v, m['op']))
    elif k == 'alg':
        edit(wire, 1, lambda v: m['alg'])
        if 'vp' in c:
            c['vp'] = {x: y for x, y in c['vp'].items() if x != 3}
    elif k == 'key':
        if 'key' not in c:
            return
        c['key'] = m['key'] if m['flip'] is None else {'kt': 'sym', 'k': T.mut_bytes(c['key']['k'], ['flip', m['flip']])}
    elif k == 'rcpt':
        changed = alter_rcpt(c, wire, m)
    elif k == 'rkey':
        c['rcpts'][c['who']] = other_rkey(c['rcpts'][c['who']], m['v'])
        changed = True
    if not changed and meaning(c, wire) == before:
        return
    rec.label('altered: ' + k)
    rec.nt()
    v = attempt(arm_and_decrypt, c, enc(Tag(tag, wire)))
    if isinstance(v, Raised):
        rec.label('refused before decryption')
        return
    refused(what, v[1])


def check(case, rec):
    c = case['c']
    data = M.send(c)
    _, decrypt = arm_and_decrypt(c, data)
    eq(decrypt(), c['payload'], 'plaintext of the unaltered message')
    for m in case['m']:
        apply(c, data, m, rec)


def strategy(kind, n):
    @st.composite
    def s(draw):
        c = draw(kind())
        return {'c': c, 'm': draw(st.lists(mutation(c), min_size=n, max_size=n + 3))}
    return s


def enum():
    out = []
    for a in algs.ENC:
        for loc in 'pu':
            h = {'p': [], 'u': [[5, b'n' * algs.ENC[a][4]]], 'sp': [0]}
            h[loc].append([1, a])
            c = {'k': 'enc0', 'alg': a, 'key': {'kt': 'sym', 'k': G.expand(a, algs.ENC[a][2])}, 'kf': 0, 'vf': 1,
                 'kp': {}, 'vp': {}, 'payload': b'content', 'aad': b'', 'h': h, 'iv': b'n' * algs.ENC[a][4]}
            n = 7 + algs.ENC[a][3]
            ms = [{'m': 'ct', 'op': ['flip', i]} for i in range(n * 8)]
            ms += [{'m': 'ct', 'op': ['trunc', i]} for i in range(1, n + 1)]
            ms += [{'m': 'ct', 'op': ['ext', b'\0' * i]} for i in (1, 2, 8, 16)]
            ms += [{'m': 'alg', 'alg': b} for b in algs.ENC]
            out.append({'c': c, 'm': ms})
        # long inputs, altered in places which a bound or a block size might hide
        big = 1 << 20 if algs.ENC[a][1] != 'ccm' else 60000
        for pl, aad in ((7, 70000), (60000, 7), (big, 66000)):
            c2 = {**c, 'payload': G.expand(1, pl), 'aad': G.expand(2, aad)}
            out.append({'c': c2, 'm': [{'m': 'aad', 'op': op} for op in T.far(aad)] + [{'m': 'ct', 'op': op} for op in T.far(pl)]})
    return out


FACETS = [
    Facet('enc0', strategy(M.enc0, 4), check, 3000, enum=enum, shards=4),
    Facet('enc', strategy(M.encm, 4), check, 1600, shards=6),
]
