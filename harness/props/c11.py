"""C11 Headers survive transport, in every spelling."""
import collections
import copy
import datetime
import decimal
import fractions
import ipaddress
import uuid

import cbor2
import hypothesis.strategies as st

import algs
import build as B
import conform as X
import gen as G
import msgs as M
import refcose as R
import tamper as T
from core import Facet, eq, expect
from refcbor import Raw, Tag, enc, wild_from

RULE = ('The same header maps are given in two independent spellings (integers, names in several letter cases, classes) at '
        'every layer of every message kind: the bytes must be equal, be exactly the given labels and values, and decode to '
        'them; received protected headers in arbitrary valid encodings must keep their bytes, on re-encoding too; values of '
        'every Python type the CBOR library can write arrive as it reads them. '
        'Non-trivial: at least two header entries, two different spellings, or a non-preferred encoding.')
ASSUMPTIONS = ['unknown text labels do not collide with registered names', 'an empty protected header may be re-encoded as '
               'received or as the empty string']

# ------------------------------------------------------------------------------------------- many spellings, one message


@st.composite
def message(draw):
    """A message whose bytes are determined by its contents."""
    k = draw(st.sampled_from(['sign1', 'sign', 'mac0', 'enc0', 'enc', 'mac']))
    kw = {'max_n': 7}
    if k == 'sign1':
        c = draw(M.sign1(alg=-8, **kw))
    elif k == 'sign':
        c = draw(M.sign(max_signers=2, **kw))
        for s in c['signers']:
            if s['alg'] not in (-8,):
                s.update({'alg': -8, 'key': {'kt': 'okp', 'crv': 'ED25519', 'd': G.expand(1, 32)}, 'kp': {}, 'vp': {}})
                for b in (s['h']['p'], s['h']['u']):
                    for e in b:
                        if not isinstance(e[0], str) and e[0] == 1:
                            e[1] = -8
    elif k == 'mac0':
        c = draw(M.mac0(**kw))
    elif k == 'enc0':
        c = draw(M.enc0(**kw))
    elif k == 'enc':
        c = draw(M.encm(modes=('direct', 'wrap', 'wrap', 'dka'), **kw))
    else:
        c = draw(M.macm(modes=('direct', 'wrap', 'wrap', 'dka'), **kw))
    if c.get('rcpts'):
        c['rcpts'] = [r for r in c['rcpts'] if r['t'] != 'oaep'] or c['rcpts'][:1]
        for r in c['rcpts']:
            if r.get('gen'):
                r['gen'] = False
                r['h']['u'].append([-1, {'key': r['sk']}])
        if c['rcpts'][0]['t'] not in ('direct', 'dka'):
            c['cek'] = G.expand(9, M.content_keylen(c))
            c['cekat'] = list(range(len(c['rcpts'])))
        c['who'] = 0
    return c


def layers(c):
    return [c] + c.get('signers', []) + c.get('rcpts', [])


@st.composite
def spellings(draw):
    c = draw(message())
    n = len(layers(c))
    return {'c': c, 'sps': draw(st.lists(G.spell, min_size=n, max_size=n)), 'kf': draw(G.key_form),
            'how': draw(st.integers(0, 1))}


def check_spelling(case, rec):
    c = case['c']
    det = not any(r['t'] == 'oaep' for r in c.get('rcpts', []))
    data = M.send(c)
    X.check_wire(c, data, rec)
    c2 = copy.deepcopy(c)
    for x, sp in zip(layers(c2), case['sps']):
        x['h']['sp'] = sp
        for f in ('kf', 'vf'):
            if f in x:
                x[f] = case['kf']
    data2 = M.send(c2)
    if det:
        eq(data2, data, 'message bytes with another spelling')
    else:
        X.check_wire(c2, data2, rec)
    for d in (data, data2):
        msg = M.receive(c, d, case['how'])
        M.check_received(c, msg)
    rec.label(c['k'])
    if any(x['h'].get('tstr') for x in layers(c)):
        rec.label('algorithm as text on the wire')
    if any(len(x['h']['p']) + len(x['h']['u']) > 1 for x in layers(c)) or any(
            x['h']['sp'] != sp for x, sp in zip(layers(c), case['sps'])):
        rec.nt()


# ------------------------------------------------------------------------------------------- received encodings are kept

@st.composite
def received(draw):
    return {'c': draw(message()), 'w': draw(st.lists(st.lists(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 12, 13]), min_size=1,
                                                              max_size=10), min_size=6, max_size=6)),
            'how': draw(st.integers(0, 1))}


def check_received(case, rec):
    c, w = case['c'], case['w']
    prot = X.wild_prot(c['h'], w[0])
    sprots = [X.wild_prot(s['h'], w[1 + i % 3]) for i, s in enumerate(c.get('signers', []))]
    ref = M.ref_message(c, prot, sprots)
    rprots = []
    for i, r in enumerate(c.get('rcpts', [])):
        p = X.wild_prot(r['h'], w[1 + i % 3])
        ref.value[-1][i][0] = p
        rprots.append(p)
        if r['t'] == 'kakw':
            ref.value[-1][i][2] = R.kw_wrap(M.ref_secret(r, c['alg'], M.content_keylen(c), p), M.ref_cek(c))
    if c.get('rcpts') and c['rcpts'][0]['t'] == 'dka':
        r = c['rcpts'][0]
        cek = M.ref_secret(r, c['alg'], M.content_keylen(c), rprots[0])
        if c['k'] == 'mac':
            ref.value[3] = R.mac_tag(c['alg'], cek, M.auth_data(c, prot))
        else:
            ref.value[2] = R.aead_encrypt(c['alg'], cek, M.nonce_of(c), c['payload'], M.auth_data(c, prot))
    data = enc(ref, wild_from(w[4]))
    msg = M.receive(c, data, case['how'])
    M.check_received(c, msg)

    def kept():
        eq(msg.phdr_encoded, prot, 'protected header bytes of the body')
        for s, p in zip(getattr(msg, 'signers', []), sprots):
            eq(s.phdr_encoded, p, 'protected header bytes of a signer')
        for r, p in zip(getattr(msg, 'recipients', []), rprots):
            eq(r.phdr_encoded, p, 'protected header bytes of a recipient')
    kept()
    obj = M.arm(c, msg)
    if c['k'] == 'enc':
        eq(msg.decrypt(obj), c['payload'], 'plaintext')
    else:
        M.verify_all(c, msg)
    kept()
    # what was received is sent on
    again, parts = M.receive(c, data, case['how']), None
    if c['k'] == 'sign1':
        fwd = again.encode(sign=False)
        parts = [3]
    elif c['k'] == 'enc0':
        fwd = again.encode(encrypt=False)
        parts = [2]
    elif c['k'] == 'mac0':
        again.external_aad = c['aad']
        again.key = B.key(c['key'], True, c['kp'], c['kf'])
        fwd = again.encode()
        parts = [3]
    elif c['k'] == 'sign':
        for s, o in zip(c['signers'], again.signers):
            o.external_aad = s['aad']
            o.key = B.key(s['key'], True, s['kp'], s['kf'])
        fwd = again.encode(**M.det(c))
        parts = [3]
    elif c['k'] == 'enc' and c['rcpts'][0]['t'] == 'direct':
        fwd = again.encode(encrypt=False)
        parts = [2, 3]
    else:
        return done(case, rec, prot, sprots + rprots)
    got = B.parse(fwd, M.TAG[c['k']])
    want = cbor2.loads(data).value
    eq(len(got), len(want), 'elements of the message sent on')
    eq(got[0], prot, 'protected header bytes of the message sent on')
    eq(norm(got[1]), norm(want[1]), 'unprotected header of the message sent on')
    for i in parts:
        if c['k'] == 'sign':
            for g, v in zip(got[i], want[i]):
                eq(g[0], v[0], 'protected header of a signer sent on')
                eq(norm(g[1]), norm(v[1]), 'unprotected header of a signer sent on')
                eq(g[2], v[2], 'signature sent on')
        elif i == 3 and c['k'] == 'enc':
            eq([[x[0], norm(x[1]), x[2]] for x in got[i]], [[x[0], norm(x[1]), x[2]] for x in want[i]], 'recipients sent on')
        else:
            eq(got[i], want[i], 'element %d of the message sent on' % i)
    rec.label('sent on')
    done(case, rec, prot, sprots + rprots)


def norm(u):
    """An unprotected algorithm may be sent on by number or by name."""
    return {k: T._BY_NAME.get(v.upper(), v) if k == 1 and isinstance(v, str) else v for k, v in u.items()}


def done(case, rec, prot, prots):
    c = case['c']
    rec.label('received ' + c['k'])
    if prot != B.wire_prot(c['h']['p'], c['h'].get('tstr')) or len(c['h']['p']) > 1 or any(prots):
        rec.nt()
    if prot != B.wire_prot(c['h']['p'], c['h'].get('tstr')):
        rec.label('non-preferred encoding')


# ------------------------------------------------------------------------------------------- raw header maps

@st.composite
def raw(draw):
    """Header maps with many unknown labels and values of every CBOR kind, on a received message."""
    odd = st.sampled_from([Raw(x) for x in (
        b'\xf7', b'\xf0', b'\xf8\xff', b'\xf9\x3c\x00', b'\xfa\x47\xc3\x50\x00', b'\xf9\x7c\x00', b'\xc1\x1a\x51\x4b\x67\xb0',
        b'\xd8\x20\x61x', b'\xd9\xff\xff\x01', b'\xc2\x49\x01' + b'\0' * 8, b'\xc3\x41\x00', b'\x5f\x41a\x41b\xff', b'\x7f\x61a\xff',
        b'\x9f\x01\xff', b'\xbf\x01\x02\xff', b'\x1b' + b'\xff' * 8, b'\x3b' + b'\xff' * 8, b'\xc4\x82\x21\x19\x6a\xb3', b'\x80',
        b'\xa0', b'\x81\x81\x81\x80', b'\xd8\x25\x50' + b'\1' * 16)])
    ent = st.lists(st.tuples(G.unknown_label, st.one_of(odd, G.any_value)), max_size=6, unique_by=lambda e: (
        isinstance(e[0], str), e[0]))
    return {'p': [[l, bytes(v) if isinstance(v, Raw) else enc(v)] for l, v in draw(ent)],
            'u': [[l, bytes(v) if isinstance(v, Raw) else enc(v)] for l, v in draw(ent)],
            'tag': draw(st.sampled_from(sorted(algs.TAGS))), 'body': draw(G.blob(0, 40))}


def check_raw(case, rec):
    p = {l: Raw(v) for l, v in case['p']}
    u = {l: Raw(v) for l, v in case['u']}
    prot = enc(p) if p else b''
    body = [prot, u, case['body']]
    t = case['tag']
    inner = [prot, u, b'sig']
    if t in (17, 18, 97):
        body.append(b'tag')
    if t == 98:
        body.append([inner, inner])
    if t in (96, 97):
        body.append([[b'', {1: -6, **u}, b'']])
    data = enc(Tag(t, body))
    msg = B.CoseMessage.decode(data)
    nodes = [msg] + getattr(msg, 'signers', [])
    for n in nodes:
        eq(n.phdr_encoded, prot, 'protected header bytes')
        eq(n.phdr, cbor2.loads(prot) if prot else {}, 'protected header')
        eq(n.uhdr, cbor2.loads(enc(u)), 'unprotected header')
        eq(list(n.phdr), list(p), 'order of the labels')
    for n in getattr(msg, 'recipients', []):
        eq({k: v for k, v in n.uhdr.items() if k is not B.hdr_class(1)}, cbor2.loads(enc(u)), 'recipient header')
    if t in (16, 18):
        fwd = msg.encode(encrypt=False) if t == 16 else msg.encode(sign=False)
        got = cbor2.loads(fwd).value
        eq(got[0], prot, 'protected header sent on')
        eq(got[1], cbor2.loads(enc(u)), 'unprotected header sent on')
    if len(p) + len(u) > 1:
        rec.nt()
    rec.label('raw maps in %s' % algs.TAGS[t])


# ------------------------------------------------------------------------------------------- every kind of Python value, sent

class Text(str):
    pass


UTC = datetime.timezone.utc
EXOTIC = {
    'nan': lambda n: float('nan'), 'inf': lambda n: -float('inf'), 'float': lambda n: n / 7, 'tag': lambda n: cbor2.CBORTag(10**6 + n, [n, 'x']),
    'tag in list': lambda n: [cbor2.CBORTag(70000, n)], 'date': lambda n: datetime.datetime(2020, 1, 1 + n % 28, tzinfo=UTC),
    'decimal': lambda n: decimal.Decimal(n) / 8, 'fraction': lambda n: fractions.Fraction(n, 7), 'big': lambda n: 2**64 + n,
    'negative big': lambda n: -2**70 - n, 'undefined': lambda n: cbor2.undefined, 'simple': lambda n: cbor2.CBORSimpleValue(n % 20),
    'uuid': lambda n: uuid.UUID(int=n), 'tuple': lambda n: (n, (b'x', None)), 'ordered': lambda n: collections.OrderedDict([('b', n), ('a', 1)]),
    'bytes keys': lambda n: {b'k': n, (1, 2): 3, None: 4, True: 5, 1.5: 6}, 'text': lambda n: Text('t%d' % n), 'ip': lambda n: ipaddress.ip_address(n),
    'set': lambda n: {n}, 'deep': lambda n: [[[[[{'a': [{n: [b'']}]}]]]]], 'long': lambda n: 'y' * (n % 400), 'map': lambda n: {i: i for i in range(n % 40)},
    'array': lambda n: list(range(n % 40)), 'null': lambda n: None, 'false': lambda n: False, 'int': lambda n: n,
}


@st.composite
def exotic(draw, hows=(0,)):
    e = st.lists(st.tuples(G.unknown_label, st.sampled_from(sorted(EXOTIC)), st.integers(0, 400)), max_size=4,
                 unique_by=lambda x: (isinstance(x[0], str), x[0]))
    return {'p': [list(x) for x in draw(e)], 'u': [list(x) for x in draw(e)], 'k': draw(st.sampled_from(['sign1', 'mac0', 'enc0', 'sign', 'mac', 'enc'])),
            'how': draw(st.sampled_from(hows)), 'tstr': draw(st.booleans())}


def check_exotic(case, rec):
    H = B.pycose.headers

    def h(entries):
        return {l: EXOTIC[k](n) for l, k, n in entries}

    def wire(entries):
        return {l: cbor2.loads(cbor2.dumps(EXOTIC[k](n))) for l, k, n in entries}

    alg = {'sign1': -8, 'mac0': 5, 'mac': 5, 'enc0': 1, 'enc': 1}.get(case['k'])
    k32, ed = B.SymmetricKey(k=b'k' * 32), B.key({'kt': 'okp', 'crv': 'ED25519', 'd': b'd' * 32})
    kw = {'alg_tstr_encoding': True} if case['tstr'] else {}
    first = {} if alg is None else {H.Algorithm: B.alg_class(alg)}
    iv = {H.IV: b'i' * 12} if case['k'].startswith('enc') else {}
    cls = M.CLASS[case['k']]
    P, U = {**first, **h(case['p'])}, {**iv, **h(case['u'])}

    def give(o, p, u):
        if case['how'] == 1:
            o.phdr, o.uhdr = p, u
        elif case['how'] == 2:
            o.phdr_update(p)
            o.uhdr_update(u)
        return o
    if case['how'] == 0:
        kw.update(phdr=P, uhdr=U)
    if case['k'] == 'sign':
        s = B.CoseSignature(phdr={H.Algorithm: 'EDDSA', **h(case['p'])}, uhdr=h(case['u']), key=ed)
        msg = give(cls(payload=b'p', signers=[s], **kw), P, U)
    elif case['k'] in ('mac', 'enc'):
        r = B.pycose.messages.recipient.DirectEncryption(uhdr={H.Algorithm: 'DIRECT', **h(case['u'])})
        msg = give(cls(payload=b'p', recipients=[r], **kw), P, U)
    else:
        msg = give(cls(payload=b'p', **kw), P, U)
    msg.key = {'sign1': ed, 'enc0': B.SymmetricKey(k=b'k' * 16), 'enc': B.SymmetricKey(k=b'k' * 16), 'sign': None}.get(case['k'], k32)
    data = msg.encode()
    name = None if alg is None else algs.ALG_NAMES[alg] if case['tstr'] else alg
    wp, wu = {**({} if alg is None else {1: name}), **wire(case['p'])}, {**({5: b'i' * 12} if iv else {}), **wire(case['u'])}
    w = cbor2.loads(data).value
    eq(cbor2.loads(w[0]) if w[0] else {}, wp, 'protected header sent')
    eq(w[1], wu, 'unprotected header sent')
    got = B.CoseMessage.decode(data)
    clsd = {H.Algorithm: B.alg_class(alg), **wire(case['p'])} if alg is not None else wire(case['p'])
    eq(got.phdr, clsd, 'protected header received')
    eq(list(got.phdr), list(clsd), 'order of the protected header')
    eq(got.uhdr, {**({H.IV: b'i' * 12} if iv else {}), **wire(case['u'])}, 'unprotected header received')
    for n in getattr(got, 'signers', []):
        eq(n.phdr, {H.Algorithm: B.alg_class(-8), **wire(case['p'])}, 'protected header of the signer')
        eq(n.uhdr, wire(case['u']), 'unprotected header of the signer')
    for n in getattr(got, 'recipients', []):
        eq(n.uhdr, {H.Algorithm: B.alg_class(-6), **wire(case['u'])}, 'unprotected header of the recipient')
    if case['p'] or case['u']:
        rec.nt()
    for _, k, _ in case['p'] + case['u']:
        rec.label('value: ' + k)


def many():
    return [{'p': [[100 + i, 'int', i] for i in range(n)], 'u': [['u%d' % i, 'text', i] for i in range(n)], 'k': k, 'how': how,
             'tstr': how != 1} for n in (8, 15, 22, 23, 24, 25, 64, 255, 256, 300) for k in ('sign1', 'sign', 'mac0', 'mac', 'enc0', 'enc')
            for how in range(3)]


FACETS = [
    Facet('many', None, check_exotic, 1, enum=many, shards=1),
    Facet('spelling', spellings, check_spelling, 2400, shards=4),
    Facet('received', received, check_received, 2400, shards=4),
    Facet('raw', raw, check_raw, 2000, shards=2),
    Facet('exotic', exotic, check_exotic, 1600, shards=2),
]
