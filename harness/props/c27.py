"""C27 Secrets stay off the wire and fresh keys are fresh."""
import base64

import cbor2
import hypothesis.strategies as st

import algs
import build as B
import fix
import forked
import gen as G
import msgs as M
import refcose as R
from core import eq, expect, Facet, fresh_bits, refused
from props import c25, c26
from refcbor import enc

H = B.pycose.headers
RULE = ('Messages of every kind, recipient kind and algorithm are encoded (also after a failed attempt, repeatedly, detached) and '
        'the bytes searched - raw, hexadecimal and base64 - for every private and symmetric key of the case, the content key as '
        'an independent implementation recovers it from the bytes, the key-encryption keys of key agreement, the ephemeral '
        'private key of the sender and encrypted plaintexts. Sequences of up to 8 messages made from shared keys, headers and '
        'peers, interleaved with unrelated operations, also in processes forked from one state: all content keys and ephemeral '
        'keys recovered from the bytes must be new and of the right length; and for every algorithm the bits of 60 generated '
        'keys must all vary, no two of them together. Non-trivial: a secret of at least 8 bytes was searched for, or two or more generated keys compared.')
ASSUMPTIONS = ['a secret which also occurs in headers or payloads the caller chose to send is not searched for',
               'secrets of at least 8 bytes', 'encoding the same message object again may use the same generated keys',
               'a fair generator repeats a key or keeps a bit constant over 60 keys with negligible probability']


def forms(s):
    return [s, s.hex().encode(), s.hex().upper().encode(), base64.b64encode(s).rstrip(b'='),
            base64.urlsafe_b64encode(s).rstrip(b'=')]


def scan(data, secrets, public, when):
    """None of the secrets occurs in the bytes. The number of secrets searched for."""
    n = 0
    for what, s in secrets:
        s = s.lstrip(b'\0') if what != 'plaintext' else s
        if len(s) < 8 or any(s in p for p in public):
            continue
        n += 1
        for f in forms(s):
            expect(f not in data, 'the %s (%s) is in the encoded message%s', what, s.hex(), when)
    return n


def public_of(c):
    """What the caller chose to make public, as bytes."""
    out = []
    for h in [c['h']] + [r['h'] for r in c.get('rcpts', [])] + [s['h'] for s in c.get('signers', [])]:
        out += [enc(B.wire_hdr(h['p'])), enc(B.wire_hdr(h['u'])), enc(B.wire_hdr(h['u'], True))]
        out += list(c26.leaves([B.wire_hdr(h['p']), B.wire_hdr(h['u'])]))
    if c['k'] not in ('enc', 'enc0'):
        out.append(c['payload'])
    for r in c.get('rcpts', []):
        for k in ('rk', 'sk'):
            if r.get(k):
                w = B.wire_key(r[k], False)
                out += [enc(w), *c26.leaves(w)]
        if r['t'] == 'oaep':
            w = B.wire_key(r['key'], False)
            out += list(c26.leaves(w))
    return out


def opened(c, data):
    """Everything secret about an encoded message which an independent receiver can compute: [(what, bytes)]."""
    out = []
    if c['k'] not in ('enc', 'mac'):
        return out
    wire = cbor2.loads(data).value
    rs = wire[-1]
    eq(len(rs), len(c['rcpts']), 'number of recipients on the wire')
    for i, r in enumerate(c['rcpts']):
        cek = M.ref_open_recipient(c, i, rs[i])
        eq(len(cek), len(c['key']['k']) if 'key' in c else M.content_keylen(c), 'length of the content key')
        out.append(('content key', cek))
        if r['t'] in ('dka', 'kakw'):
            peer = (rs[i][1][-1][-2], rs[i][1][-1][-3]) if r['gen'] else R.ec_pub(r['sk']['crv'], r['sk']['d'])
            z = R.ecdh(r['rk']['crv'], r['rk']['d'], *peer)
            if z not in peer:       # private key 1
                out.append(('shared secret', z))
            out.append(('derived key', M.ref_secret(r, c['alg'], M.content_keylen(c), rs[i][0], peer)))
    expect(len({s for w, s in out if w == 'content key'}) == 1, 'the recipients get different content keys')
    return out


def ephemeral(c, msg, data):
    """Generated ephemeral keys on the wire are public and belong to the sender's private key. The private keys."""
    out = []
    if c['k'] not in ('enc', 'mac'):
        return out
    rs = cbor2.loads(data).value[-1]
    for i, r in enumerate(c['rcpts']):
        if not r.get('gen'):
            continue
        obj = msg.recipients[i]
        for bucket in (rs[i][1], cbor2.loads(rs[i][0]) if rs[i][0] else {}):
            for lab in (-1, -2):
                if isinstance(bucket.get(lab), dict):
                    expect(-4 not in bucket[lab], 'recipient %d: private part in header %d', i, lab)
        w = rs[i][1].get(-1)
        expect(isinstance(w, dict), 'recipient %d: no ephemeral key in the unprotected header', i)
        d = obj.key.d
        eq(len(d), R.EC[r['rk']['crv']][1], 'size of the ephemeral private key')
        x, y = R.ec_pub(r['rk']['crv'], int.from_bytes(d, 'big'))
        eq([w.get(1), w.get(-1), w.get(-2), w.get(-3)], [2, algs.CURVE_ID[r['rk']['crv']], x, y],
           'recipient %d: ephemeral key on the wire' % i)
        out.append(d)
    return out


def failing_attempt(msg):
    """Encoding fails at the last recipient; nothing it leaves behind may be sent later."""
    keep = list(msg.recipients)
    rc, alg = B.pycose.messages.recipient, B.pycose.algorithms
    msg.recipients = keep + [rc.KeyAgreementWithKeyWrap(uhdr={H.Algorithm: alg.EcdhEsA128KW})]
    refused('encoding with a recipient without a key', msg.encode)
    msg.recipients = keep

# ------------------------------------------------------------------------------------------- what goes over the wire


@st.composite
def wire_case(draw):
    kind = draw(st.sampled_from(['enc', 'enc', 'enc', 'mac', 'mac', 'enc0', 'mac0', 'sign1', 'sign']))
    c = draw(c25.any_message([kind]))
    return {'c': c, 'n': draw(c25.noises), 'again': draw(st.integers(0, 2)), 'fail': draw(st.integers(0, 3))}


def key_secrets(c):
    out = [('key', s) for s in c26.case_secrets(c)[0]]
    if c['k'] in ('enc', 'enc0'):
        out.append(('plaintext', c['payload']))
    return out


def check_wire(case, rec):
    c = case['c']
    public = public_of(c)
    secrets = key_secrets(c)
    msg = M.build(c)
    if case['fail'] == 1 and c.get('rcpts'):
        failing_attempt(msg)
    n = 0
    last = None
    for i in range(1 + case['again']):
        data = M.encode(c, msg)
        extra = opened(c, data) + [('ephemeral private key', d) for d in ephemeral(c, msg, data)]
        k = getattr(msg, 'key', None)
        if c['k'] != 'sign' and isinstance(k, B.SymmetricKey):
            extra.append(('content key of the sender', k.k))
        n += scan(data, secrets + extra, public, '' if i == 0 else ' (encoding %d)' % i)
        for s in case['n']:
            c25.noise(s, msg)
        last = data
    got = M.receive(c, last)
    obj = M.arm(c, got)
    c25.open_message(c, got, obj)
    if c['k'] in ('enc', 'enc0'):
        # a received message sent on without the key still carries only the ciphertext
        if c['k'] == 'enc0':
            n += scan(got.encode(encrypt=False), secrets, public, ' (forwarded)')
    if n:
        rec.nt()
    rec.label(c['k'])
    for r in c.get('rcpts', []):
        rec.label('recipient %s%s' % (algs.ALG_NAMES[r['alg']], ' generated ephemeral' if r.get('gen') else ''))

# ------------------------------------------------------------------------------------------- freshness over histories


def rcpt(kind, alg, gen, crv='P_256'):
    lay = lambda p: {'p': [[1, alg]] if p else [], 'u': [] if p else [[1, alg]], 'sp': [0]}
    if kind == 'kw':
        return {'t': 'kw', 'alg': alg, 'h': lay(False), 'kf': 0, 'vf': 0, 'kp': {}, 'vp': {},
                'key': {'kt': 'sym', 'k': G.expand(alg + 100, algs.KW[alg][1])}}
    if kind == 'oaep':
        return {'t': 'oaep', 'alg': alg, 'h': lay(False), 'kf': 0, 'vf': 0, 'kp': {}, 'vp': {},
                'key': {'kt': 'rsa', 'i': fix.rsa_fits(alg)[0]}}
    h = lay(True)
    sk = {'kt': 'ec', 'crv': crv, 'd': 4711}
    if not gen:
        h['u'].append([-1 if algs.ECDH[alg][1] else -2, {'key': sk}])
    return {'t': 'kakw' if algs.ECDH[alg][3] else 'dka', 'alg': alg, 'h': h, 'kf': 0, 'vf': 0, 'gen': gen, 'sk': sk,
            'rk': {'kt': 'ec', 'crv': crv, 'd': 815}, 'rp': {}, 'pp': {}, 'sp': {}}


WRAPS = [('kw', a) for a in sorted(algs.KW)] + [('oaep', a) for a in sorted(algs.OAEP)] + [('kakw', a) for a in algs.KAKW]
ES_DKA = [a for a in algs.DKA if algs.ECDH[a][1]]


@st.composite
def simple(draw):
    """A message which needs a generated content or ephemeral key."""
    if draw(st.integers(0, 2)) == 0:
        rs = [rcpt('dka', draw(st.sampled_from(ES_DKA)), True, draw(st.sampled_from(G.EC_CURVES)))]
    else:
        rs = []
        for _ in range(draw(st.integers(1, 3))):
            k, a = draw(st.sampled_from(WRAPS))
            rs.append(rcpt(k, a, k == 'kakw' and algs.ECDH[a][1] and draw(st.booleans()), draw(st.sampled_from(G.EC_CURVES))))
    return msg_of(draw(st.sampled_from(['enc', 'mac'])), rs, draw(st.sampled_from(sorted(algs.ENC))),
                  draw(st.sampled_from(algs.MAC_DELIVERABLE)))


def msg_of(kind, rs, ea, ma):
    if kind == 'enc':
        iv = G.expand(3, algs.ENC[ea][4])
        return {'k': 'enc', 'alg': ea, 'payload': b'same payload', 'aad': b'', 'iv': iv, 'rcpts': rs, 'who': 0,
                'h': {'p': [[1, ea]], 'u': [[5, iv]], 'sp': [0]}}
    return {'k': 'mac', 'alg': ma, 'payload': b'same payload', 'aad': b'', 'rcpts': rs, 'who': 0,
            'h': {'p': [[1, ma]], 'u': [], 'sp': [0]}}


def generated(c):
    return c['rcpts'][0]['t'] != 'dka'


@st.composite
def history(draw):
    pool = draw(st.lists(simple(), min_size=1, max_size=3))
    steps = draw(st.lists(st.tuples(st.integers(0, len(pool) - 1), c25.noises, st.integers(0, 3)), min_size=2, max_size=8))
    return {'pool': pool, 'steps': [list(s) for s in steps], 'fork': draw(st.integers(0, 3))}


class Sender:
    """Makes several messages from the same keys, peers and header dictionaries."""

    def __init__(self, pool):
        self.pool = pool
        self.parts = {}

    def make(self, i):
        c = self.pool[i]
        rc = B.pycose.messages.recipient
        if i not in self.parts:
            self.parts[i] = [B.hdrs(c['h']), [(B.hdrs(r['h']), M.build_recipient(r)) for r in c['rcpts']]]
        kw, rs = self.parts[i]
        out = []
        for r, (hd, proto) in zip(c['rcpts'], rs):
            o = type(proto)(**hd)
            if not r.get('gen'):
                o.key = proto.key
            if r['t'] in ('dka', 'kakw'):
                o.local_attrs = {H.StaticKey: proto.local_attrs[H.StaticKey]}
            out.append(o)
        return M.CLASS[c['k']](payload=c['payload'], recipients=out, **kw)


def collect(case, start=0):
    """[(kind, key)] of all the keys generated by the history, in order."""
    s = Sender(case['pool'])
    out, waiting = [], []

    def send(i, msg):
        c = case['pool'][i]
        data = msg.encode()
        secrets = opened(c, data)
        if generated(c):
            out.append(('content key', secrets[0][1]))
        for d in ephemeral(c, msg, data):
            out.append(('ephemeral key', d))
    for i, ns, how in case['steps']:
        msg = s.make(i)
        for n in ns:
            c25.noise(n, msg)
        if how == 1:
            waiting.append((i, msg))       # sent later
            continue
        if how == 2:
            failing_attempt(msg)
        send(i, msg)
        if how == 3 and waiting:
            send(*waiting.pop(0))
    for i, msg in waiting:
        send(i, msg)
    return out


def known_keys(pool):
    out = set()
    for c in pool:
        out |= {s for s in c26.case_secrets(c)[0]}
    return out


def check_history(case, rec):
    got = collect(case)
    if case['fork'] == 0:
        for _ in range(2):
            got += forked.run(collect, case)
        rec.label('forked')
    seen = set(known_keys(case['pool']))
    for what, k in got:
        expect(k not in seen, 'a %s is used twice: %s', what, k.hex())
        seen.add(k)
    if len(got) > 1:
        rec.nt()
    rec.label('%d generated keys' % min(len(got), 9))

# ------------------------------------------------------------------------------------------- do all bits vary


def bit_cases():
    out = []
    for kind, alg in WRAPS[:3] + [WRAPS[-1]]:
        for a in sorted(algs.ENC):
            if kind == 'kw' or a in (1, 3, 33):
                out.append(['enc', kind, alg, a])
        for a in algs.MAC_DELIVERABLE:
            if kind == 'kw' or a == 4:
                out.append(['mac', kind, alg, a])
    for a in sorted(algs.OAEP):
        out += [['enc', 'oaep', a, 3], ['mac', 'oaep', a, 4]]
    for a in ES_DKA + [x for x in algs.KAKW if algs.ECDH[x][1]]:
        for crv in G.EC_CURVES:
            out.append(['eph', 'dka' if a in ES_DKA else 'kakw', a, crv])
    return out


N = 60


def check_bits(case, rec):
    kind, rk, alg, x = case
    if kind == 'eph':
        c = msg_of('enc', [rcpt(rk, alg, True, x)], 1, 4)
        size = {'P_256': 256, 'P_384': 384, 'P_521': 521}[x]
    else:
        es = rk == 'kakw' and algs.ECDH[alg][1]
        c = msg_of(kind, [rcpt(rk, alg, es)], x, x)
        size = 8 * M.content_keylen(c)
    got = []
    s = Sender([c])
    for _ in range(N):
        msg = s.make(0)
        data = msg.encode()
        k = opened(c, data)[0][1] if kind != 'eph' else ephemeral(c, msg, data)[0]
        got.append(int.from_bytes(k, 'big'))
    fresh_bits(got, size)
    rec.nt()
    rec.label(kind)


FACETS = [
    Facet('wire', wire_case, check_wire, 2500, shards=8),
    Facet('history', history, check_history, 700, shards=8),
    Facet('bits', None, check_bits, 1, enum=bit_cases, shards=8),
]
