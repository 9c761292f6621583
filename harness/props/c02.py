"""C02 Signature verification accepts nothing that was not signed."""
import copy

import cbor2
import hypothesis.strategies as st

import algs
import build as B
import fix
import gen as G
import msgs as M
import refcose as R
import tamper as T
import resend
from core import Facet, Raised, attempt, is_true, not_true, refused
from refcbor import Tag, enc

RULE = ('A signed message is made by the library and verified as a control; then several alterations are drawn (protected '
        'headers of the message or signer on the wire and in memory, payload, external data, signature bytes, algorithm, '
        'key, transfer between message kinds and signers, missing or doubled payload) and verification of each result must '
        'not be true. Non-trivial: at least one alteration changed what is authenticated.')
ASSUMPTIONS = ['no forgery of the primitives by chance', 'the algebraic twin (r, n-s) of an ECDSA signature is excepted']


@st.composite
def mutation(draw, c):
    kinds = ['prot', 'prot', 'payload', 'aad', 'sig', 'sig', 'alg', 'key', 'transfer', 'nopayload', 'obj', 'obj', 'foreign']
    if c['k'] == 'sign':
        kinds += ['bprot', 'bprot', 'swap', 'obj']
    k = draw(st.sampled_from(kinds))
    m = {'m': k}
    s = c if c['k'] == 'sign1' else None
    if c['k'] == 'sign':
        m['i'] = draw(st.integers(0, len(c['signers']) - 1))
        s = c['signers'][m['i']]
    if k in ('prot', 'bprot'):
        m['op'] = draw(T.prot_op())
    elif k in ('payload', 'aad', 'sig'):
        m['op'] = draw(T.byte_op)
        if k == 'sig' and draw(st.integers(0, 3)) == 0:
            m['op'] = draw(st.sampled_from([['der'], ['swap'], ['lead'], ['rzero'], ['rq'], ['sq'], ['bytearray'], ['none']]))
    elif k == 'alg':
        m['alg'] = draw(st.sampled_from(algs.SIGN))
    elif k == 'key':
        if s['key']['kt'] == 'ec' and draw(st.integers(0, 3)) == 0:
            m['neg'] = True
        else:
            m['key'] = draw(G.sign_key(s['alg']))
    elif k == 'obj':
        m['what'] = draw(st.sampled_from(['phdr_update', 'phdr', 'payload', 'aad', 'sig', 'bphdr', 'bphdr_update', 'key',
                                          'keyin']))
        m['op'] = draw(T.byte_op)
        m['val'] = draw(G.small)
        m['drop'] = draw(st.booleans())
        m['pre'] = draw(st.integers(0, 2))
        if m['what'] in ('key', 'keyin'):
            m['key'] = draw(G.sign_key(s['alg']))
    elif k == 'transfer':
        m['v'] = draw(st.integers(0, 3))
    elif k == 'swap':
        m['j'] = draw(st.integers(0, len(c['signers']) - 1))
    elif k == 'nopayload':
        m['v'] = draw(st.integers(0, 2))
    elif k == 'foreign':
        m['v'] = draw(st.integers(0, 30))
    return m


def mut_sig(sig, op, alg, c):
    k = op[0]
    if alg in algs.ECDSA and k in ('der', 'swap', 'lead', 'rzero', 'rq', 'sq'):
        n = len(sig) // 2
        r, s = sig[:n], sig[n:]
        q = R.EC[algs.ECDSA[alg][1]][2]
        if k == 'der':
            return R.asym_utils.encode_dss_signature(int.from_bytes(r, 'big'), int.from_bytes(s, 'big'))
        if k == 'swap':
            return s + r
        if k == 'lead':
            return b'\0' + r + b'\0' + s
        if k == 'rzero':
            return b'\0' * n + s
        if k in ('rq', 'sq'):
            v = int.from_bytes(r if k == 'rq' else s, 'big') + q
            if v.bit_length() > 8 * n:
                return sig[:-1]
            v = v.to_bytes(n, 'big')
            return v + s if k == 'rq' else r + v
    if k in ('der', 'swap', 'lead', 'rzero', 'rq', 'sq', 'bytearray', 'none'):
        return {'lead': b'\0' + sig, 'rzero': b'\0' * len(sig)}.get(k, sig[::-1])
    return T.mut_bytes(sig, op)


def is_twin(alg, a, b):
    if alg not in algs.ECDSA or len(a) != len(b):
        return False
    n, q = len(a) // 2, R.EC[algs.ECDSA[alg][1]][2]
    return a[:n] == b[:n] and (int.from_bytes(a[n:], 'big') + int.from_bytes(b[n:], 'big')) % q == 0


def meaning(c, wire, i):
    """Everything verification depends on."""
    payload = c['payload'] if c['det'] else wire[2]
    if c['k'] == 'sign1':
        return (T.prot_meaning(wire[0]), payload, c['aad'], wire[3], repr(T.find_alg(wire)), c['pub'])
    s, sw = c['signers'][i], wire[3][i]
    return (T.prot_meaning(wire[0]), T.prot_meaning(sw[0]), payload, s['aad'], sw[2], repr(T.find_alg(sw)), s['pub'])


def pub(s):
    m = B.wire_key(s['key'], False)
    return repr(m)


def set_neg(s):
    """The key with the negated public point."""
    x, y = R.ec_pub(s['key']['crv'], s['key']['d'])
    p = {'P_256': 2**256 - 2**224 + 2**192 + 2**96 - 1, 'P_384': 2**384 - 2**128 - 2**96 + 2**32 - 1,
         'P_521': 2**521 - 1}[s['key']['crv']]
    y = p - int.from_bytes(y, 'big')
    s['negkey'] = {1: 2, -1: algs.CURVE_ID[s['key']['crv']], -2: x, -3: y.to_bytes(len(x), 'big')}
    s['pub'] = repr(s['negkey'])


def verifier(c, data, i):
    """Decode and arm; returns a function which verifies signature i."""
    msg = B.CoseMessage.decode(data)
    if type(msg) is B.SignMessage:
        if len(msg.signers) <= i:
            raise ValueError('no such signer')
        o = msg.signers[i]
    else:
        o = msg
    s = c['signers'][i] if c['k'] == 'sign' else c
    o.external_aad = s['aad']
    o.key = B.CoseKey.from_dict(s['negkey']) if 'negkey' in s else B.key(s['key'], s['vpriv'], s['vp'], s['vf'])
    return msg, o, lambda **kw: o.verify_signature(**(kw if kw else M.det(c)))


def apply(case_c, data, m, rec):
    c = copy.deepcopy(case_c)
    i = m.get('i', 0)
    for s in c.get('signers', [c]):
        s['pub'] = pub(s)
    wire = cbor2.loads(data).value
    before = meaning(c, wire, i)
    s = c['signers'][i] if c['k'] == 'sign' else c
    node = wire[3][i] if c['k'] == 'sign' else wire
    at = 2 if c['k'] == 'sign' else 3
    k = m['m']
    what = 'verification after %s' % m

    if k == 'nopayload':
        _, o, verify = verifier(c, data, i)
        if c['det']:
            refused('verification without any payload', o.verify_signature)
            refused('verification without any payload', o.verify_signature, None)
            refused('verification without any payload', o.verify_signature, detached_payload=None)
        else:
            for p in (c['payload'], b'', b'x'):
                refused('verification with a carried and a detached payload', o.verify_signature, detached_payload=p)
        if m['v'] == 0:
            # signing too
            snd = M.build(case_c)
            if c['det']:
                refused('signing without any payload', snd.encode)
            else:
                refused('signing with a carried and a detached payload', snd.encode, detached_payload=c['payload'])
        rec.label('payload missing or doubled')
        rec.nt()
        return

    if k == 'obj':
        msg, o, verify = verifier(c, data, i)
        w = m['what']
        kw = M.det(c)
        if w in ('bphdr', 'bphdr_update') and c['k'] == 'sign1':
            w = w[1:]
        tgt = msg if w[0] == 'b' else o
        back = None
        for _ in range(m['pre']):
            # the object has been used for a genuine verification before it changes
            is_true('verification before an alteration in memory', verify())
        if w in ('phdr_update', 'bphdr_update', 'phdr', 'bphdr'):
            lab = B.pycose.headers.KID
            new = dict(tgt.phdr)
            if m['drop'] and w in ('phdr', 'bphdr'):
                new = {B.pycose.headers.Algorithm: B.alg_class(s['alg'])} if 4 in new or lab in new else {}
            else:
                new[lab] = m['val']
            if B.frozen(new) == B.frozen(tgt.phdr):
                return
            if B.pycose.headers.Algorithm not in new and tgt is o and B.pycose.headers.Algorithm in tgt.phdr:
                tgt.uhdr_update({B.pycose.headers.Algorithm: B.alg_class(s['alg'])})
            if w.endswith('update'):
                tgt.phdr_update({lab: m['val']})
            else:
                tgt.phdr = new
            if not tgt.phdr and not wire_prot_of(c, data, i, tgt is msg):
                return
        elif w == 'payload':
            new = T.mut_bytes(c['payload'], m['op'])
            if new == c['payload']:
                return
            if c['det']:
                kw = {'detached_payload': new}
                back = ()
            else:
                msg.payload = new
                back = (msg, 'payload', c['payload'])
        elif w == 'aad':
            new = T.mut_bytes(s['aad'], m['op'])
            if new == s['aad']:
                return
            o.external_aad = new
            back = (o, 'external_aad', s['aad'])
        elif w in ('key', 'keyin'):
            other = {**s, 'key': m['key']}
            if pub(other) == pub(s):
                return
            new = B.key(m['key'], s['vpriv'] and w == 'key', s['vp'], s['vf'])
            if w == 'key' or s['key']['kt'] != m['key']['kt']:
                back = (o, 'key', o.key)
                o.key = new
            else:
                # the key object stays, its parameters change
                for x in ('crv', 'x', 'y') if s['key']['kt'] == 'ec' else ('crv', 'x') if s['key']['kt'] == 'okp' else 'ne':
                    setattr(o.key, x, getattr(new, x))
        else:
            new = T.mut_bytes(node[at], m['op'])
            if new == node[at] or is_twin(s['alg'], new, node[at]):
                return
            back = (o, 'signature', node[at])
            o.signature = new
        not_true(what, o.verify_signature, **kw)
        if back is not None:
            if back:
                setattr(*back)
            is_true('verification after the alteration was undone', verify())
        rec.label('in memory: ' + w)
        rec.nt()
        return

    if k == 'transfer':
        sig = node[at]
        if c['k'] == 'sign1':
            alg = {1: s['alg']}
            prot, u = wire[0], wire[1]
            new = [[prot, u, wire[2], [[b'', alg, sig]]], [b'', {}, wire[2], [[prot, u, sig]]],
                   [prot, u, wire[2], [[prot, u, sig]]], [prot, {}, wire[2], [[prot, u, sig], [prot, u, sig]]]][m['v']]
            tag, j = 98, 0
            c2 = {**c, 'k': 'sign', 'signers': [c]}
        else:
            new = [[node[0], node[1], wire[2], sig],
                   [wire[0], {**wire[1], **({1: s['alg']} if T.find(wire, 1) is None else {})}, wire[2], sig],
                   [b'', {1: s['alg']}, wire[2], sig], [node[0], wire[1], wire[2], sig]][m['v']]
            tag, j = 18, i
            c2 = {**c, 'k': 'sign1', **{x: s[x] for x in ('aad', 'key', 'vp', 'vf', 'vpriv')}}
        v = attempt(verifier, c2, enc(Tag(tag, new)), 0)
        if not isinstance(v, Raised):
            not_true(what, v[2])
        rec.label('transfer between message kinds')
        rec.nt()
        return

    if k == 'swap':
        j = m['j']
        a, b = meaning(c, wire, i), meaning(c, wire, j)
        if i == j or a[:4] + a[5:] == b[:4] + b[5:]:
            return
        wire[3][i][2], wire[3][j][2] = wire[3][j][2], wire[3][i][2]
    elif k == 'prot':
        T.mut_headers(node, m['op'])
    elif k == 'bprot':
        T.mut_headers(wire, m['op'])
    elif k == 'payload':
        if c['det']:
            c['payload'] = T.mut_bytes(c['payload'], m['op'])
        else:
            wire[2] = T.mut_bytes(wire[2], m['op'])
    elif k == 'aad':
        s['aad'] = T.mut_bytes(s['aad'], m['op'])
    elif k == 'foreign':
        # the signer's private key used for the same content, but in another signature scheme
        tbs = M.auth_data(c, wire[0]) if c['k'] == 'sign1' else M.auth_data(c, wire[0], s, node[0])
        new = R.foreign_sign(s['alg'], s['key'], tbs, m['v'])
        if new is None:
            return
        node[at] = new
    elif k == 'sig':
        node[at] = mut_sig(node[at], m['op'], s['alg'], c)
    elif k == 'alg':
        p = cbor2.loads(node[0]) if node[0] else {}
        if 1 in p:
            p[1] = m['alg']
            node[0] = enc(p)
        else:
            node[1][1] = m['alg']
        s['vp'] = {x: y for x, y in s['vp'].items() if x != 3}
    elif k == 'key':
        if m.get('neg'):
            set_neg(s)
        else:
            s['key'] = m['key']
            s['pub'] = pub(s)
    after = meaning(c, wire, i)
    if after == before:
        return
    sig0 = cbor2.loads(data).value
    sig0 = sig0[3][i][2] if c['k'] == 'sign' else sig0[3]
    if is_twin(s['alg'], node[at], sig0):
        return
    rec.label('altered: ' + k)
    rec.nt()
    v = attempt(verifier, c, enc(Tag(M.TAG[c['k']], wire)), i)
    if isinstance(v, Raised):
        rec.label('refused when decoding')
        return
    not_true(what, v[2])


def wire_prot_of(c, data, i, body):
    w = cbor2.loads(data).value
    return T.prot_meaning(w[0] if body or c['k'] == 'sign1' else w[3][i][0])


def check(case, rec):
    c = case['c']
    data = M.send(c)
    _, _, verify = verifier(c, data, case['m'][0].get('i', 0))
    is_true('verification of the unaltered message', verify())
    for m in case['m']:
        apply(c, data, m, rec)


def strategy(kind, n):
    @st.composite
    def s(draw):
        c = draw(kind())
        return {'c': c, 'm': draw(st.lists(mutation(c), min_size=n, max_size=n + 2))}
    return s


def enum():
    """Long payloads and external data, altered in places which a bound or a block size might hide."""
    out = []
    for a in algs.SIGN:
        key = {'kt': 'ec', 'crv': algs.ECDSA[a][1], 'd': B.fix.EC_POOL[algs.ECDSA[a][1]][0]} if a in algs.ECDSA else \
            {'kt': 'okp', 'crv': 'ED448', 'd': G.expand(5, 57)} if a in algs.EDDSA else {'kt': 'rsa', 'i': min(B.fix.rsa_fits(a))}
        for pl, aad in ((7, 70000), (70000, 7), (1 << 20, 66000)):
            c = {'k': 'sign1', 'alg': a, 'key': key, 'kf': 0, 'vf': 1, 'kp': {}, 'vp': {}, 'vpriv': False, 'det': pl > 70000,
                 'h': {'p': [[1, a]], 'u': [], 'sp': [0]}, 'payload': G.expand(1, pl), 'aad': G.expand(2, aad)}
            ops = [{'m': k, 'op': op} for k, n in (('aad', aad), ('payload', pl)) for op in T.far(n)]
            out.append({'c': c, 'm': ops[::3] if a in algs.ECDSA else ops})
    return out


FACETS = [
    Facet('sign1', strategy(M.sign1, 3), check, 1300, enum=enum, shards=4),
    Facet('sign', strategy(lambda: M.sign(2), 3), check, 900, shards=4),
    Facet('again-sign', resend.resends('sign'), resend.check, 600, shards=4),
]
