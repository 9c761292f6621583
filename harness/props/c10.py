"""C10 Recipient key management conforms to RFC 8152 (interoperability)."""
import copy

import cbor2
import hypothesis.strategies as st
import pycose.keys.curves
from pycose.messages.context import CoseKDFContext, PartyInfo, SuppPubInfo

import algs
import build as B
import conform as X
import gen as G
import msgs as M
import refcose as R
from core import Facet, Raised, attempt, eq, expect, refused
from refcbor import Tag, enc, wild_from

H = B.pycose.headers
RULE = ('Recipients of every kind built by the library are compared on the wire, and their KDF context, derived key and '
        'wrapped key, with an independent implementation; recipients made by that implementation (protected headers in '
        'arbitrary encodings) must yield the content key; KDF context objects and the algorithms\' wrap/derive functions are '
        'compared directly; and changing one context input must change the derived key. Non-trivial: every case (each '
        'compares at least one derived or wrapped key or context).')
ASSUMPTIONS = ['AES, SHA-2, RSA and EC primitives of the cryptography package / hashlib are right',
               'an absent and an empty HKDF salt are the same salt; so are absent and empty supplementary information']

TARGETS = sorted(algs.ENC) + algs.MAC_DELIVERABLE


def keylen(alg):
    return algs.ENC[alg][2] if alg in algs.ENC else algs.MAC[alg][3]


# ------------------------------------------------------------------------------------------- one recipient, both ways


@st.composite
def recip(draw):
    r = draw(st.one_of(M.wrap_recipient(), M.wrap_recipient(), M.ecdh_recipient(-25),
                       st.sampled_from(algs.DKA).flatmap(M.ecdh_recipient)))
    t = draw(st.sampled_from(TARGETS))
    return {'r': r, 'alg': t, 'cek': draw(G.exact(keylen(t))),
            'others': draw(st.lists(st.sampled_from(TARGETS + [6, 7]), max_size=2)), 'w': draw(st.lists(st.sampled_from(
        [0, 0, 1, 2, 3, 12, 13]), min_size=2, max_size=8))}


def shell(case):
    """The recipient case as the only recipient of a message case, for the reference."""
    return {'alg': case['alg'], 'rcpts': [case['r']], 'cek': case['cek']}


def to_wire(encoder, v, tstr):
    """The CBOR form of attribute classes and keys in a structure."""
    if isinstance(v, type):
        encoder.encode(v.fullname if tstr and issubclass(v, B.pycose.algorithms.CoseAlgorithm) else v.identifier)
    else:
        encoder.encode(cbor2.loads(v.encode()))


def check_recip(case, rec):
    r, target = case['r'], B.alg_class(case['alg'])
    c = shell(case)
    obj = M.build_recipient(r)
    if r['t'] != 'dka':
        obj.payload = case['cek']
    else:
        sender = obj.compute_cek(target, 'encrypt')
    node = cbor2.loads(cbor2.dumps(obj.encode(target_alg=target), default=lambda e, v: to_wire(e, v, obj.alg_tstr_encoding)))
    X.check_recipients(c, [node], r['h'].get('tstr'))
    if r['t'] == 'dka':
        eq(sender.k, M.ref_open_recipient(c, 0, node), 'key derived by the sender')
    else:
        eq(M.ref_open_recipient(c, 0, node), case['cek'], 'content key unwrapped by the reference')
    if r['t'] in ('kakw', 'dka'):
        kdf_alg = algs.ECDH[r['alg']][3] or case['alg']
        ctx = obj.get_kdf_context(B.alg_class(kdf_alg))
        n = algs.KW[kdf_alg][1] if kdf_alg in algs.KW else keylen(kdf_alg)
        eq(ctx.encode(), M.ref_context(r, kdf_alg, n, node[0]), 'KDF context of the sender')
        for other in case['others']:
            eq(obj.get_kdf_context(B.alg_class(other)).encode(), M.ref_context(r, other, keylen(other), node[0]),
               'KDF context of the sender for %s' % algs.ALG_NAMES[other])
    rec.label('%s %s' % (r['t'], algs.ALG_NAMES[r['alg']]))
    rec.nt()
    # the reference sends, the library receives
    prot = X.wild_prot(r['h'], case['w'])
    if r['t'] in ('kw', 'oaep'):
        prot = X.EMPTY[case['w'][0] % 7]
    cek = case['cek']
    u = B.wire_hdr(r['h']['u'])
    if r.get('gen'):
        u[-1] = B.wire_key(r['sk'], False)
    if r['t'] == 'kw':
        ct = R.kw_wrap(r['key']['k'], cek)
    elif r['t'] == 'oaep':
        ct = R.oaep_wrap(r['alg'], B.fix.RSA[r['key']['i']], cek)
    elif r['t'] == 'kakw':
        ct = R.kw_wrap(M.ref_secret(r, case['alg'], keylen(case['alg']), prot), cek)
    else:
        ct, cek = b'', M.ref_secret(r, case['alg'], keylen(case['alg']), prot)
    got = B.pycose.messages.recipient.CoseRecipient.create_recipient(
        cbor2.loads(enc([prot, u, ct], wild_from(case['w'][::-1]))), True, 'Enc_Recipient')
    got.key = M.receiver_key(r)
    info = M.local_info(r)
    if info:
        got.local_attrs = info
    k = got.compute_cek(target, 'decrypt')
    eq(k.k, cek, 'content key obtained by the receiver')
    if r['t'] in ('kakw', 'dka'):
        for other in case['others']:
            eq(got.get_kdf_context(B.alg_class(other)).encode(), M.ref_context(r, other, keylen(other), prot),
               'KDF context of the receiver for %s' % algs.ALG_NAMES[other])
        eq(got.get_kdf_context(B.alg_class(kdf_alg)).encode(), M.ref_context(r, kdf_alg, n, prot),
           'KDF context of the receiver')
        if any(M.attr(r['h'], l) is not None for l in M.PARTY):
            rec.label('party information')
        if 'pub' in r or 'priv' in r:
            rec.label('supplementary information')
        if M.attr(r['h'], -20):
            rec.label('salt')


# ------------------------------------------------------------------------------------------- sensitivity

@st.composite
def sense(draw):
    r = draw(st.sampled_from(algs.DKA + algs.KAKW).flatmap(M.ecdh_recipient))
    t = draw(st.sampled_from(TARGETS))
    return {'r': r, 'alg': t, 'cek': draw(G.exact(keylen(t))),
            'what': draw(st.sampled_from(M.PARTY + [-20, 'pub', 'priv', 'prot', 'alg', 'target', 'peer', 'own'])),
            'val': draw(G.blob(1, 40)), 'to': draw(st.sampled_from(TARGETS)), 'd': draw(st.integers(2, 10**9))}


def entry_set(h, lab, val):
    for b in (h['p'], h['u']):
        for e in b:
            if not isinstance(e[0], str) and e[0] == lab:
                if e[1] == val or (lab == -20 and e[1].rstrip(b'\0') == val.rstrip(b'\0')):
                    return False
                e[1] = val
                return True
    if lab == -20 and not val.rstrip(b'\0'):
        return False
    h['u'].append([lab, val])
    return True


def open_node(r, alg, node):
    got = B.pycose.messages.recipient.CoseRecipient.create_recipient(copy.deepcopy(node), True, 'x')
    got.key = M.receiver_key(r)
    info = M.local_info(r)
    if info:
        got.local_attrs = info
    return got.compute_cek(B.alg_class(alg), 'decrypt').k


def check_sense(case, rec):
    r = case['r']
    c = shell(case)
    dka = r['t'] == 'dka'

    def node_of(r):
        return M.ref_recipient({**c, 'rcpts': [r]}, 0, case['cek'])
    node = node_of(r)
    base = open_node(r, case['alg'], node)
    r2, alg = copy.deepcopy(r), case['alg']
    w = case['what']
    if w in M.PARTY or w == -20:
        if w == -20 and len(case['val']) > 60:
            return
        if not entry_set(r2['h'], w, case['val']):
            return
    elif w in ('pub', 'priv'):
        if r2.get(w) == case['val']:
            return
        r2[w] = case['val']
    elif w == 'prot':
        r2['h']['p'] = r2['h']['p'] + [['context', case['val']]]
        if any(l == 'context' for l, _ in r['h']['p'] + r['h']['u']):
            return
    elif w == 'alg':
        other = [a for a in algs.ECDH if (a in algs.DKA) == dka and algs.ECDH[a][1] == algs.ECDH[r['alg']][1] and a != r['alg']]
        r2['alg'] = other[case['d'] % len(other)]
        for e in r2['h']['p'] + r2['h']['u']:
            if not isinstance(e[0], str) and e[0] == 1:
                e[1] = r2['alg']
        for k in ('rp', 'pp', 'sp'):
            r2[k] = {x: y for x, y in r2[k].items() if x != 3}
    elif w == 'target':
        if not dka or case['to'] == alg:
            return
        alg = case['to']
    else:
        k = 'sk' if w == 'peer' else 'rk'
        q = R.EC[r['rk']['crv']][2]
        if case['d'] in (r[k]['d'], q - r[k]['d']):
            return
        r2[k] = {**r[k], 'd': case['d']}
        for e in r2['h']['p'] + r2['h']['u']:
            if w == 'peer' and not isinstance(e[0], str) and e[0] in (-1, -2) and B.is_spec(e[1]):
                e[1] = {'key': r2['sk']}
    node2 = node_of(r2)
    if not dka:
        node2[2] = node[2]      # the same wrapped key
    got = attempt(open_node, r2, alg, node2)
    rec.label('changed %s (%s)' % (w, r['t']))
    rec.nt()
    if isinstance(got, Raised):
        expect(not dka, 'derivation with a changed %s: %s', w, got)
        return
    expect(dka, 'the key was unwrapped in spite of a changed %s', w)
    if len(got) == len(base) or w != 'target':
        expect(got != base, 'the derived key does not depend on %s', w)


# ------------------------------------------------------------------------------------------- one recipient, used again

@st.composite
def reuse(draw):
    r = draw(st.sampled_from(algs.DKA + algs.KAKW).flatmap(M.ecdh_recipient))
    t = draw(st.sampled_from(TARGETS))
    steps = draw(st.lists(st.tuples(st.sampled_from(M.PARTY + [-20, 'pub', 'priv', 'phdr', 'own', 'peer', 'target', 4, 'none']),
                                    G.blob(0, 40), st.integers(2, 10**9)), min_size=1, max_size=6))
    return {'r': r, 'alg': t, 'cek': draw(G.exact(keylen(t))), 'steps': [list(x) for x in steps], 'fresh': draw(st.booleans())}


def check_reuse(case, rec):
    """Whatever changes between two uses of a recipient takes effect in the next one."""
    r, alg = copy.deepcopy(case['r']), case['alg']
    dka = r['t'] == 'dka'
    node = M.ref_recipient({**shell(case), 'rcpts': [r]}, 0, case['cek'])
    prot = node[0]
    got = B.pycose.messages.recipient.CoseRecipient.create_recipient(node, True, 'Enc_Recipient')
    sender = M.build_recipient(r)
    got.key = M.receiver_key(r)
    got.local_attrs = M.local_info(r)
    crv = r['rk']['crv']

    def use(what):
        target = B.alg_class(alg)
        kdf = algs.ECDH[r['alg']][3] or alg
        n = algs.KW[kdf][1] if kdf in algs.KW else keylen(kdf)
        for o in [got, sender] if prot == sender.phdr_encoded else [got]:
            eq(o.get_kdf_context(B.alg_class(kdf)).encode(), M.ref_context(r, kdf, n, prot), 'KDF context ' + what)
        secret = M.ref_secret(r, alg, keylen(alg), prot)
        if not dka:
            cek = G.expand(len(what) + case['steps'][0][2], keylen(alg))
            got.payload = R.kw_wrap(secret, cek)
            secret = cek
        eq(got.compute_cek(target, 'decrypt').k, secret, 'content key ' + what)

    use('at first')
    for w, val, d in case['steps']:
        here = [l for l, _ in r['h']['p']]
        if w in here:
            continue
        if w in M.PARTY or w in (-20, 4):
            for o in (got, sender):
                o.uhdr_update({B.hdr_class(w): val})
            r['h']['u'] = [e for e in r['h']['u'] if type(e[0]) is str or e[0] != w] + [[w, val]]
        elif w in ('pub', 'priv'):
            r[w] = val
            for o in (got, sender):
                # what is only known locally is set anew, or one by one
                if case['fresh']:
                    o.local_attrs = {**o.local_attrs, **M.local_info(r)}
                else:
                    o.local_attrs[H.SuppPubOther if w == 'pub' else H.SuppPrivOther] = val
        elif w == 'phdr':
            for o in (got, sender):
                o.phdr_update({'context': val})
            r['h']['p'] = [e for e in r['h']['p'] if e[0] != 'context'] + [['context', val]]
            r['h']['u'] = [e for e in r['h']['u'] if e[0] != 'context']
            for o in (got, sender):
                o.uhdr.pop('context', None)
            prot = got.phdr_encoded
            eq(cbor2.loads(prot)['context'], val, 'the new protected header')
        elif w == 'own':
            r['rk'] = {**r['rk'], 'd': d}
            got.key = M.receiver_key(r)
        elif w == 'peer':
            lab = -1 if algs.ECDH[r['alg']][1] else -2
            if lab in here:
                continue
            r['sk'] = {**r['sk'], 'd': d}
            got.uhdr_update({B.hdr_class(lab): B.key(r['sk'], False)})
        elif w == 'target':
            alg = TARGETS[d % len(TARGETS)]
        use('after a change of %s' % w)
        rec.label('changed %s (%s)' % (w, r['t']))
        rec.nt()


# ------------------------------------------------------------------------------------------- keys longer than a symmetric key

@st.composite
def long_keys(draw):
    alg = draw(st.sampled_from([6, 7, 7]))
    return {'c': draw(M.macm(alg=alg, modes=('dka', 'wrap', 'wrap'))), 'cek': draw(G.exact(keylen(alg)))}


def check_long_keys(case, rec):
    """HMAC 384 and 512 take a key of the length of their hash: it arrives whole, or the message is refused."""
    c = case['c']
    t = c['rcpts'][0]['t']
    wire = attempt(M.send, c)
    rec.nt()
    if isinstance(wire, Raised):
        rec.label('sending refused (%s)' % t)
    else:
        body = cbor2.loads(wire).value
        ceks = [M.ref_open_recipient(c, i, w) for i, w in enumerate(body[4])]
        for i, cek in enumerate(ceks):
            eq(len(cek), keylen(c['alg']), 'length of the content key of recipient %d' % i)
            eq(cek, ceks[0], 'content key of recipient %d' % i)
        eq(body[3], R.mac_tag(c['alg'], ceks[0], M.auth_data(c, body[0])), 'tag')
        rec.label('sent (%s)' % t)
    # the other way round: a message from an independent sender is verified with exactly its key
    if any(r['t'] == 'oaep' for r in c['rcpts']):
        return      # some RSA keys are too short for it
    sent = {**c, 'cek': case['cek']} if t != 'dka' else c
    res = attempt(open_long, sent, enc(M.ref_message(sent)))
    if isinstance(res, Raised):
        rec.label('receiving refused (%s)' % t)
    else:
        eq(res, True, 'verification of a message from an independent sender')
        rec.label('received (%s)' % t)


def open_long(c, wire):
    got = M.receive(c, wire)
    return got.verify_tag(M.arm(c, got))


# ------------------------------------------------------------------------------------------- the context classes

opt = st.one_of(st.none(), G.blob(0, 40))


@st.composite
def context(draw):
    return {'alg': draw(st.sampled_from(sorted(algs.ALG_CLASSES))), 'n': draw(st.sampled_from([16, 24, 32, 8, 48, 64, 1])),
            'u': [draw(opt) for _ in range(3)], 'v': [draw(opt) for _ in range(3)], 'pub': draw(G.blob(0, 40)),
            'priv': draw(G.blob(0, 70)), 'h': draw(G.layer(draw(st.sampled_from(sorted(algs.ECDH))), keys=False)),
            'style': draw(st.integers(0, 7)), 'set': draw(st.booleans())}


def party(vals, style):
    p = PartyInfo(*vals) if style & 1 else PartyInfo(identity=vals[0], nonce=vals[1], other=vals[2])
    return p


def check_context(case, rec):
    prot = B.wire_prot(case['h']['p'])
    as_dict = case['style'] & 2
    entries = B.hdr(case['h']['p'])     # attribute classes
    pub = SuppPubInfo(case['n'], entries if as_dict else prot, case['pub'])
    u, v = party(case['u'], case['style']), party(case['v'], case['style'])
    if case['style'] & 4:
        ctx = CoseKDFContext(B.alg_class(case['alg']), pub, u, v, case['priv'])
    else:
        ctx = CoseKDFContext(algorithm=B.alg_class(case['alg']), supp_pub_info=pub, supp_priv_info=case['priv'])
        ctx.party_u_info, ctx.party_v_info = u, v
    want = R.kdf_context(case['alg'], case['n'], case['u'], case['v'], prot, case['pub'], case['priv'])
    eq(u.encode(), case['u'], 'PartyU')
    eq(ctx.encode(), want, 'KDF context')
    eq(ctx.encode(), want, 'KDF context, again')
    eq(pub.key_data_length, case['n'], 'key_data_length')
    if case['set']:
        for n in (16, 24, 32):
            pub.key_data_length = n
            eq(ctx.encode(), R.kdf_context(case['alg'], n, case['u'], case['v'], prot, case['pub'], case['priv']),
               'KDF context after setting the key length')
        for n in (0, 8, 15, 17, 64, -16):
            refused('key_data_length = %d' % n, setattr, pub, 'key_data_length', n)
            eq(pub.key_data_length, 32, 'key_data_length after a refused assignment')
    # defaults
    plain = CoseKDFContext(B.alg_class(case['alg']), SuppPubInfo(case['n']))
    eq(plain.encode(), R.kdf_context(case['alg'], case['n'], [None] * 3, [None] * 3, b''), 'default KDF context')
    rec.nt()


# ------------------------------------------------------------------------------------------- the primitives

@st.composite
def prim(draw):
    k = draw(st.sampled_from(['kw', 'kw', 'ecdh', 'ecdh', 'oaep']))
    if k == 'kw':
        a = draw(st.sampled_from(sorted(algs.KW)))
        return {'k': k, 'alg': a, 'key': draw(G.exact(algs.KW[a][1])), 'cek': draw(
            st.sampled_from([16, 24, 32, 40, 64, 128]).flatmap(G.exact)), 'bit': draw(st.integers(0, 10000)),
            'other': draw(st.sampled_from([16, 24, 32]))}
    if k == 'oaep':
        a = draw(st.sampled_from(sorted(algs.OAEP)))
        return {'k': k, 'alg': a, 'key': draw(G.rsa_key([i for i in B.fix.rsa_fits(a) if B.fix.RSA_BITS[i] < 2050])),
                'cek': draw(G.blob(1, 32)), 'bit': draw(st.integers(0, 10000))}
    a, b = draw(M.ec_pair())
    return {'k': k, 'alg': draw(st.sampled_from(sorted(algs.ECDH))), 'a': a, 'b': b, 'salt': draw(opt), 'n': draw(
        st.sampled_from([16, 24, 32])), 'target': draw(st.sampled_from(sorted(algs.ALG_CLASSES))), 'priv': draw(G.blob(0, 40))}


def check_prim(case, rec):
    alg = B.alg_class(case['alg'])
    if case['k'] == 'kw':
        kek = B.key({'kt': 'sym', 'k': case['key']})
        ct = R.kw_wrap(case['key'], case['cek'])
        eq(alg.key_wrap(kek, case['cek']), ct, 'key_wrap')
        eq(alg.key_unwrap(kek, ct), case['cek'], 'key_unwrap')
        refused('key_unwrap of an altered key', alg.key_unwrap, kek, X.T.mut_bytes(ct, ['flip', case['bit']]))
        if case['other'] != len(case['key']):
            k2 = B.key({'kt': 'sym', 'k': case['key'] * 2 if case['other'] > 24 and len(case['key']) == 16 else
                        (case['key'] * 2)[:case['other']]})
            refused('key_wrap with a key of the wrong length', alg.key_wrap, k2, case['cek'])
            refused('key_unwrap with a key of the wrong length', alg.key_unwrap, k2, ct)
    elif case['k'] == 'oaep':
        k = B.fix.RSA[case['key']['i']]
        pub, priv = B.key(case['key'], False), B.key(case['key'], True)
        eq(R.oaep_unwrap(case['alg'], k, alg.key_wrap(pub, case['cek'])), case['cek'], 'key_wrap')
        ct = R.oaep_wrap(case['alg'], k, case['cek'])
        eq(alg.key_unwrap(priv, ct), case['cek'], 'key_unwrap')
        got = attempt(alg.key_unwrap, priv, X.T.mut_bytes(ct, ['flip', case['bit']]))
        expect(isinstance(got, Raised) or got != case['cek'], 'an altered OAEP ciphertext yields the key')
    else:
        priv, pub = B.key(case['a'], True), B.key(case['b'], False)
        ctx = CoseKDFContext(B.alg_class(case['target']), SuppPubInfo(case['n']), supp_priv_info=case['priv'])
        z = R.ecdh(case['a']['crv'], case['a']['d'], *R.ec_pub(case['b']['crv'], case['b']['d']))
        want = R.hkdf(algs.ECDH[case['alg']][2], z, case['salt'],
                      R.kdf_context(case['target'], case['n'], [None] * 3, [None] * 3, b'', None, case['priv']), case['n'])
        eq(alg.derive_kek(priv.crv, priv, pub, ctx, case['salt']), want, 'derive_kek')
        if case['salt'] is None:
            eq(alg.derive_kek(priv.crv, priv, pub, ctx), want, 'derive_kek without salt')
        kw = algs.ECDH[case['alg']][3]
        if kw:
            eq(alg.get_key_wrap_func().identifier, kw, 'key wrap function of %s' % alg.fullname)
    rec.label(case['k'] + ' ' + algs.ALG_NAMES[case['alg']])
    rec.nt()


FACETS = [
    Facet('recipient', recip, check_recip, 1800, shards=4),
    Facet('sensitivity', sense, check_sense, 1500, shards=4),
    Facet('reuse', reuse, check_reuse, 1200, shards=2),
    Facet('long', long_keys, check_long_keys, 400),
    Facet('context', context, check_context, 1000, shards=2),
    Facet('primitives', prim, check_prim, 1000, shards=2),
]
