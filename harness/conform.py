"""Both directions of interoperability with the reference implementation, shared by C07, C08 and C09."""
import cbor2
import hypothesis.strategies as st

import algs
import build as B
import fix
import msgs as M
import refcose as R
import tamper as T
from core import eq, expect, fail, is_true
from refcbor import Raw, Tag, enc, wild_from

EMPTY = [b'', b'\xa0', b'\xb8\x00', b'\xb9\0\0', b'\xba\0\0\0\0', b'\xbb\0\0\0\0\0\0\0\0', b'\xbf\xff']
LEN = {'sign1': 4, 'sign': 4, 'mac0': 4, 'mac': 5, 'enc0': 3, 'enc': 4}


# ------------------------------------------------------------------------------------------- outgoing


def prot_is(prot, layer, what, tstr=None):
    """The protected header on the wire is the encoding of the entries (the empty string if there are none)."""
    expect(isinstance(prot, bytes), '%s: protected header is %r', what, type(prot))
    want = B.wire_hdr(layer['p'], layer.get('tstr'))
    if not want:
        eq(prot, b'', '%s: empty protected header' % what)
    else:
        import refcbor
        expect(refcbor.item_end(prot) == len(prot), '%s: bytes behind the protected header', what)
        eq(cbor2.loads(prot), want, '%s: protected header' % what)


def check_sig(alg, key, data, sig, what):
    if R.deterministic(alg):
        eq(sig, R.sign(alg, key, data), '%s: signature' % what)
    else:
        expect(R.verify(alg, key, data, sig), '%s: the signature is not one over the RFC structure', what)


def check_wire(c, data, rec, tagged=True):
    """Everything about an encoded message, against the reference."""
    k, tstr = c['k'], c['h'].get('tstr')
    w = B.parse(data, M.TAG[k] if tagged else None)
    eq(len(w), LEN[k], 'number of elements')
    prot_is(w[0], c['h'], 'body')
    eq(w[1], B.wire_hdr(c['h']['u'], tstr), 'body unprotected header')
    if k in ('sign1', 'sign'):
        eq(w[2], None if c['det'] else c['payload'], 'payload')
    elif k in ('mac0', 'mac'):
        eq(w[2], c['payload'], 'payload')
    if k == 'sign1':
        check_sig(c['alg'], c['key'], M.auth_data(c, w[0]), w[3], 'Sign1')
        return
    if k == 'sign':
        eq(len(w[3]), len(c['signers']), 'number of signatures')
        for i, (s, n) in enumerate(zip(c['signers'], w[3])):
            eq(len(n), 3, 'elements of a COSE_Signature')
            prot_is(n[0], s['h'], 'signer %d' % i)
            eq(n[1], B.wire_hdr(s['h']['u'], tstr), 'signer %d unprotected header' % i)
            check_sig(s['alg'], s['key'], M.auth_data(c, w[0], s, n[0]), n[2], 'signer %d' % i)
        return
    if k in ('mac0', 'enc0'):
        cek = c['key']['k']
    else:
        check_recipients(c, w[-1], tstr)
        ceks = [M.ref_open_recipient(c, i, n) for i, n in enumerate(w[-1])]
        cek = ceks[0]
        for x in ceks:
            eq(x, cek, 'content keys of the recipients')
        if c.get('cek'):
            eq(cek, c['cek'], 'preset content key')
    if k in ('mac0', 'mac'):
        eq(w[3], R.mac_tag(c['alg'], cek, M.auth_data(c, w[0])), 'tag')
    else:
        ad = M.auth_data(c, w[0])
        eq(w[2], R.aead_encrypt(c['alg'], cek, M.nonce_of(c), c['payload'], ad), 'ciphertext')
        if algs.ENC[c['alg']][1] == 'ccm' and len(c['payload']) + len(ad) < 600:
            eq(w[2], R.ccm_own(c['alg'], cek, M.nonce_of(c), c['payload'], ad), 'ciphertext (second reference)')
            rec.label('CCM against the block cipher alone')


def check_recipients(c, nodes, tstr):
    eq(len(nodes), len(c['rcpts']), 'number of recipients')
    for i, (r, n) in enumerate(zip(c['rcpts'], nodes)):
        eq(len(n), 3, 'elements of recipient %d' % i)
        prot_is(n[0], r['h'], 'recipient %d' % i)
        u = dict(n[1])
        want = B.wire_hdr(r['h']['u'], tstr)
        if r.get('gen'):
            eph = u.pop(-1, None)
            expect(isinstance(eph, dict) and set(eph) == {1, -1, -2, -3}, 'recipient %d: ephemeral key %r', i, eph)
            eq(eph[1], 2, 'type of the ephemeral key')
            eq(eph[-1], algs.CURVE_ID[r['rk']['crv']], 'curve of the ephemeral key')
            R.ec_public(r['rk']['crv'], eph[-2], eph[-3])
        eq(u, want, 'recipient %d unprotected header' % i)
        if r['t'] in ('direct', 'dka'):
            eq(n[2], b'', 'ciphertext of recipient %d' % i)


def check_out(case, rec):
    c = case['c']
    msg = M.build(c)
    data = M.encode(c, msg)
    check_wire(c, data, rec)
    if case['untagged']:
        msg = M.build(c)
        check_wire(c, M.encode(c, msg, tag=False), rec, False)
        rec.label('untagged')
    label(c, rec)
    rec.nt()


def label(c, rec):
    for x in [c] + c.get('signers', []) + c.get('rcpts', []):
        if 'alg' in x:
            rec.label('alg %s' % algs.ALG_NAMES[x['alg']])
        if not x['h']['p']:
            rec.label('an empty protected header')


def out_strategy(kind):
    return lambda: st.fixed_dictionaries({'c': kind(), 'untagged': st.booleans()})


# ------------------------------------------------------------------------------------------- incoming


def wild_prot(layer, choices):
    """The protected header of a layer in some valid CBOR encoding."""
    m = B.wire_hdr(layer['p'], layer.get('tstr'))
    if not m:
        return EMPTY[choices[0] % len(EMPTY)]
    return enc(m, wild_from(choices[1:]))


def random_sig(alg, key, data):
    """A valid signature which is not the deterministic one."""
    if alg in algs.ECDSA:
        from cryptography.hazmat.primitives.asymmetric import ec, utils
        crv = key['crv']
        der = ec.derive_private_key(key['d'], R.EC[crv][0]).sign(data, ec.ECDSA(R._HASH[algs.ECDSA[alg][2]]()))
        r, s = utils.decode_dss_signature(der)
        n = R.EC[crv][1]
        return r.to_bytes(n, 'big') + s.to_bytes(n, 'big')
    return R.sign(alg, key, data)


def check_in(case, rec):
    c = case['c']
    prot = wild_prot(c['h'], case['w'][0])
    sprots = [wild_prot(s['h'], case['w'][1 + i % 3]) for i, s in enumerate(c.get('signers', []))]
    ref = M.ref_message(c, prot, sprots, random_sig if case['random'] else None)
    for i, r in enumerate(c.get('rcpts', [])):
        if not B.wire_hdr(r['h']['p']) and r['t'] not in ('dka', 'kakw'):
            ref.value[-1][i][0] = EMPTY[case['w'][2][0] % len(EMPTY)]
    data = enc(ref, wild_from(case['w'][3]))
    if any(case['w'][3]):
        rec.label('message in a non-preferred encoding')
    if not T.prot_meaning(prot) and prot:
        rec.label('empty protected header as an encoded empty map')
    elif prot != B.wire_prot(c['h']['p'], c['h'].get('tstr')):
        rec.label('protected header in a non-preferred encoding')
    for who in range(len(c.get('rcpts', [0]))):
        msg = M.receive(c, data, case['how'])
        M.check_received(c, msg)
        eq(msg.phdr_encoded, prot, 'protected header bytes')
        obj = M.arm(c, msg, who)
        if c['k'] == 'enc':
            eq(msg.decrypt(obj), c['payload'], 'plaintext')
        else:
            M.verify_all(c, msg)
    label(c, rec)
    rec.nt()


choices = T.wild_choices | st.just([0])


def in_strategy(kind):
    return lambda: st.fixed_dictionaries({
        'c': kind(), 'w': st.lists(st.lists(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6, 12, 13]), min_size=1, max_size=8),
                                   min_size=4, max_size=4),
        'random': st.booleans(), 'how': st.integers(0, 1)})
