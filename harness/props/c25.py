"""C25 Objects are independent and operations repeatable."""
import copy

import cbor2
import hypothesis.strategies as st

import algs
import build as B
import faults
import fix
import forked
import gen as G
import msgs as M
import refcose as R
import sched
from core import attempt, eq, expect, Facet, is_true, Raised, same, short
from props.c14 import KEYMAP
from refcbor import enc

H = B.pycose.headers
RULE = ('Messages of every kind encoded up to 3 times with generated unrelated (also failing) operations in between, compared '
        'with each other and with a snapshot of the sender; received messages opened repeatedly; messages, recipients, signers '
        'and keys built from the same caller-owned dictionaries, lists, keys and contexts, then changed one at a time while all '
        'others and the inputs are compared with their snapshots; calls that take lists and dictionaries of the '
        'caller (key operations, optional parameters, headers, local attributes, certificates, recipients, context fields); '
        'objects made with default arguments after the containers of others were changed in place; the same bytes decoded '
        'several times while one result is changed deeply in place; and scripts of operations on 2..5 objects (senders, '
        'receivers, keys, derivation contexts), interleaved in a generated order in one fresh process and run separately in '
        'processes of their own, whose outcomes must be the same; operations in which the n-th library call fails, repeated afterwards; '
        'and actors in threads of their own that take turns after generated numbers of lines. Non-trivial: an operation on something else, or a change, '
        'happened between two observations that were compared.')
ASSUMPTIONS = ['a recipient or signer object belongs to one message',
               'the caller does not change the list of signers or recipients, or nested values, after handing them over']

KINDS = {'sign1': M.sign1, 'sign': M.sign, 'mac0': M.mac0, 'enc0': M.enc0, 'enc': M.encm, 'mac': M.macm}


def any_message(kinds=None, **kw):
    return st.sampled_from(sorted(kinds or KINDS)).flatmap(lambda k: KINDS[k](**kw))


def randomised(c):
    """Encoding makes random choices."""
    if c['k'] == 'sign1':
        return c['alg'] in algs.PSS
    if c['k'] == 'sign':
        return any(s['alg'] in algs.PSS for s in c['signers'])
    for r in c.get('rcpts', []):
        if r['t'] == 'oaep' or r.get('gen'):
            return True
    return bool(c.get('rcpts')) and c['rcpts'][0]['t'] not in ('direct', 'dka') and 'cek' not in c

# ------------------------------------------------------------------------------------------- snapshots


def sender_state(c, msg):
    """What encoding a message must not change."""
    out = [B.frozen(msg.phdr), B.frozen(msg.uhdr), msg.payload, msg.external_aad, B.frozen(dict(msg.local_attrs))]
    if 'key' in c:
        out.append(B.frozen(msg.key))
    for s in (msg.signers if c['k'] == 'sign' else []):
        out.append([id(s), B.frozen(s.phdr), B.frozen(s.uhdr), s.external_aad, B.frozen(s.key), B.frozen(dict(s.local_attrs))])
    for r, o in zip(c.get('rcpts', []), getattr(msg, 'recipients', [])):
        u = dict(o.uhdr)
        if r.get('gen'):
            u.pop(H.EphemeralKey, None)
        out.append([id(o), B.frozen(o.phdr), B.frozen(u), o.external_aad, B.frozen(dict(o.local_attrs))])
        if not r.get('gen'):
            out.append(B.frozen(o.key))
    out.append(len(getattr(msg, 'recipients', [])))
    return out


def received_state(msg):
    def layer(o):
        return [type(o).__name__, id(o), o.phdr_encoded, B.frozen(o.phdr), B.frozen(o.uhdr), o.payload, o.external_aad,
                getattr(o, 'auth_tag', None), getattr(o, 'signature', None), B.frozen(dict(o.local_attrs))] + \
            [layer(s) for s in getattr(o, 'signers', [])] + [layer(s) for s in getattr(o, 'recipients', [])]
    return layer(msg)


def open_message(c, msg, obj):
    if c['k'] == 'enc':
        eq(msg.decrypt(obj), c['payload'], 'plaintext')
    else:
        M.verify_all(c, msg)

# ------------------------------------------------------------------------------------------- noise: unrelated operations


NOISE = 16


def noise(n, msg=None):
    attempt(_noise, n, msg)


def _noise(n, msg):
    rc = B.pycose.messages.recipient
    ctx = B.pycose.messages.context
    alg = B.pycose.algorithms
    if n == 0 and msg is not None:
        attempt(repr, msg)
    elif n == 1:
        for b in (b'', b'\xd2\x84\x40\xa0\x40', enc([b'', {}, b'']), enc({1: 4}), b'\xd8\x60\x84\x43\xa1\x01\x19\xa0\x41x\x80'):
            attempt(B.CoseMessage.decode, b)
            attempt(B.CoseKey.decode, b)
    elif n == 2:
        B.SymmetricKey.generate_key(16)
        B.EC2Key.generate_key('P_256', optional_params={'KID': b'noise'})
        attempt(B.OKPKey.generate_key, 'P_256')
    elif n == 3:
        m = B.Mac0Message(phdr={'ALG': 'HMAC_256', 'KID': b'noise'}, uhdr={'noise': 1}, payload=b'noise', external_aad=b'noise')
        m.key = B.SymmetricKey(k=b'n' * 32)
        m.encode()
    elif n == 4:
        attempt(B.Enc0Message(phdr={'ALG': 'A128GCM'}, payload=b'noise').encode)
        attempt(B.EncMessage(phdr={'ALG': 'A128GCM'}, payload=b'noise').encode)
        attempt(B.SignMessage(payload=b'noise', signers=[B.CoseSignature()]).encode)
    elif n == 5:
        for cls in list(M.CLASS.values()) + [B.CoseSignature, rc.KeyWrap, rc.DirectKeyAgreement, rc.KeyAgreementWithKeyWrap]:
            m = cls()
            m.phdr_update({H.KID: b'noise', 'noise': 2})
            m.uhdr_update({H.Algorithm: alg.A128KW, H.IV: b'noise', 'noise': 2})
            m.local_attrs = {H.SuppPubOther: b'noise', H.SuppPrivOther: b'noise', H.StaticKey: None}
            for a in ('recipients', 'signers'):
                if hasattr(m, a):
                    attempt(getattr(m, a).append, None)
    elif n == 6:
        k = B.CoseKey.from_dict({'KTY': 'SYMMETRIC', 'K': b'n' * 16, 'noise': 1, 'KID': b'noise'})
        B.CoseKey.decode(k.encode())
        k.alg, k.key_ops = 'A128GCM', ['ENCRYPT']
        attempt(k.verify, B.SymmetricKey, alg.A256GCM, [])
    elif n == 7:
        c = ctx.CoseKDFContext(alg.A128KW, ctx.SuppPubInfo(16))
        c.party_u_info.identity = c.party_v_info.nonce = c.party_v_info.other = b'noise'
        c.supp_pub_info.protected['noise'] = 1
        c.supp_pub_info.other = c.supp_priv_info = b'noise'
        attempt(c.encode)
    elif n == 8:
        for x in ('noise', 4711, None, [1, 'KID'], 'alg'):
            attempt(H.CoseHeaderAttribute.from_id, x, True)
            attempt(alg.CoseAlgorithm.from_id, x, True)
    elif n == 9:
        d = enc(M.Tag(18, [enc({1: -8, 'noise': 1}), {4: b'noise'}, b'noise', b'n' * 64]))
        m = B.CoseMessage.decode(d)
        m.key = B.key({'kt': 'okp', 'crv': 'ED25519', 'd': b'n' * 32})
        attempt(m.verify_signature)
        attempt(B.CoseMessage.decode, d, allow_unknown_attributes=False)
    elif n == 10:
        d = enc(M.Tag(96, [enc({1: 1}), {5: b'n' * 12}, b'n' * 40, [[b'', {1: -3, 'noise': 1}, b'n' * 24]]]))
        m = B.CoseMessage.decode(d)
        m.recipients[0].key = B.SymmetricKey(k=b'n' * 16)
        attempt(m.decrypt, m.recipients[0])
    elif n == 11:
        r = rc.KeyAgreementWithKeyWrap(uhdr={H.Algorithm: alg.EcdhEsA128KW, H.PartyUID: b'noise', H.Salt: b'noise'})
        r.local_attrs = {H.StaticKey: B.key({'kt': 'ec', 'crv': 'P_256', 'd': 5}, False), H.SuppPubOther: b'noise'}
        B.EncMessage(phdr={H.Algorithm: alg.A128GCM}, uhdr={H.IV: b'n' * 12}, payload=b'noise', recipients=[r]).encode()
    elif n == 12:
        r = rc.KeyWrap(uhdr={H.Algorithm: alg.A256KW})
        r.key = B.SymmetricKey(k=b'n' * 32)
        B.MacMessage(phdr={H.Algorithm: alg.HMAC256}, payload=b'noise', recipients=[r]).encode()
    elif n == 13:
        r = rc.DirectKeyAgreement(phdr={H.Algorithm: alg.EcdhSsHKDF256})
        attempt(r.encode)
        attempt(r.compute_cek, alg.A128GCM, 'encrypt')
        r.local_attrs = {H.StaticKey: B.key({'kt': 'ec', 'crv': 'P_384', 'd': 5}, False)}
        r.key = B.key({'kt': 'ec', 'crv': 'P_256', 'd': 7})
        attempt(r.compute_cek, alg.A128GCM, 'encrypt')
    elif n == 14:
        m = B.Sign1Message(phdr={H.Algorithm: alg.EdDSA}, payload=b'noise', alg_tstr_encoding=True)
        m.key = B.key({'kt': 'okp', 'crv': 'ED448', 'd': b'n' * 57})
        m.encode()
    elif n == 15:
        m = B.SignMessage(payload=b'noise', signers=[B.CoseSignature(phdr={H.Algorithm: alg.EdDSA, H.KID: b'noise'},
                          key=B.key({'kt': 'okp', 'crv': 'ED25519', 'd': b'n' * 32}), external_aad=b'noise')])
        m.encode(detached_payload=None)
        attempt(m.encode, detached_payload=b'both')


noises = st.lists(st.integers(0, NOISE - 1), max_size=3)

# ------------------------------------------------------------------------------------------- repeating


def repeat_case(kinds):
    return lambda: st.fixed_dictionaries({'c': any_message(kinds), 'n': st.lists(noises, min_size=1, max_size=3),
                                          'm': noises, 'how': st.integers(0, 1)})


def check_repeat(case, rec):
    c = case['c']
    msg = M.build(c)
    before = sender_state(c, msg)
    first = None
    for i, ns in enumerate(case['n']):
        for n in ns:
            noise(n, msg)
        data = M.encode(c, msg)
        eq(sender_state(c, msg), before, 'the message after encoding %d' % i)
        if first is None:
            first = data
        elif not randomised(c):
            eq(data, first, 'encoding %d' % i)
        got = M.receive(c, data, case['how'])
        M.check_received(c, got)
        obj = M.arm(c, got)
        state = received_state(got)
        for _ in range(2):
            open_message(c, got, obj)
            eq(received_state(got), state, 'the received message after opening it')
            for n in case['m']:
                noise(n, got)
        if i or ns:
            rec.nt()
    # a second message from the same data
    msg2 = M.build(c)
    eq(received_layers(msg2), received_layers(M.build(c)), 'a second message from the same data')
    data2 = M.encode(c, msg2)
    if not randomised(c):
        eq(data2, first, 'encoding of a second message from the same data')
    eq(sender_state(c, msg), before, 'the first message after encoding the second')
    rec.label(c['k'])
    rec.label('randomised' if randomised(c) else 'deterministic')


def received_layers(m):
    return [B.frozen(m.phdr), B.frozen(m.uhdr), m.payload, [received_layers(x) for x in getattr(m, 'signers', [])],
            [received_layers(x) for x in getattr(m, 'recipients', [])]]

# ------------------------------------------------------------------------------------------- the caller's objects


KP = B.pycose.keys.keyparam


@st.composite
def shared(draw):
    c = draw(any_message())
    return {'c': c, 'edit': draw(st.lists(st.tuples(st.integers(0, 7), st.integers(0, 3)), min_size=1, max_size=6)),
            'caller': draw(st.booleans()), 'v': draw(G.small), 'n': draw(noises)}


class Inputs:
    """Everything a caller hands over, with snapshots."""

    def __init__(self):
        self.items = []

    def add(self, what, obj):
        self.items.append((what, obj, B.frozen(obj)))
        return obj

    def check(self, when):
        for what, obj, snap in self.items:
            if B.frozen(obj) != snap:
                eq(B.frozen(obj), snap, "the caller's %s %s" % (what, when))


def layer_kw(inp, h, what):
    kw = B.hdrs(h)
    for k in ('phdr', 'uhdr'):
        if k in kw:
            inp.add('%s of the %s' % (k, what), kw[k])
    return kw


def prepare(c, inp):
    """Arguments from which any number of equal messages can be made."""
    kw = layer_kw(inp, c['h'], 'message')
    if c['k'] != 'sign':
        kw['external_aad'] = c['aad']
    if not (c['k'] in ('sign1', 'sign') and c['det']):
        kw['payload'] = c['payload']
    if 'key' in c:
        kw['key'] = inp.add('key', B.key(c['key'], True, c['kp'], c['kf']))
    parts = []
    for i, s in enumerate(c.get('signers', [])):
        parts.append((layer_kw(inp, s['h'], 'signer %d' % i), inp.add('key of signer %d' % i, B.key(s['key'], True, s['kp'], s['kf']))))
    for i, r in enumerate(c.get('rcpts', [])):
        model = M.build_recipient(r)
        key = model.key
        if key is not None:
            inp.add('key of recipient %d' % i, key)
        local = dict(model.local_attrs)
        parts.append((layer_kw(inp, r['h'], 'recipient %d' % i), key, inp.add('local attributes of recipient %d' % i, local), type(model)))
    return kw, parts


def make(c, prep):
    kw, parts = prep
    kw = dict(kw)
    if c['k'] == 'sign':
        kw['signers'] = [B.CoseSignature(external_aad=s['aad'], key=key, **lk) for s, (lk, key) in zip(c['signers'], parts)]
    if 'rcpts' in c:
        kw['recipients'] = []
        for i, (lk, key, local, cls) in enumerate(parts):
            o = cls(**lk)
            if key is not None:
                o.key = key
            if local:
                o.local_attrs = local
            if i in c.get('cekat', []):
                o.payload = c['cek']
            kw['recipients'].append(o)
    lists = [(k, kw[k], list(kw[k])) for k in ('signers', 'recipients') if k in kw]
    msg = M.CLASS[c['k']](**kw)
    for k, v, was in lists:
        expect(len(v) == len(was) and all(a is b for a, b in zip(v, was)), "the caller's list of %s changed", k)
    return msg


def layers(m):
    return [m] + list(getattr(m, 'signers', [])) + list(getattr(m, 'recipients', []))


def check_shared(case, rec):
    c = case['c']
    inp = Inputs()
    prep = prepare(c, inp)
    a = make(c, prep)
    inp.check('after building a message')
    b = make(c, prep)
    inp.check('after building two messages')
    for n in case['n']:
        noise(n)
    state_b = sender_state(c, b)
    wire_a = M.encode(c, a)
    inp.check('after encoding the first message')
    eq(sender_state(c, b), state_b, 'the second message after encoding the first')
    state_a = sender_state(c, a)
    wire_b = M.encode(c, b)
    inp.check('after encoding the second message')
    eq(sender_state(c, a), state_a, 'the first message after encoding the second')
    if not randomised(c):
        eq(wire_b, wire_a, 'the second message from the same objects')
    # change the first message: the second one and the inputs stay
    for o, i in case['edit']:
        t = layers(a)[i % len(layers(a))]
        new = {35: 'uri', 4: case['v'], 'zz': [1], -3: b'x', 3: 0, 10: b'', 99: None}
        lab = sorted(new, key=str)[i + o % 4]
        d = {(B.hdr_class(lab) if isinstance(lab, int) and lab in algs.HEADERS else lab): new[lab]}
        if o in (0, 1):
            (t.phdr_update, t.uhdr_update)[o](d)
        elif o in (2, 3):
            setattr(t, ('phdr', 'uhdr')[o - 2], d)
        elif o == 4:
            t.payload = case['v']
        elif o == 5:
            t.external_aad = case['v']
        elif o == 6:
            t.local_attrs = {H.SuppPubOther: case['v'], H.SuppPrivOther: b'p'}
        else:
            t.key = B.SymmetricKey(k=b'k' * 16)
    inp.check('after changing the first message')
    eq(sender_state(c, b), state_b, 'the second message after changing the first')
    again = M.encode(c, b)
    if not randomised(c):
        eq(again, wire_a, 'the second message after changing the first')
    # the caller goes on using its dictionaries
    if case['caller']:
        for what, obj, _ in inp.items:
            if isinstance(obj, dict) and not isinstance(obj, B.CoseKey):
                obj.clear()
                obj['changed'] = 1
        eq(sender_state(c, b), state_b, 'the second message after the caller changed its dictionaries')
        again = M.encode(c, b)
        if not randomised(c):
            eq(again, wire_a, 'the second message after the caller changed its dictionaries')
        rec.label('caller changes')
    got = M.receive(c, again)
    obj = M.arm(c, got)
    M.check_received(c, got)
    open_message(c, got, obj)
    rec.nt()
    rec.label(c['k'])

# ------------------------------------------------------------------------------------------- keys


@st.composite
def keys(draw):
    spec = draw(st.one_of(G.ec_key(), G.okp_key(), G.sym_key(), G.rsa_key([i for i, b in enumerate(fix.RSA_BITS) if b < 1100])))
    legal = M.SYM_LEGAL if spec['kt'] == 'sym' else M.SIGN_LEGAL
    params = {}
    for lab, s in ((2, G.small), (3, st.sampled_from([-7, -8, 1, 5, -3])), (4, st.lists(st.sampled_from(legal), min_size=1, max_size=3)),
                   (5, G.small), (-70000, G.leaf), ('zz', G.leaf)):
        if draw(st.integers(0, 2)) == 0:
            params[lab] = draw(s)
    return {'k': spec, 'p': params, 's': [draw(st.integers(0, 2)), draw(st.integers(0, 2))], 'priv': draw(st.booleans()),
            'edit': draw(st.lists(st.integers(0, 6), min_size=1, max_size=4)), 'v': draw(G.small), 'n': draw(noises),
            'form': draw(st.integers(0, 7))}


def edit_key(k, o, v):
    if o == 0:
        k.kid = v
    elif o == 1:
        k.alg = 'ES256' if not isinstance(k, B.SymmetricKey) else 'A128GCM'
    elif o == 2:
        k.key_ops = []
    elif o == 3:
        k.base_iv = v
    elif o == 4:
        k['zz'] = v
    elif o == 5:
        for lab in ('KID', 'KEY_OPS', -70000, 'zz', 3, 5):
            if lab in k:
                del k[lab]
    else:
        k.key_ops = [1] if not isinstance(k, B.SymmetricKey) else [3, 4]


def check_keys(case, rec):
    m = B.wire_key(case['k'], case['priv'] or case['k']['kt'] == 'sym', case['p'])
    inp = Inputs()
    d = inp.add('dictionary', B.spell_key_map(copy.deepcopy(m), *case['s']))
    a, b = B.CoseKey.from_dict(d), B.CoseKey.from_dict(d)
    inp.check('after building two keys')
    opt = {k: v for k, v in B.spell_key_map({1: m[1], **copy.deepcopy(case['p'])}, case['s'][1], case['s'][1]).items()
           if k not in (1, 'KTY', KP.KpKty)}
    inp.add('optional parameters', opt)
    third = fresh_key(case, opt)
    fourth = fresh_key(case, opt)
    bare = fresh_key(case, None)
    plain = B.wire_key(case['k'], case['priv'] or case['k']['kt'] == 'sym')
    for k, want in ((a, m), (b, m), (third, m), (fourth, m), (bare, plain)):
        eq(B.key_map(k), want, 'a key')
    inp.check('after building four keys')
    enc1 = b.encode()
    for o in case['edit']:
        attempt(edit_key, a, o, case['v'])
        attempt(edit_key, third, o, case['v'])
        attempt(edit_key, bare, o, case['v'])
        for n in case['n']:
            noise(n)
        inp.check('after changing a key')
        for k in (b, fourth):
            eq(B.key_map(k), m, 'another key after changing one')
        eq(B.key_map(fresh_key(case, None)), plain, 'a new key after changing another')
        eq(b.encode(), enc1, 'the encoding after changing another key')
    state = B.frozen(b)
    for _ in range(2):
        eq(b.encode(), enc1, 'the encoding repeated')
        attempt(repr, b)
        attempt(b.verify, type(b), B.alg_class(1), [])
        attempt(b.verify, type(b), B.alg_class(-7), [B.op_class(1)])
        eq(B.frozen(b), state, 'the key after using it')
    if isinstance(d, dict):
        d.clear()
        opt.clear()
        eq(B.frozen(b), state, 'the key after its dictionary was cleared')
        eq(B.key_map(fourth), m, 'the key after its optional parameters were cleared')
    # a key handed to messages is not changed by them, nor by receiving it
    eph = B.key({'kt': 'ec', 'crv': 'P_256', 'd': 9}, False)
    es = B.frozen(eph)
    msgs = [B.Enc0Message(uhdr={lab: eph}) for lab in (H.EphemeralKey, 'STATIC_KEY', -1)]
    for x in msgs:
        x.encode(encrypt=False)
    eq(B.frozen(eph), es, 'a key in a header after encoding')
    rec.nt()
    rec.label(case['k']['kt'])


def fresh_key(case, opt):
    m = B.wire_key(case['k'], case['priv'] or case['k']['kt'] == 'sym')
    kt = case['k']['kt']
    if kt == 'sym':
        return B.SymmetricKey(k=m[-1], optional_params=opt)
    if kt == 'ec':
        return B.EC2Key(crv=case['k']['crv'], x=m[-2], y=m[-3], d=m.get(-4, b''), optional_params=opt)
    if kt == 'okp':
        return B.OKPKey(crv=case['k']['crv'], x=m[-2], d=m.get(-4, b''), optional_params=opt)
    return B.RSAKey(**{n: m[lab] for lab, n in B.RSA_FIELDS if lab in m}, optional_params=opt)

# ------------------------------------------------------------------------------------------- interleaving


DET_SIGN = [-7, -8, -8, -8, -257]
head_label = st.sampled_from([4, 3, 35, -3, 10, 99, 'zz', 2])


def det_message():
    def fixup(c):
        for r in c.get('rcpts', []):
            if r.get('gen'):
                r['gen'] = False
                r['h']['u'].append([-1, {'key': r['sk']}])
        rs = c.get('rcpts')
        if rs and rs[0]['t'] not in ('direct', 'dka') and 'cek' not in c:
            c['cek'], c['cekat'] = G.expand(7, M.content_keylen(c)), [0]
        return c
    sign = st.sampled_from(DET_SIGN).flatmap(lambda a: M.sign1(alg=a))
    return st.one_of(sign, sign, M.mac0(), M.enc0(), M.encm(), M.macm(), M.sign(max_signers=2)).map(fixup).filter(
        lambda c: not randomised(c))


@st.composite
def actor(draw):
    t = draw(st.sampled_from(['tx', 'tx', 'tx', 'rx', 'rx', 'key', 'ctx']))
    a = {'t': t}
    ops = []
    if t in ('tx', 'rx'):
        a['c'] = draw(det_message())
        kinds = ['open', 'open', 'upd', 'upd', 'hdr', 'get', 'set', 'repr', 'state', 'aad', 'local'] if t == 'rx' else [
            'enc', 'enc', 'enc', 'upd', 'upd', 'hdr', 'get', 'set', 'repr', 'state', 'payload', 'aad', 'local', 'send']
    elif t == 'key':
        a.update(draw(keys()))
        kinds = ['edit', 'edit', 'encode', 'encode', 'repr', 'codec', 'ops', 'verify']
    else:
        a['alg'] = draw(st.sampled_from([1, 3, 10, -3, -5]))
        a['defaults'] = draw(st.integers(0, 3))
        kinds = ['field', 'field', 'field', 'encode', 'encode']
    for _ in range(draw(st.integers(1, 5))):
        ops.append([draw(st.sampled_from(kinds)), draw(st.integers(0, 7)), draw(head_label), draw(G.small)])
    a['ops'] = ops
    return a


@st.composite
def interleaving(draw):
    n = draw(st.integers(2, 4))
    actors = [draw(actor()) for _ in range(n)]
    if draw(st.integers(0, 3)) == 0:
        actors[1] = copy.deepcopy(actors[0])
    todo = [i for i, a in enumerate(actors) for _ in range(len(a['ops']) + 1)]
    todo += [-1 - x for x in draw(noises)]
    return {'a': actors, 'order': draw(st.permutations(todo))}


class Actor:
    def __init__(self, spec):
        self.spec = spec
        self.ops = list(spec['ops'])
        self.out = []
        self.obj = None

    def step(self):
        r = attempt(self.create if self.obj is None else self.act)
        self.out.append(('raised', type(r.exc).__name__) if isinstance(r, Raised) else r)

    def create(self):
        s = self.spec
        if s['t'] == 'tx':
            self.obj = M.build(s['c'])
        elif s['t'] == 'rx':
            self.obj = M.receive(s['c'], enc(M.ref_message(s['c'])))
            self.rcpt = M.arm(s['c'], self.obj)
        elif s['t'] == 'key':
            self.obj = B.key(s['k'], s['priv'] or s['k']['kt'] == 'sym', s['p'], s['form'])
        else:
            ctx = B.pycose.messages.context
            kw = {}
            if s['defaults'] & 1:
                kw['party_u_info'] = ctx.PartyInfo()
            if s['defaults'] & 2:
                kw['supp_priv_info'] = b'priv'
            self.obj = ctx.CoseKDFContext(B.alg_class(s['alg']), ctx.SuppPubInfo(16), **kw)
        return self.state()

    def state(self):
        if self.spec['t'] in ('tx', 'rx'):
            return strip(received_layers(self.obj))
        if self.spec['t'] == 'key':
            return strip(B.frozen(self.obj))
        return strip(self.obj.encode())

    def act(self):
        op, n, lab, v = self.ops.pop(0)
        o, t = self.obj, self.spec['t']
        if t in ('tx', 'rx'):
            c = self.spec['c']
            ls = layers(o)
            tgt = ls[n % len(ls)]
            cls = B.hdr_class(lab) if lab in algs.HEADERS else lab
            val = {2: [v.hex() or 'x'], 3: len(v), 35: v.hex()}.get(lab, v)
            if op == 'enc':
                return M.encode(c, o)
            if op == 'send':
                got = M.receive(c, M.encode(c, o))
                r = M.arm(c, got)
                return strip(attempt_result(got, c, r))
            if op == 'open':
                return strip(attempt_result(o, c, self.rcpt))
            if op == 'upd':
                (tgt.phdr_update if n & 4 else tgt.uhdr_update)({cls: val})
            elif op == 'hdr':
                setattr(tgt, 'phdr' if n & 4 else 'uhdr', {cls: val, H.Algorithm: tgt.get_attr(H.Algorithm)})
            elif op == 'get':
                return strip(B.frozen(tgt.get_attr(cls, v)))
            elif op == 'set':
                tgt.uhdr[cls] = val
            elif op == 'repr':
                return repr(tgt).replace(hex(id(tgt)), '')[:0]
            elif op == 'payload':
                o.payload = v
            elif op == 'aad':
                if c['k'] != 'sign':
                    o.external_aad = v
            elif op == 'local':
                tgt.local_attrs = {H.SuppPubOther: v}
                return strip(B.frozen(dict(tgt.local_attrs)))
            return self.state()
        if t == 'key':
            if op == 'edit':
                edit_key(o, n % 7, v)
            elif op == 'encode':
                return o.encode()
            elif op == 'codec':
                self.obj = B.CoseKey.decode(o.encode())
            elif op == 'ops':
                return [x.identifier for x in o.key_ops]
            elif op == 'verify':
                o.verify(type(o), B.alg_class((1, -7, -8, 5)[n % 4]), [B.op_class(1 + n)])
            return self.state()
        if op == 'field':
            tgt, f = [(o.party_u_info, 'identity'), (o.party_u_info, 'nonce'), (o.party_v_info, 'identity'), (o.party_v_info, 'other'),
                      (o.supp_pub_info, 'other'), (o, 'supp_priv_info'), (o.supp_pub_info, None), (o.party_v_info, 'nonce')][n]
            if f:
                setattr(tgt, f, v)
            else:
                tgt.protected[B.hdr_class(4)] = v
        return self.state()


def attempt_result(msg, c, r):
    if c['k'] == 'enc':
        return msg.decrypt(r)
    if c['k'] == 'enc0':
        return msg.decrypt()
    if c['k'] == 'sign1':
        return msg.verify_signature(**M.det(c))
    if c['k'] == 'sign':
        return [repr(attempt(s.verify_signature, **M.det(c)))[:60] for s in msg.signers]
    return msg.verify_tag()


def strip(x):
    """Picklable: classes by name."""
    if isinstance(x, type):
        return ('class', x.__name__)
    if isinstance(x, (list, tuple)):
        return [strip(y) for y in x]
    if isinstance(x, dict):
        return [[strip(k), strip(v)] for k, v in x.items()]
    return x if isinstance(x, (bytes, str, int, float, type(None))) else repr(x)


def alone(spec):
    a = Actor(spec)
    for _ in range(len(spec['ops']) + 1):
        a.step()
    return a.out


def together(case):
    actors = [Actor(s) for s in case['a']]
    for i in case['order']:
        if i < 0:
            noise(-1 - i)
        else:
            actors[i].step()
    return [a.out for a in actors]


def check_interleave(case, rec):
    outs = forked.run(together, case)
    for i, s in enumerate(case['a']):
        want = forked.run(alone, s)
        for j, (g, w) in enumerate(zip(outs[i], want)):
            what = 'creation' if j == 0 else 'operation %d (%s)' % (j, s['ops'][j - 1][0])
            eq(g, w, 'object %d (%s), %s, among others instead of alone' % (i, s['t'], what))
        eq(len(outs[i]), len(want), 'number of outcomes')
    o = [i for i in case['order'] if i >= 0]
    if any(a != b for a, b in zip(o, sorted(o))):
        rec.nt()
    for s in case['a']:
        rec.label(s['t'])

# ------------------------------------------------------------------------------------------- what a call takes belongs to the caller

CURVES = ['P_256', 'P_384', 'P_521', 'ED25519', 'ED448', 'X25519', 'X448']
nested = st.one_of(st.lists(G.leaf, max_size=3), st.dictionaries(st.one_of(st.integers(-3, 30), st.text(max_size=3)), G.leaf, max_size=3),
                   st.lists(st.lists(G.small, max_size=2), max_size=2))


@st.composite
def call(draw):
    t = draw(st.sampled_from(['ops', 'ops', 'generate', 'generate', 'pem', 'hdr', 'hdr', 'hdr', 'local', 'dict', 'verify', 'x5', 'rules',
                              'kdf', 'keyhdr', 'keyhdr']))
    c = {'t': t, 's': draw(st.integers(0, 2))}
    kt = c['kt'] = draw(st.sampled_from(['ec', 'okp', 'sym', 'rsa']))
    legal = M.SYM_LEGAL if kt == 'sym' else M.SIGN_LEGAL if kt != 'rsa' else [1, 2]
    c['ops'] = draw(st.lists(st.tuples(st.sampled_from(legal), st.integers(0, 2)), max_size=4))
    p = {}
    for lab, v in ((2, G.small), (3, st.sampled_from([-7, 1, 5])), (4, st.just(None)), (5, G.small), (-1, G.small), (-2, G.small),
                   (-4, G.small), ('zz', nested), (-70000, nested)):
        if draw(st.integers(0, 2)) == 0:
            p[lab] = draw(v)
    c['p'] = p
    if t == 'generate':
        c['crv'] = draw(st.sampled_from(CURVES))
    elif t == 'hdr':
        c['cls'] = draw(st.integers(0, 10))
        c['how'] = draw(st.integers(0, 5))
        c['h'] = draw(st.dictionaries(st.sampled_from([2, 3, 4, 5, 33, 35, 'zz', -70000, 99, 'KID']), nested, max_size=4))
    elif t == 'keyhdr':
        c['cls'] = draw(st.integers(0, 10))
        c['how'] = draw(st.integers(0, 3))
        c['other'] = draw(st.integers(0, 3))
        c['lab'] = draw(st.sampled_from([-1, -2]))
        c['edits'] = draw(st.lists(st.integers(0, 5), min_size=1, max_size=4))
    elif t in ('x5', 'local'):
        c['h'] = draw(st.lists(G.small, max_size=3))
    elif t == 'rules':
        c['rs'] = draw(st.lists(st.integers(0, 4), max_size=4))
    c['deep'] = draw(st.integers(0, 3))
    return c


def params(c):
    """Optional parameters for a key: spelled labels, nested values."""
    out = {}
    for lab, v in copy.deepcopy(c['p']).items():
        if lab == 4:
            v = [spell_op(o, s) for o, s in c['ops']]
        if isinstance(lab, int) and lab in algs.KP_COMMON and lab != 1:
            lab = (B.kp_class(4, lab), lab, algs.KP_COMMON[lab][1])[c['s']]
        elif isinstance(lab, int) and lab > -5:
            kty = B.KTY[c['kt']]
            if lab in algs.KP_BY_KTY[kty]:
                lab = (B.kp_class(kty, lab), lab, algs.KP_BY_KTY[kty][lab][1])[c['s']]
        out[lab] = v
    return out


def spell_op(o, s):
    return (B.op_class(o), o, algs.KEYOPS[o][1])[s]


def scramble(x, depth=3):
    """Change every container in x, deeply, in place."""
    if isinstance(x, list):
        for v in x:
            scramble(v, depth)
        x.append('scrambled')
    elif isinstance(x, dict):
        for v in list(x.values()):
            scramble(v, depth)
        x['scrambled'] = 1


def all_layers():
    rc = B.pycose.messages.recipient
    return [M.CLASS[k] for k in sorted(M.CLASS)] + [B.CoseSignature, rc.DirectEncryption, rc.KeyWrap, rc.DirectKeyAgreement,
                                                    rc.KeyAgreementWithKeyWrap]


SPECS = {'ec': {'kt': 'ec', 'crv': 'P_256', 'd': 77}, 'okp': {'kt': 'okp', 'crv': 'ED25519', 'd': b'd' * 32},
         'sym': {'kt': 'sym', 'k': b'k' * 16}, 'rsa': {'kt': 'rsa', 'i': [i for i, b in enumerate(fix.RSA_BITS) if b < 1100][0]}}


def check_call(c, rec):
    t = c['t']
    inp = Inputs()
    spec = SPECS[c['kt']]
    if t == 'ops':
        a, b = B.key(spec, True), B.key(spec, True)
        ops = inp.add('list of operations', [spell_op(o, s) for o, s in c['ops']])
        for k in (a, b):
            k.key_ops = ops
            inp.check('after setting it')
        want = [B.op_class(o) for o, _ in c['ops']]
        enc1 = b.encode()
        # both keys got the list; it still is the caller's
        ops.append(B.op_class(c['ops'][0][0] if c['ops'] else 1))
        ops.reverse()
        eq(list(b.key_ops), want, 'the operations of a key after the caller changed its list')
        attempt(lambda: a.key_ops.append(B.op_class(9)))
        eq(list(b.key_ops), want, 'the operations of a key after changing those of another key')
        eq(b.encode(), enc1, 'the encoding of the key')
        eq(list(B.key(spec, True).key_ops), [], 'the operations of a new key')
    elif t == 'generate':
        opt = inp.add('optional parameters', params(c))
        if c['kt'] == 'sym':
            make1 = lambda: B.SymmetricKey.generate_key(16, opt)
        elif c['kt'] == 'rsa':
            if not c['s'] or c['deep']:
                return      # expensive
            make1 = lambda: B.RSAKey.generate_key(1024, opt)
        else:
            make1 = lambda: (B.EC2Key if c['crv'].startswith('P') else B.OKPKey).generate_key(c['crv'], opt)
        results = [attempt(make1), attempt(make1)]
        inp.check('after generating keys')
        keys2(results, c)
    elif t == 'pem':
        opt = inp.add('optional parameters', params(c))
        pem = pems()[c['kt'] if c['kt'] != 'sym' else 'ec'][c['s'] % 2]
        fn = B.CoseKey.from_pem_public_key if c['s'] % 2 else B.CoseKey.from_pem_private_key
        results = [attempt(fn, pem, optional_params=opt), attempt(fn, pem, optional_params=opt)]
        inp.check('after loading keys')
        keys2(results, c)
    elif t == 'dict':
        m = {**B.wire_key(spec, True), **{k: v for k, v in c['p'].items() if isinstance(k, str) or k > 1 or k < -60000}}
        if 4 in m:
            m[4] = [o for o, _ in c['ops']]
        d = inp.add('dictionary', B.spell_key_map(copy.deepcopy(m), c['s'], c['s']))
        results = [B.CoseKey.from_dict(d), B.CoseKey.from_dict(d)]
        inp.check('after building keys')
        for k in results:
            eq(B.key_map(k), {k: v for k, v in m.items() if k != 4 or v}, 'a key')
        inp.check('after encoding keys')
        keys2(results, c)
    elif t == 'verify':
        k = B.key(spec, True)
        k.key_ops = [o for o, _ in c['ops']]
        ops = inp.add('list of operations', [B.op_class(o) for o, _ in c['ops']][::-1])
        state = B.frozen(k)
        for _ in range(2):
            attempt(k.verify, type(k), B.alg_class(1), ops)
            inp.check('after verify()')
            eq(B.frozen(k), state, 'the key after verify()')
    elif t == 'hdr':
        cls = all_layers()[c['cls'] % len(all_layers())]
        h = {(B.hdr_class(k) if isinstance(k, int) and k in algs.HEADERS and c['s'] else k): v for k, v in copy.deepcopy(c['h']).items()}
        inp.add('header', h)
        how = c['how']
        objs = []
        for _ in range(2):
            if how < 2:
                o = attempt(cls, **{('phdr', 'uhdr')[how]: h})
                if isinstance(o, Raised):
                    inp.check('after it was refused')
                    return
            else:
                o = cls()
                if how < 4:
                    setattr(o, ('phdr', 'uhdr')[how - 2], h)
                else:
                    (o.phdr_update, o.uhdr_update)[how - 4](h)
            inp.check('after handing it over')
            objs.append(o)
        a, b = objs
        before = [B.frozen(b.phdr), B.frozen(b.uhdr), attempt(lambda: b.phdr_encoded)]
        (a.phdr if how % 2 == 0 else a.uhdr)['more'] = [1]
        (a.phdr_update if how % 2 == 0 else a.uhdr_update)({'even more': {}})
        if how in (2, 3):
            # a replaced header is the message's own
            scramble(a.phdr)
            scramble(a.uhdr)
        inp.check('after changing a message')
        if how in (2, 3):
            scramble(h)
        else:
            h.clear()
            h['x'] = 1
        eq([B.frozen(b.phdr), B.frozen(b.uhdr), attempt(lambda: b.phdr_encoded)], before, 'the headers of another message')
        fresh = cls()
        eq([B.frozen(fresh.phdr), B.frozen(fresh.uhdr)], [B.frozen({}), B.frozen({})], 'the headers of a new message')
    elif t == 'keyhdr':
        # a key as header value: a message has its own, whichever way it got it
        cls = all_layers()[c['cls'] % len(all_layers())]
        own = B.key(spec, True)
        own.kid = b'first'
        inp.add('key', own)

        def with_key(how):
            lab = B.hdr_class(c['lab'])
            if how < 2:
                return cls(**{('phdr', 'uhdr')[how]: {(lab, c['lab'], lab.fullname)[c['s']]: own}})
            o = cls()
            setattr(o, ('phdr', 'uhdr')[how - 2], {lab: own})
            return o

        def seen(o, how):
            k = (o.phdr, o.uhdr)[how % 2][B.hdr_class(c['lab'])]
            return [B.key_map(k), k.encode(), attempt(lambda: o.phdr_encoded)]

        a, b = with_key(c['how']), with_key(c['other'])
        inp.check('after handing it over')
        before = seen(a, c['how']), seen(b, c['other'])

        def edit(k, e):
            if e == 0:
                k.kid = b'second'
            elif e == 1:
                k['label'] = [1]
            elif e == 2:
                attempt(k.__delitem__, 'KID')
            elif e == 3:
                k.base_iv = b'iv'
            elif e == 4:
                k.alg = B.alg_class(-7)
            else:
                k[-70001] = b'v'
        for e in c['edits']:
            edit((a.phdr, a.uhdr)[c['how'] % 2][B.hdr_class(c['lab'])], e)
        inp.check('after changing the key in the header of a message')
        eq(seen(b, c['other']), before[1], 'the key in the header of another message')
        b2 = with_key(c['other'])
        for e in c['edits']:
            edit(own, e)
        eq(seen(b, c['other']), before[1], 'the key in the header after its owner changed the key')
        eq(seen(b2, c['other']), before[1], 'the key in the header after its owner changed the key')
    elif t == 'local':
        cls = all_layers()[c['deep'] % 3 + 7]
        d = inp.add('local attributes', {(H.SuppPubOther, H.SuppPrivOther, H.StaticKey)[i]: v for i, v in enumerate(c['h'])})
        a, b = cls(), cls()
        a.local_attrs = d
        b.local_attrs = d
        inp.check('after setting them')
        state = B.frozen(dict(b.local_attrs))
        a.local_attrs = {H.SuppPubOther: b'other', 'zz': 1}
        a.local_attrs['yy'] = 2
        d['xx'] = 1
        eq(B.frozen(dict(b.local_attrs)), state, 'the local attributes of another recipient')
        eq(dict(cls().local_attrs), {}, 'the local attributes of a new recipient')
    elif t == 'x5':
        x = B.pycose.extensions.x509
        certs = inp.add('list of certificates', list(c['h']))
        if not certs:
            return
        objs = [x.X5Bag(certs), x.X5Chain(certs), x.X5Bag(certs), x.X5Chain(certs)]
        want = c['h'][0] if len(c['h']) == 1 else c['h']
        for o in objs * 2:
            eq(o.encode(), want, 'encoding of %s' % type(o).__name__)
            inp.check('after use in %s' % type(o).__name__)
        item = inp.add('thumbprint item', [-16, b'thumb'])
        for _ in range(2):
            o = x.X5T.decode(item)
            eq(o.encode(), [B.alg_class(-16), b'thumb'], 'X5T')
            inp.check('after decoding it')
            attempt(o.matches, b'cert')
    elif t == 'rules':
        rc = B.pycose.messages.recipient
        pool = [rc.DirectEncryption, rc.KeyWrap, rc.DirectKeyAgreement, rc.KeyAgreementWithKeyWrap]
        algn = [-6, -3, -25, -29]
        rs = [pool[i % 4](uhdr={H.Algorithm: B.alg_class(algn[i % 4])}) for i in c['rs']]
        lst = inp.add('list of recipients', rs)
        was = list(rs)
        outs = []
        for _ in range(2):
            outs.append([repr(attempt(rc.CoseRecipient.verify_recipients, lst))[:80],
                         [attempt(rc.CoseRecipient.has_recipient, p, lst) is True for p in pool]])
            expect(len(lst) == len(was) and all(x is y for x, y in zip(lst, was)), 'the list of recipients changed')
        eq(outs[1][1], outs[0][1], 'has_recipient() repeated')
        eq(outs[1][0].split('0x')[0], outs[0][0].split('0x')[0], 'verify_recipients() repeated')
        ms = [cls(recipients=lst) for cls in (B.EncMessage, B.EncMessage, B.MacMessage)]
        expect(len(lst) == len(was) and all(x is y for x, y in zip(lst, was)), 'the list of recipients changed')
        new = [rc.KeyWrap(uhdr={H.Algorithm: B.alg_class(-3)})]
        for _ in range(2):
            ms[0].recipients = new
            expect(len(new) == 1, 'the list of new recipients changed')
            expect(len(lst) == len(was) and all(x is y for x, y in zip(lst, was)), 'the list of recipients changed')
            for m in ms[1:]:
                expect(len(m.recipients) == len(was) and all(x is y for x, y in zip(m.recipients, was)),
                       'the recipients of another message changed')
            expect(len(ms[0].recipients) == 1 and ms[0].recipients[0] is new[0], 'the recipients are not the assigned ones')
        for cls in (B.EncMessage, B.MacMessage):
            eq(len(cls().recipients), 0, 'the recipients of a new message')
    else:
        ctx = B.pycose.messages.context
        prot = inp.add('protected header', {H.Algorithm: B.alg_class(-25), 'zz': [1]})
        mk = lambda: ctx.CoseKDFContext(B.alg_class(1), ctx.SuppPubInfo(16, prot))
        a, b = attempt(mk), attempt(mk)
        if isinstance(a, Raised):
            return
        e1 = b.encode()
        a.encode()
        inp.check('after encoding contexts')
        a.supp_pub_info.other = b'o'
        a.party_u_info.nonce = b'n'
        a.party_v_info.identity = b'i'
        a.supp_priv_info = b'p'
        a.encode()
        inp.check('after changing a context')
        eq(b.encode(), e1, 'the encoding of another context')
    rec.nt()
    rec.label(t)


def keys2(results, c):
    """Two keys made by equal calls: changing one leaves the other one alone."""
    a, b = results
    if isinstance(a, Raised) or isinstance(b, Raised):
        expect(isinstance(a, Raised) and isinstance(b, Raised), 'the same call with different outcomes: %s, %s', a, b)
        return
    state = B.frozen(b)
    for o in range(7):
        attempt(edit_key, a, o, b'edit')
        eq(B.frozen(b), state, 'another key after changing one')
    attempt(lambda: a.key_ops.append(B.op_class(9)))
    eq([x.identifier for x in b.key_ops], [x.identifier for x in B.CoseKey.decode(b.encode()).key_ops], 'operations of another key')


_PEMS = {}


def pems():
    if not _PEMS:
        from cryptography.hazmat.primitives import serialization as ser
        from cryptography.hazmat.primitives.asymmetric import ec, ed25519
        rsa = fix.RSA[SPECS['rsa']['i']]
        from cryptography.hazmat.primitives.asymmetric import rsa as R2
        for n, k in (('ec', ec.derive_private_key(77, ec.SECP256R1())), ('okp', ed25519.Ed25519PrivateKey.from_private_bytes(b'd' * 32)),
                     ('rsa', R2.RSAPrivateNumbers(rsa['p'], rsa['q'], rsa['d'], rsa['dp'], rsa['dq'], rsa['qinv'],
                                                  R2.RSAPublicNumbers(rsa['e'], rsa['n'])).private_key())):
            _PEMS[n] = (k.private_bytes(ser.Encoding.PEM, ser.PrivateFormat.PKCS8, ser.NoEncryption()).decode(),
                        k.public_key().public_bytes(ser.Encoding.PEM, ser.PublicFormat.SubjectPublicKeyInfo).decode())
    return _PEMS

# ------------------------------------------------------------------------------------------- what is made without arguments


def bare_objects():
    """Everything that can be constructed with defaults, as [name, object]."""
    out = [[c.__name__, c()] for c in all_layers()]
    out += [[c.__name__ + ' with payload', c(payload=b'p')] for c in all_layers() if c is not B.CoseSignature]
    for kt, spec in sorted(SPECS.items()):
        for priv in (True, False):
            out.append(['%s key' % kt, B.key(spec, priv or kt == 'sym')])
        out.append(['%s key from a dict' % kt, B.CoseKey.from_dict(B.wire_key(spec))])
    k = fix.RSA[SPECS['rsa']['i']]
    out.append(['RSA key with defaults', B.RSAKey(n=B.i2b(k['n']), e=B.i2b(k['e']))])
    ctx = B.pycose.messages.context
    out.append(['context', ctx.CoseKDFContext(B.alg_class(1), ctx.SuppPubInfo(16))])
    out.append(['party', ctx.PartyInfo()])
    out.append(['public info', ctx.SuppPubInfo(16)])
    return out


def view(o, depth=0):
    """What is reachable from an object through its public attributes."""
    if isinstance(o, B.CoseKey):
        d = [['store', B.frozen(dict(o))]]
        names = ['key_ops', 'kid', 'base_iv', 'alg', 'other']
    else:
        d = []
        names = ['phdr', 'uhdr', 'local_attrs', 'recipients', 'signers', 'payload', 'external_aad', 'key', 'party_u_info', 'party_v_info',
                 'supp_pub_info', 'supp_priv_info', 'identity', 'nonce', 'other', 'protected', 'key_data_length']
    for n in names:
        v = attempt(getattr, o, n, None)
        if isinstance(v, Raised):
            v = repr(v)
        d.append([n, view(v, depth + 1) if type(v).__module__.startswith('pycose') and not isinstance(v, type) and depth < 3
                  else B.frozen(v)])
    return d


def spoil(o, how, depth=0):
    """Change in place whatever container the public attributes of an object give out."""
    for n in ('key_ops', 'other') if isinstance(o, B.CoseKey) else (
            'phdr', 'uhdr', 'local_attrs', 'recipients', 'signers', 'party_u_info', 'party_v_info', 'supp_pub_info', 'protected'):
        v = attempt(getattr, o, n, None)
        if isinstance(v, list):
            attempt(v.append, ['spoiled', B.op_class(1), None][how % 3])
        elif isinstance(v, dict):
            attempt(v.__setitem__, ['spoiled', H.KID, H.Algorithm][how % 3], b'spoiled')
        elif hasattr(v, '__dict__') and depth < 2 and not isinstance(v, (type, Raised)):
            for f in ('identity', 'nonce', 'other'):
                if hasattr(v, f):
                    attempt(setattr, v, f, b'spoiled')
            spoil(v, how, depth + 1)
    if isinstance(o, B.CoseKey):
        o['spoiled'] = how
        attempt(edit_key, o, how % 7, b'spoiled')
    elif hasattr(o, 'supp_priv_info'):
        o.supp_priv_info = b'spoiled'


def defaults():
    return st.fixed_dictionaries({'who': st.lists(st.integers(0, 63), min_size=1, max_size=8), 'how': st.integers(0, 41), 'n': noises})


def run_defaults(case):
    want = [[n, strip(view(o))] for n, o in bare_objects()]
    kept = bare_objects()
    objs = bare_objects()
    for w in case['who']:
        spoil(objs[w % len(objs)][1], case['how'])
    for n in case['n']:
        noise(n)
    for when, got in (('made earlier', kept), ('made later', bare_objects())):
        for (name, w), (_, o) in zip(want, got):
            eq(strip(view(o)), w, 'a %s %s, after changing others in place' % (name, when))


def check_defaults(case, rec):
    forked.run(run_defaults, case)
    rec.nt()
    rec.label('changed %d' % len(set(case['who'])))

# ------------------------------------------------------------------------------------------- decoding the same bytes again


@st.composite
def decoded(draw):
    c = draw(any_message())
    add = draw(st.lists(st.tuples(st.booleans(), st.sampled_from([40, 'list', 'map', -70001, 99]), nested), max_size=3))
    return {'c': c, 'add': [list(x) for x in add], 'which': draw(st.integers(0, 7)), 'n': draw(noises), 'how': draw(st.integers(0, 1))}


def check_decoded(case, rec):
    c = copy.deepcopy(case['c'])
    lays = [c['h']] + [s['h'] for s in c.get('signers', [])] + [r['h'] for r in c.get('rcpts', [])]
    for prot, lab, v in case['add']:
        h = lays[case['which'] % len(lays)]
        if prot and h is not c['h'] and c.get('rcpts') and not h['p']:
            prot = False
        if all(lab != x[0] for x in h['p'] + h['u']):
            h['p' if prot else 'u'].append([lab, v])
    ref = attempt(M.ref_message, c)
    data = M.encode(c, M.build(c)) if isinstance(ref, Raised) or randomised(c) else enc(ref)
    objs = [M.receive(c, data, case['how']) for _ in range(3)]
    states = [received_state(o) for o in objs]
    plain = [strip(without_ids(s)) for s in states]
    eq(plain[1], plain[0], 'the same bytes decoded again')
    for t in layers(objs[0]):
        scramble(t.phdr)
        scramble(t.uhdr)
        attempt(t.phdr_update, {'scrambled': [1]})
        t.local_attrs = {'scrambled': 1}
    for x in ('recipients', 'signers'):
        if hasattr(objs[0], x):
            attempt(getattr(objs[0], x).append, None)
    for n in case['n']:
        noise(n)
    eq(received_state(objs[1]), states[1], 'another message decoded from the same bytes')
    later = M.receive(c, data, case['how'])
    eq(strip(without_ids(received_state(later))), plain[0], 'the same bytes decoded later')
    for o in (objs[1], later):
        M.check_received(c, o)
        open_message(c, o, M.arm(c, o))
    rec.nt()
    rec.label(c['k'])


def without_ids(s):
    return [s[0]] + [without_ids(x) if isinstance(x, list) and len(x) > 1 and isinstance(x[0], str) else x for x in s[2:]]

# ------------------------------------------------------------------------------------------- threads


@st.composite
def schedule(draw):
    actors = [draw(actor()) for _ in range(draw(st.integers(2, 3)))]
    if draw(st.integers(0, 2)) == 0:
        actors[1] = copy.deepcopy(actors[0])
    return {'a': actors, 'gaps': draw(st.lists(st.one_of(st.integers(1, 12), st.integers(1, 120)), min_size=1, max_size=4))}


def threads(case):
    return sched.run([lambda s=s: alone(s) for s in case['a']], case['gaps'])


def check_schedule(case, rec):
    outs, switches = forked.run(threads, case)
    for i, s in enumerate(case['a']):
        want = forked.run(alone, s)
        for j, (g, w) in enumerate(zip(outs[i], want)):
            what = 'creation' if j == 0 else 'operation %d (%s)' % (j, s['ops'][j - 1][0])
            eq(g, w, 'object %d (%s), %s, while other threads use other objects' % (i, s['t'], what))
        eq(len(outs[i]), len(want), 'number of outcomes')
    if switches > 1:
        rec.nt()
    rec.label('%d threads' % len(case['a']))
    rec.label('switches: %s' % ('0' if not switches else '1-9' if switches < 10 else '10-99' if switches < 100 else '100 or more'))

# ------------------------------------------------------------------------------------------- failures


def failing():
    return st.fixed_dictionaries({'c': any_message(), 'at': st.lists(st.integers(0, 999), min_size=1, max_size=4),
                                  'rat': st.lists(st.integers(0, 999), min_size=1, max_size=3), 'how': st.integers(0, 1)})


def check_failing(case, rec):
    """What a library call that failed half-way left behind does not show later."""
    c = case['c']
    first, calls = faults.run(lambda: M.encode(c, M.build(c)))
    expect(not isinstance(first, Exception), 'no fault was injected, but: %r', first)
    msg = M.build(c)
    before = sender_state(c, msg)
    hit = 0
    for at in case['at']:
        out, _ = faults.run(lambda: M.encode(c, msg), at % calls)
        hit += isinstance(out, faults.Fault)
        eq(sender_state(c, msg), before, 'the message after encoding it failed')
    data = M.encode(c, msg)
    if not randomised(c):
        eq(data, first, 'the encoding after failures')
    eq(sender_state(c, msg), before, 'the message after encoding it')
    if hit:
        rec.nt()
        rec.label('encoding failed')

    def op():
        got = M.receive(c, data, case['how'])
        M.check_received(c, got)
        return got
    got, calls = faults.run(op)
    for at in case['rat'][:1]:
        out, _ = faults.run(op, at % calls)
        rec.label('decoding failed' if isinstance(out, faults.Fault) else 'decoded')
    got = op()
    obj = M.arm(c, got)
    state = received_state(got)
    for at in case['rat']:
        out, n = faults.run(lambda: attempt_result(got, c, obj), at % 12)
        rec.label('opening failed' if isinstance(out, faults.Fault) else 'opened')
        if isinstance(out, faults.Fault) and c['k'] != 'sign':
            rec.nt()
        eq(received_state(got), state, 'the received message after opening it failed')
    open_message(c, got, obj)
    eq(received_state(got), state, 'the received message after opening it')
    rec.label(c['k'])


FACETS = [
    Facet('repeat', repeat_case(None), check_repeat, 1600, shards=8),
    Facet('inputs', shared, check_shared, 1600, shards=8),
    Facet('keys', keys, check_keys, 1000),
    Facet('calls', call, check_call, 2400),
    Facet('defaults', defaults, check_defaults, 240),
    Facet('decoded', decoded, check_decoded, 1000),
    Facet('interleave', interleaving, check_interleave, 900, shards=8),
    Facet('failing', failing, check_failing, 1200, shards=6),
    Facet('schedules', schedule, check_schedule, 700, shards=8),
]
