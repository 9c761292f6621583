"""Message cases: strategies, senders and receivers built on the code under test, and the reference implementation."""
import copy

import hypothesis.strategies as st

import algs
import build as B
import fix
import gen as G
import refcbor
import refcose as R
from build import CoseMessage
from core import attempt, eq, expect, fail, is_true, Raised, refused, same, short
from refcbor import Tag, enc

H = B.pycose.headers
CLASS = {'sign1': B.Sign1Message, 'sign': B.SignMessage, 'mac0': B.Mac0Message, 'mac': B.MacMessage,
         'enc0': B.Enc0Message, 'enc': B.EncMessage}
TAG = {'sign1': 18, 'sign': 98, 'mac0': 17, 'mac': 97, 'enc0': 16, 'enc': 96}
CTX = {'enc0': 'Encrypt0', 'enc': 'Encrypt', 'mac0': 'MAC0', 'mac': 'MAC'}

# ------------------------------------------------------------------------------------------- strategies

SIGN_LEGAL = [1, 2, 7, 8]
SYM_LEGAL = [3, 4, 5, 6, 9, 10]


@st.composite
def signer(draw, alg=None, layer_kw=None):
    a = alg or draw(G.sign_alg)
    return {'alg': a, 'key': draw(G.sign_key(a)), 'kf': draw(G.key_form), 'vf': draw(G.key_form),
            'kp': draw(G.restriction(a, G.OPS_SIGN, SIGN_LEGAL)), 'vp': draw(G.restriction(a, G.OPS_VERIFY, SIGN_LEGAL)),
            'vpriv': draw(st.integers(0, 4)) == 0, 'aad': draw(G.aad), 'h': draw(G.layer(a, **(layer_kw or {})))}


@st.composite
def sign1(draw, alg=None, **layer_kw):
    c = draw(signer(alg, layer_kw))
    c.update({'k': 'sign1', 'payload': draw(G.blob()), 'det': draw(st.integers(0, 3)) == 0})
    return c


@st.composite
def sign(draw, max_signers=3, **layer_kw):
    n = draw(st.integers(1, max_signers))
    same_alg = draw(st.integers(0, 3)) == 0
    a = draw(G.sign_alg) if same_alg else None
    ss = [draw(signer(a, layer_kw)) for _ in range(n)]
    if n > 1 and draw(st.integers(0, 5)) == 0:
        # the same signer key twice
        ss[1]['alg'], ss[1]['key'] = ss[0]['alg'], ss[0]['key']
        ss[1].update({'h': dict(ss[0]['h']), 'kp': {}, 'vp': {}})
    body_alg = draw(st.sampled_from([None, None, -7, -8]))
    c = {'k': 'sign', 'h': draw(G.layer(body_alg, **(layer_kw or {}))), 'payload': draw(G.blob()),
         'det': draw(st.integers(0, 3)) == 0, 'signers': ss}
    if draw(st.integers(0, 3)) == 0:
        # external data of the message object itself, at the sender and at the receiver: each signer has its own
        c['baad'] = draw(st.tuples(G.small, G.small))
    return c


def iv_part(alg):
    """How the nonce is conveyed: an IV, or a base IV in the key and a partial IV in the message."""
    n = algs.ENC[alg][4]

    @st.composite
    def s(draw):
        if draw(st.integers(0, 3)):
            return {'iv': draw(G.nonce(alg))}
        base = draw(st.one_of(G.exact(n), G.exact(n - 2).map(lambda b: b'\0\0' + b), G.exact(n - 1).map(lambda b: b + b'\0')))
        m = draw(st.integers(0, n))
        part = draw(st.one_of(G.exact(m), st.just(base[n - m:]), st.just(b'\0' * m)))
        return {'base': base, 'part': part}
    return s()


def nonce_of(c):
    if 'iv' in c:
        return c['iv']
    n = len(c['base'])
    return R._xor(c['base'], b'\0' * (n - len(c['part'])) + c['part'])


def iv_need(ivp):
    return [[5, ivp['iv']]] if 'iv' in ivp else [[6, ivp['part']]]


@st.composite
def mac0(draw, alg=None, **layer_kw):
    a = alg or draw(G.mac_alg)
    return {'k': 'mac0', 'alg': a, 'key': draw(G.mac_key(a)), 'kf': draw(G.key_form), 'vf': draw(G.key_form),
            'kp': draw(G.restriction(a, G.OPS_MACC, SYM_LEGAL)), 'vp': draw(G.restriction(a, G.OPS_MACV, SYM_LEGAL)),
            'payload': draw(G.blob()), 'aad': draw(G.aad), 'h': draw(G.layer(a, **layer_kw))}


@st.composite
def enc0(draw, alg=None, **layer_kw):
    a = alg or draw(G.enc_alg)
    ivp = draw(iv_part(a))
    kp, vp = draw(G.restriction(a, G.OPS_ENC, SYM_LEGAL)), draw(G.restriction(a, G.OPS_DEC, SYM_LEGAL))
    if 'base' in ivp:
        kp[5] = vp[5] = ivp['base']
    elif draw(st.integers(0, 5)) == 0:
        kp[5] = draw(G.small)       # a base IV which is not used
    hi = 60000 if algs.ENC[a][4] == 13 or algs.ENC[a][1] == 'ccm' else 70000
    c = {'k': 'enc0', 'alg': a, 'key': draw(G.enc_key(a)), 'kf': draw(G.key_form), 'vf': draw(G.key_form), 'kp': kp,
         'vp': vp, 'payload': draw(G.blob(0, hi)), 'aad': draw(G.aad),
         'h': draw(G.layer(a, need=iv_need(ivp), avoid=(5, 6), **layer_kw))}
    c.update(ivp)
    return c


# recipients

PARTY = [-21, -22, -23, -24, -25, -26]


@st.composite
def ec_pair(draw, curves=G.ALL_EC):
    """Two scalars on one curve: receiver and sender."""
    crv = draw(st.sampled_from(curves + ['P_256']))
    if draw(st.integers(0, 3)) == 0:
        a, b = draw(st.sampled_from(fix.EC_PAIRS[crv]))
    else:
        a, b = draw(G.ec_scalar(crv)), draw(G.ec_scalar(crv))
    return G.ec_spec(crv, a), G.ec_spec(crv, b)


@st.composite
def ecdh_recipient(draw, alg):
    name, es, _, kw = algs.ECDH[alg]
    rk, sk = draw(ec_pair())
    need = []
    for lab in PARTY:
        if draw(st.integers(0, 5)) == 0:
            # a nonce may be an integer
            need.append([lab, draw(st.one_of(G.blob(0, 40), G.ints) if lab in (-22, -25) else G.blob(0, 40))])
    if draw(st.integers(0, 2)) == 0:
        need.append([-20, draw(G.blob(0, 70))])
    gen = es and draw(st.integers(0, 2)) == 0
    avoid = tuple(PARTY) + (-20, -1, -2)
    sform = draw(G.key_form)
    if not gen:
        need.append([-1 if es else -2, {'key': sk}])
    r = {'t': 'kakw' if kw else 'dka', 'alg': alg, 'rk': rk, 'sk': sk, 'gen': gen, 'kf': sform, 'vf': draw(G.key_form),
         'h': draw(G.layer(alg, need=need, avoid=avoid, keys=False)),
         'rp': draw(G.restriction(alg, G.OPS_DERIVE, SIGN_LEGAL)), 'pp': draw(G.restriction(alg, G.OPS_DERIVE, SIGN_LEGAL)),
         'sp': draw(G.restriction(alg, G.OPS_DERIVE, SIGN_LEGAL))}
    if draw(st.integers(0, 3)) == 0:
        r['pub'] = draw(G.blob(0, 40))
    if draw(st.integers(0, 3)) == 0:
        r['priv'] = draw(G.blob(0, 40))
    return r


@st.composite
def wrap_recipient(draw, kinds=('kw', 'kw', 'oaep', 'kakw', 'kakw')):
    k = draw(st.sampled_from(list(kinds)))
    if k == 'kakw':
        return draw(ecdh_recipient(draw(st.sampled_from(algs.KAKW))))
    if k == 'kw':
        alg = draw(st.sampled_from(sorted(algs.KW)))
        key = draw(G.sym_key([algs.KW[alg][1]]))
        fit1, fit2, legal = G.OPS_WRAP, G.OPS_UNWRAP, SYM_LEGAL
    else:
        alg = draw(st.sampled_from(sorted(algs.OAEP)))
        key = draw(G.rsa_key([i for i in fix.rsa_fits(alg) if fix.RSA_BITS[i] < 2050]))
        fit1, fit2, legal = G.OPS_WRAP, G.OPS_UNWRAP, None
    return {'t': k, 'alg': alg, 'key': key, 'kf': draw(G.key_form), 'vf': draw(G.key_form),
            'kp': draw(G.restriction(alg, fit1, legal)), 'vp': draw(G.restriction(alg, fit2, legal)),
            'h': draw(G.layer(alg, empty_p=True))}


@st.composite
def direct_recipient(draw):
    return {'t': 'direct', 'alg': -6, 'h': draw(G.layer(-6, empty_p=True))}


@st.composite
def recipients(draw, modes=('direct', 'dka', 'wrap', 'wrap')):
    m = draw(st.sampled_from(list(modes)))
    if m == 'direct':
        return [draw(direct_recipient()) for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
    if m == 'dka':
        return [draw(ecdh_recipient(draw(st.sampled_from(algs.DKA))))]
    return [draw(wrap_recipient()) for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4])))]


@st.composite
def with_recipients(draw, c, keylen, modes):
    c['rcpts'] = draw(recipients(modes))
    c['who'] = draw(st.integers(0, len(c['rcpts']) - 1))
    if c['rcpts'][0]['t'] not in ('direct', 'dka') and draw(st.integers(0, 2)) == 0:
        c['cek'] = draw(G.exact(keylen))
        c['cekat'] = sorted(set(draw(st.lists(st.integers(0, len(c['rcpts']) - 1), min_size=1, max_size=2))))
    return c


@st.composite
def encm(draw, alg=None, modes=('direct', 'dka', 'wrap', 'wrap'), **layer_kw):
    a = alg or draw(G.enc_alg)
    c = draw(with_recipients({}, algs.ENC[a][2], modes))
    direct = c['rcpts'][0]['t'] == 'direct'
    ivp = draw(iv_part(a)) if direct else {'iv': draw(G.nonce(a))}
    c.update({'k': 'enc', 'alg': a, 'payload': draw(G.blob(0, 60000)), 'aad': draw(G.aad),
              'h': draw(G.layer(a, need=iv_need(ivp), avoid=(5, 6), **layer_kw))})
    c.update(ivp)
    if direct:
        c.update({'key': draw(G.enc_key(a)), 'kf': draw(G.key_form), 'vf': draw(G.key_form),
                  'kp': draw(G.restriction(a, G.OPS_ENC, SYM_LEGAL)), 'vp': draw(G.restriction(a, G.OPS_DEC, SYM_LEGAL))})
        if 'base' in c:
            c['kp'][5] = c['vp'][5] = c['base']
    return c


@st.composite
def macm(draw, alg=None, modes=('direct', 'dka', 'wrap', 'wrap'), **layer_kw):
    a = alg or draw(st.sampled_from(algs.MAC_DELIVERABLE + [5]))
    c = draw(with_recipients({}, algs.MAC[a][3], modes))
    if c['rcpts'][0]['t'] == 'direct' and alg is None:
        a = draw(G.mac_alg)
    c.update({'k': 'mac', 'alg': a, 'payload': draw(G.blob()), 'aad': draw(G.aad), 'h': draw(G.layer(a, **layer_kw))})
    if c['rcpts'][0]['t'] == 'direct':
        c.update({'key': draw(G.mac_key(a)), 'kf': draw(G.key_form), 'vf': draw(G.key_form),
                  'kp': draw(G.restriction(a, G.OPS_MACC, SYM_LEGAL)),
                  'vp': draw(G.restriction(a, G.OPS_MACV, SYM_LEGAL))})
    return c


@st.composite
def sharing(draw, kind):
    """Messages of which several parts may have the same key, which is then one object."""
    c = draw(kind)
    parts = c.get('signers') or c.get('rcpts') or []
    if draw(st.integers(0, 3)) == 0:
        c['share'] = True
        if len(parts) > 1 and parts[0].get('t') not in ('direct', 'dka'):
            i = draw(st.integers(0, len(parts) - 1))
            for j in draw(st.lists(st.integers(0, len(parts) - 1), min_size=1, max_size=2)):
                keep = {n: parts[j][n] for n in ('aad', 'vf', 'vpriv') if n in parts[j] and j % 2 == 0 or n == 'aad' and n in parts[j]}
                parts[j] = {**copy.deepcopy(parts[i]), **keep}
    return c


# ------------------------------------------------------------------------------------------- the code under test, sending

def build_recipient(r):
    kw = B.hdrs(r['h'])
    cls = {'direct': 'DirectEncryption', 'kw': 'KeyWrap', 'oaep': 'KeyWrap', 'dka': 'DirectKeyAgreement',
           'kakw': 'KeyAgreementWithKeyWrap'}[r['t']]
    obj = getattr(B.pycose.messages.recipient, cls)(**kw)
    if r['t'] in ('kw', 'oaep'):
        obj.key = B.key(r['key'], r['t'] == 'kw' or r['kf'] == 9, r.get('kp'), r['kf'])
    elif r['t'] in ('dka', 'kakw'):
        if not r['gen']:
            obj.key = B.key(r['sk'], True, r.get('sp'), r['kf'])
        attrs = {H.StaticKey: B.key(r['rk'], False, r.get('pp'), r['vf'])}
        attrs.update(local_info(r))
        obj.local_attrs = attrs
    return obj


def local_info(r):
    a = {}
    if 'pub' in r:
        a[H.SuppPubOther] = r['pub']
    if 'priv' in r:
        a[H.SuppPrivOther] = r['priv']
    return a


def build(c):
    """The sender's message object."""
    with B.sharing(c.get('share')):
        return _build(c)


def _build(c):
    k = c['k']
    kw = B.hdrs(c['h'])
    if k != 'sign':
        kw['external_aad'] = c['aad']
    if not (k in ('sign1', 'sign') and c['det']):
        kw['payload'] = c['payload']
    if 'key' in c:
        kw['key'] = B.key(c['key'], True, c['kp'], c['kf'])
    if k == 'sign':
        kw['signers'] = [build_signer(s) for s in c['signers']]
    if k in ('enc', 'mac'):
        kw['recipients'] = [build_recipient(r) for r in c['rcpts']]
        for i in c.get('cekat', []):
            kw['recipients'][i].payload = c['cek']
    msg = CLASS[k](**kw)
    if 'baad' in c:
        msg.external_aad = c['baad'][0]
    return msg


def build_signer(s):
    return B.CoseSignature(external_aad=s['aad'], key=B.key(s['key'], True, s['kp'], s['kf']), **B.hdrs(s['h']))


def encode(c, msg, **kw):
    if c['k'] in ('sign1', 'sign') and c['det']:
        kw['detached_payload'] = c['payload']
    return msg.encode(**kw)


def send(c):
    msg = build(c)
    return encode(c, msg)

# ------------------------------------------------------------------------------------------- the code under test, receiving


def receiver_key(r):
    """What the recipient uses: key object for recipient.key."""
    if r['t'] in ('kw', 'oaep'):
        return B.key(r['key'], True, r.get('vp'), r['vf'])
    return B.key(r['rk'], True, r.get('rp'), r['kf'])


def arm(c, msg, who=None):
    """Give a received message what its receiver knows. Returns the recipient object, if any."""
    with B.sharing(c.get('share')):
        return _arm(c, msg, who)


def _arm(c, msg, who):
    if c['k'] != 'sign':
        msg.external_aad = c['aad']
    elif 'baad' in c:
        msg.external_aad = c['baad'][1]
    if c['k'] == 'sign1':
        msg.key = B.key(c['key'], c['vpriv'], c['vp'], c['vf'])
    elif c['k'] == 'sign':
        for s, obj in zip(c['signers'], msg.signers):
            obj.external_aad = s['aad']
            obj.key = B.key(s['key'], s['vpriv'], s['vp'], s['vf'])
    elif 'key' in c:
        msg.key = B.key(c['key'], True, c['vp'], c['vf'])
    if c['k'] in ('enc', 'mac') and c['rcpts']:
        i = c['who'] if who is None else who
        r, obj = c['rcpts'][i], msg.recipients[i]
        if r['t'] != 'direct':
            obj.key = receiver_key(r)
            info = local_info(r)
            if info:
                obj.local_attrs = info
            if c['k'] == 'mac':
                msg.key = obj.compute_cek(msg.get_attr(H.Algorithm), 'decrypt')
        return obj


def det(c):
    return {'detached_payload': c['payload']} if c['det'] else {}


def verify_all(c, msg):
    """Verify / decrypt a received and armed message; raises Violation when the outcome is not the right one."""
    k = c['k']
    if k == 'sign1':
        is_true('verify_signature', msg.verify_signature(**det(c)))
    elif k == 'sign':
        for i, s in enumerate(msg.signers):
            is_true('verify_signature of signer %d' % i, s.verify_signature(**det(c)))
    elif k in ('mac0', 'mac'):
        is_true('verify_tag', msg.verify_tag())
    elif k == 'enc0':
        eq(msg.decrypt(), c['payload'], 'plaintext')


def receive(c, encoded, how=0, **kw):
    """decode() through the generic class, the specific class, or a message object's class."""
    cls = (CoseMessage, CLASS[c['k']])[how % 2]
    msg = cls.decode(encoded, **kw)
    expect(type(msg) is CLASS[c['k']], 'decoded as %s', type(msg).__name__)
    return msg


def with_gen(r, uhdr):
    """The recipient's header entries once a generated ephemeral key is in the unprotected bucket."""
    return r['h']


def check_received(c, msg):
    """The headers, payload and structure of a received message are the ones sent."""
    B.check_headers(msg, c['h'], 'body')
    if c['k'] == 'sign1' or c['k'] == 'sign':
        eq(msg.payload, None if c['det'] else c['payload'], 'payload')
    elif c['k'] in ('mac0', 'mac'):
        eq(msg.payload, c['payload'], 'payload')
        eq(len(msg.auth_tag), algs.MAC[c['alg']][4], 'tag length')
    else:
        tl = algs.ENC[c['alg']][3]
        eq(len(msg.payload), len(c['payload']) + tl, 'ciphertext length')
    if c['k'] == 'sign':
        eq(len(msg.signers), len(c['signers']), 'number of signers')
        for i, (s, obj) in enumerate(zip(c['signers'], msg.signers)):
            B.check_headers(obj, s['h'], 'signer %d' % i)
    if c['k'] in ('enc', 'mac'):
        eq(len(msg.recipients), len(c['rcpts']), 'number of recipients')
        for i, (r, obj) in enumerate(zip(c['rcpts'], msg.recipients)):
            check_recipient_headers(r, obj, i)


def check_recipient_headers(r, obj, i):
    B.check_bucket(obj.phdr, r['h']['p'], 'recipient %d protected' % i)
    u = dict(obj.uhdr)
    if r.get('gen'):
        expect(H.EphemeralKey in u, 'recipient %d: no ephemeral key', i)
        eph = u.pop(H.EphemeralKey)
        m = B.key_map(eph)
        expect(-4 not in m, 'recipient %d: the ephemeral key in the header is private', i)
        eq(m.get(-1), algs.CURVE_ID[r['rk']['crv']], 'curve of the ephemeral key')
    B.check_bucket(u, r['h']['u'], 'recipient %d unprotected' % i)

# ------------------------------------------------------------------------------------------- reference implementation


def attr(layer, label):
    for lab, v in layer['p'] + layer['u']:
        if not isinstance(lab, str) and lab == label:
            return v
    return None


def ref_context(r, target_alg, keybytes, prot):
    h = r['h']
    return R.kdf_context(target_alg, keybytes, [attr(h, -21), attr(h, -22), attr(h, -23)],
                         [attr(h, -24), attr(h, -25), attr(h, -26)], prot, r.get('pub'), r.get('priv'))


def content_keylen(c):
    return algs.ENC[c['alg']][2] if c['alg'] in algs.ENC else algs.MAC[c['alg']][3]


def ref_secret(r, target_alg, keylen, prot, peer_xy=None, d=None):
    """The key an ECDH recipient yields: CEK (direct) or KEK."""
    _, es, hname, kw = algs.ECDH[r['alg']]
    if kw:
        target_alg, keylen = kw, algs.KW[kw][1]
    if peer_xy is None:
        peer_xy = R.ec_pub(r['sk']['crv'], r['sk']['d'])
    z = R.ecdh(r['rk']['crv'], r['rk']['d'] if d is None else d, *peer_xy)
    return R.hkdf(hname, z, attr(r['h'], -20), ref_context(r, target_alg, keylen, prot), keylen)


def ref_open_recipient(c, i, wire):
    """The CEK the i-th recipient obtains from its wire structure [prot, uhdr, ct, ...]."""
    r = c['rcpts'][i]
    prot, u, ct = wire[0], wire[1], wire[2]
    if r['t'] == 'direct':
        return c['key']['k']
    if r['t'] == 'kw':
        return R.kw_unwrap(r['key']['k'], ct)
    if r['t'] == 'oaep':
        return R.oaep_unwrap(r['alg'], fix.RSA[r['key']['i']], ct)
    peer = None
    if r['gen']:
        peer = (u[-1][-2], u[-1][-3])
    secret = ref_secret(r, c['alg'], content_keylen(c), prot, peer)
    return secret if r['t'] == 'dka' else R.kw_unwrap(secret, ct)


def ref_recipient(c, i, cek, tstr=False):
    """The wire structure of the i-th recipient, from an independent sender (ephemeral scalar = r['sk'])."""
    r = c['rcpts'][i]
    p = B.wire_prot(r['h']['p'], r['h'].get('tstr'))
    u = B.wire_hdr(r['h']['u'], tstr)
    if r.get('gen'):
        u[-1] = B.wire_key(r['sk'], False)
    if r['t'] in ('direct', 'dka'):
        ct = b''
    elif r['t'] == 'kw':
        ct = R.kw_wrap(r['key']['k'], cek)
    elif r['t'] == 'oaep':
        ct = R.oaep_wrap(r['alg'], fix.RSA[r['key']['i']], cek)
    else:
        ct = R.kw_wrap(ref_secret(r, c['alg'], content_keylen(c), p), cek)
    return [p, u, ct]


def ref_cek(c, fresh=b'\x5a'):
    r = c['rcpts'][0]
    if r['t'] == 'direct':
        return c['key']['k']
    if r['t'] == 'dka':
        return ref_secret(r, c['alg'], content_keylen(c), B.wire_prot(r['h']['p'], r['h'].get('tstr')))
    return c.get('cek') or (fresh * 32)[:content_keylen(c)]


def auth_data(c, prot=None, s=None, sprot=None):
    """What is signed, MACed, or given to the AEAD as additional data."""
    if prot is None:
        prot = B.wire_prot(c['h']['p'], c['h'].get('tstr'))
    k = c['k']
    if k == 'sign1':
        return R.sig_structure1(prot, c['aad'], c['payload'])
    if k == 'sign':
        if sprot is None:
            sprot = B.wire_prot(s['h']['p'], s['h'].get('tstr'))
        return R.sig_structure(prot, sprot, s['aad'], c['payload'])
    if k in ('mac0', 'mac'):
        return R.mac_structure(CTX[k], prot, c['aad'], c['payload'])
    return R.enc_structure(CTX[k], prot, c['aad'])


def ref_message(c, prot=None, sprots=None, sig=None):
    """The message as an independent sender makes it (a Tag, to be encoded).

    prot / sprots: encodings of the protected headers to use; sig(alg, key, data): signature function.
    """
    k, tstr = c['k'], c['h'].get('tstr')
    sig = sig or R.sign
    if prot is None:
        prot = B.wire_prot(c['h']['p'], tstr)
    u = B.wire_hdr(c['h']['u'], tstr)
    if k == 'sign1':
        return Tag(18, [prot, u, None if c['det'] else c['payload'], sig(c['alg'], c['key'], auth_data(c, prot))])
    if k == 'sign':
        out = []
        for i, s in enumerate(c['signers']):
            sp = sprots[i] if sprots else B.wire_prot(s['h']['p'], s['h'].get('tstr'))
            out.append([sp, B.wire_hdr(s['h']['u'], tstr), sig(s['alg'], s['key'], auth_data(c, prot, s, sp))])
        return Tag(98, [prot, u, None if c['det'] else c['payload'], out])
    if k in ('mac0', 'enc0'):
        cek = c['key']['k']
    else:
        cek = ref_cek(c)
    if k in ('mac0', 'mac'):
        body = [prot, u, c['payload'], R.mac_tag(c['alg'], cek, auth_data(c, prot))]
    else:
        body = [prot, u, R.aead_encrypt(c['alg'], cek, nonce_of(c), c['payload'], auth_data(c, prot))]
    if k in ('mac', 'enc'):
        body.append([ref_recipient(c, i, cek, tstr) for i in range(len(c['rcpts']))])
    return Tag(TAG[k], body)
