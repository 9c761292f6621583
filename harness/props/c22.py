"""C22 The nonce is exactly the one the headers and key prescribe."""
import hypothesis.strategies as st

import algs
import build as B
import gen as G
import msgs as M
import refcose as R
from core import Facet, attempt, eq, expect, Raised, refused, short
from refcbor import Tag, enc

H = B.pycose.headers
RULE = ('Encrypted messages whose nonce comes from an IV in either bucket, or from a base IV and a partial IV of every length '
        'and zero pattern, or from neither, with other nonce sources present beside it; the ciphertext is compared with the '
        'one a reference AEAD makes under an independently computed nonce, messages of a reference sender under a nonce N are '
        'decrypted exactly when headers and key prescribe N, and the same over histories of changes to headers and key. '
        'Non-trivial: the nonce is derived from a base IV, or a message is refused.')
ASSUMPTIONS = ['IV lengths are the ones the algorithm prescribes']


def zeros(n):
    """Byte strings of length n with zeros in front, behind or everywhere."""
    def mk(t):
        lead, trail, seed = t
        body = G.expand(seed, n)
        lead, trail = min(lead, n), min(trail, n)
        return (b'\0' * lead + body[lead:])[:n - trail] + b'\0' * trail
    return st.one_of(G.exact(n), st.tuples(st.sampled_from([0, 1, 2, 6, 13]), st.sampled_from([0, 0, 1, 13]), st.integers(0, 2**32)).map(mk))


@st.composite
def source(draw, n, delivered=False):
    """iv / base / part, each present or not; part no longer than base, unless 'long'."""
    s = {}
    c = draw(st.sampled_from((['iv'] * 12 + ['derived'] * 4 if delivered else ['iv'] * 4 + ['derived'] * 12) + [
        'nobase', 'nopart', 'nothing', 'long', 'emptyiv', 'emptybase']))
    if c == 'iv':
        s['iv'] = draw(zeros(n))
        if draw(st.booleans()):
            s['base'] = draw(zeros(n))
        if draw(st.booleans()):
            s['part'] = draw(st.integers(0, n).flatmap(zeros))
    elif c == 'emptyiv':
        s.update({'iv': b'', 'base': draw(zeros(n)), 'part': draw(zeros(2))})
    if c in ('derived', 'nopart', 'long'):
        s['base'] = draw(zeros(n))
    if c in ('derived', 'nobase', 'emptybase'):
        m = draw(st.integers(0, n))
        opts = [zeros(m)]
        if 'base' in s:
            # cancel the base IV in part or completely
            opts += [st.just(s['base'][n - m:]), st.just(s['base']), st.just(s['base'][n - m:][:-1] + b'\1' if m else b'')]
        s['part'] = draw(st.one_of(*opts))
    if c == 'long':
        s['part'] = draw(st.one_of(zeros(n + 1), zeros(n + 3), st.just(b'\0' * (n + 1)), st.just(b'\0' + s['base'])))
    if c == 'emptybase':
        s['base'] = b''
    return s


def nonce(s):
    """The prescribed nonce, or None when there is none."""
    if 'iv' in s:
        return s['iv'] or None
    if not s.get('base') or 'part' not in s or len(s['part']) > len(s['base']):
        return None
    b, p = s['base'], s['part']
    p = b'\0' * (len(b) - len(p)) + p
    return bytes(x ^ y for x, y in zip(b, p))


FORMS = 6


def content_key(k, base, form):
    """A symmetric key with a base IV, put there in one of several ways."""
    if base is None:
        return B.SymmetricKey(k=k)
    KP = B.pycose.keys.keyparam
    form %= FORMS
    if form == 0:
        return B.SymmetricKey(k=k, optional_params={KP.KpBaseIV: base})
    if form == 1:
        return B.SymmetricKey(k=k, optional_params={'BASE_IV': base})
    if form == 2:
        return B.CoseKey.from_dict({1: 4, -1: k, 5: base})
    if form == 3:
        return B.CoseKey.decode(enc({1: 4, -1: k, 5: base}))
    key = B.SymmetricKey(k=k)
    if form == 4:
        key.base_iv = base
    else:
        key['base_iv'] = base
    return key


@st.composite
def case(draw):
    a = draw(G.enc_alg)
    n = algs.ENC[a][4]
    mode = draw(st.sampled_from(['enc0', 'enc0', 'enc0', 'direct', 'direct', 'kw', 'dka']))
    return {'alg': a, 'k': draw(G.exact(algs.ENC[a][2])), 'mode': mode, 's': draw(source(n, mode in ('kw', 'dka'))), 'ib': draw(st.integers(0, 1)),
            'pb': draw(st.integers(0, 1)), 'form': draw(st.integers(0, FORMS - 1)), 'payload': draw(G.blob(0, 100)),
            'aad': draw(st.sampled_from([b'', b'', b'aad'])), 'f2': draw(st.integers(0, FORMS - 1))}


def headers(case, s):
    p, u = {1: case['alg']}, {}
    if 'iv' in s:
        (u if case['ib'] else p)[5] = s['iv']
    if 'part' in s:
        (u if case['pb'] else p)[6] = s['part']
    return p, u


KEK = b'kek-kek-kek-kek-'
RK, SK = {'kt': 'ec', 'crv': 'P_256', 'd': 77}, {'kt': 'ec', 'crv': 'P_256', 'd': 99}


def recipient(mode):
    """(object for the sender, wire form given the CEK)"""
    RC = B.pycose.messages.recipient
    if mode == 'direct':
        return RC.DirectEncryption(uhdr={1: -6})
    if mode == 'kw':
        key = B.SymmetricKey(k=KEK, optional_params={'BASE_IV': b'b' * 13})
        return RC.KeyWrap(uhdr={1: -3}, key=key)
    r = RC.DirectKeyAgreement(phdr={1: -27}, uhdr={H.StaticKey: B.key(SK, False, {5: b'b' * 13})})
    r.key = B.key(SK, True, {5: b'b' * 13})
    r.local_attrs = {H.StaticKey: B.key(RK, False, {5: b'b' * 13})}
    return r


def aad_of(case, prot):
    return R.enc_structure('Encrypt0' if case['mode'] == 'enc0' else 'Encrypt', prot, case['aad'])


def dka_cek(case):
    n = algs.ENC[case['alg']][2]
    ctx = R.kdf_context(case['alg'], n, [None] * 3, [None] * 3, enc({1: -27}))
    return R.hkdf('sha256', R.ecdh('P_256', 77, *R.ec_pub('P_256', 99)), None, ctx, n)


def cek_of(case, rwire=None):
    if case['mode'] == 'dka':
        return dka_cek(case)
    if case['mode'] == 'kw' and rwire is not None:
        return R.kw_unwrap(KEK, rwire[2])
    return case['k']


def usable(case):
    """The nonce sources that count: keys delivered through recipients have no base IV."""
    s = dict(case['s'])
    if case['mode'] in ('kw', 'dka'):
        s.pop('base', None)
    return s


def check_send(case, rec):
    s = case['s']
    p, u = headers(case, s)
    kw = {'phdr': p, 'uhdr': u, 'payload': case['payload'], 'external_aad': case['aad'],
          'key': content_key(case['k'], s.get('base'), case['form'])}
    if case['mode'] == 'enc0':
        msg = B.Enc0Message(**kw)
    else:
        msg = B.EncMessage(recipients=[recipient(case['mode'])], **kw)
    want = nonce(usable(case))
    rec.label('%s: %s' % (case['mode'], 'refused' if want is None else 'IV' if 'iv' in s else 'derived'))
    if want is None:
        rec.nt()
        refused('encrypting without a nonce (%s)' % short(s), msg.encode)
        return
    if 'iv' not in s:
        rec.nt()
        rec.label('%d leading zero bytes' % (len(want) - len(want.lstrip(b'\0'))) if want[:1] == b'\0' else 'no leading zero')
    for i in range(2):
        raw = B.parse(msg.encode(), 16 if case['mode'] == 'enc0' else 96)
        cek = cek_of(case, raw[3][0] if len(raw) > 3 else None)
        eq(raw[2], R.aead_encrypt(case['alg'], cek, want, case['payload'], aad_of(case, raw[0])), 'ciphertext, encoding %d' % i)


# ------------------------------------------------------------------------------------------- receiving

@st.composite
def recv_case(draw):
    c = draw(case())
    n = algs.ENC[c['alg']][4]
    own = nonce(usable(c))
    c['sent'] = draw(st.sampled_from(['own', 'own', 'own', 'xor', 'strip', 'iv', 'base', 'part', 'right', 'zero']))
    c['flip'] = draw(st.integers(0, 8 * n - 1))
    c['swap'] = draw(st.booleans())
    return c


def fit(x, n):
    return (b'\0' * n + x)[-n:] if len(x) <= n else x[:n]


def check_recv(case, rec):
    s = case['s']
    n = algs.ENC[case['alg']][4]
    want = nonce(usable(case))
    sent, how = want, case['sent']
    part, base = s.get('part', b''), s.get('base') or b''
    # the nonce the sender used: the prescribed one or another plausible one
    if how == 'xor' or want is None and how in ('own', 'strip'):
        sent = fit(want or nonce({'base': base or b'\0' * n, 'part': part[:n]}) or b'', n)
        if want is not None:
            i = case['flip'] % (8 * len(sent))
            sent = sent[:i // 8] + bytes([sent[i // 8] ^ 1 << i % 8]) + sent[i // 8 + 1:]
    elif how == 'strip':
        sent = want.lstrip(b'\0').ljust(n, b'\0')
    elif how == 'iv':
        sent = fit(s.get('iv', b''), n)
    elif how == 'base':
        sent = fit(base, n)
    elif how == 'part':
        sent = fit(part, n)
    elif how == 'right':
        # padded at the other end
        p = part.ljust(n, b'\0')[:n]
        sent = R._xor(fit(base, n), p)
    elif how == 'zero':
        sent = b'\0' * n
    p, u = headers(case, s)
    prot = enc(p)
    cek = cek_of(case)
    body = [prot, u, R.aead_encrypt(case['alg'], cek, sent, case['payload'], aad_of(case, prot))]
    mode = case['mode']
    if mode == 'direct':
        body.append([[b'', {1: -6}, b'']])
    elif mode == 'kw':
        body.append([[b'', {1: -3}, R.kw_wrap(KEK, cek)]])
    elif mode == 'dka':
        body.append([[enc({1: -27}), {-2: B.wire_key(SK, False)}, b'']])
    got = B.CoseMessage.decode(enc(Tag(16 if mode == 'enc0' else 96, body)))
    got.external_aad = case['aad']
    args = ()
    # the key of the message counts only when it is the content key
    got.key = content_key(case['k'], s.get('base'), case['f2'])
    if mode != 'enc0':
        r = got.recipients[0]
        args = (r,)
        if mode == 'kw':
            r.key = B.SymmetricKey(k=KEK, optional_params={'BASE_IV': base} if base else None)
        elif mode == 'dka':
            r.key = B.key(RK, True, {5: base} if base else None)
    if sent == want:
        eq(got.decrypt(*args), case['payload'], 'plaintext')
        rec.label('right nonce')
        if 'iv' not in s:
            rec.nt()
    else:
        refused('decrypting with %s what was encrypted with nonce %s' % (short(s), sent.hex()), got.decrypt, *args)
        rec.label('no nonce' if want is None else 'wrong nonce')
        rec.nt()


# ------------------------------------------------------------------------------------------- histories

@st.composite
def hist(draw):
    a = draw(G.enc_alg)
    n = algs.ENC[a][4]
    iv, part, base = zeros(n), st.integers(0, n).flatmap(zeros), zeros(n)
    bucket = st.integers(0, 1)
    op = st.one_of(
        st.tuples(st.just('iv'), iv, bucket), st.tuples(st.just('part'), part, bucket), st.tuples(st.just('part'), part, bucket),
        st.tuples(st.just('noiv'), st.just(b''), bucket), st.tuples(st.just('noiv'), st.just(b''), bucket),
        st.tuples(st.just('nopart'), st.just(b''), bucket), st.tuples(st.just('base'), base, st.integers(0, 1)),
        st.tuples(st.just('base'), base, st.integers(0, 1)), st.tuples(st.just('nobase'), st.just(b''), bucket),
        st.tuples(st.just('key'), base, st.integers(0, FORMS - 1)), st.tuples(st.just('barekey'), st.just(b''), bucket))
    first = draw(st.sampled_from([[], [['base', draw(base), 1]], [['key', draw(base), 3], ['part', draw(part), 1]],
                                  [['part', draw(part), 0], ['base', draw(base), 0]]]))
    return {'alg': a, 'k': draw(G.exact(algs.ENC[a][2])), 'mode': draw(st.sampled_from(['enc0', 'direct'])), 'aad': b'',
            'ops': first + draw(st.lists(op, min_size=2, max_size=9)), 'dec': draw(st.booleans())}


def check_hist(case, rec):
    a, k = case['alg'], case['k']
    tag = 16 if case['mode'] == 'enc0' else 96
    extra = [[[b'', {1: -6}, b'']]] if tag == 96 else []
    n = algs.ENC[a][4]
    payload = b'the payload'
    if case['dec']:
        prot = enc({1: a})
        data = enc(Tag(tag, [prot, {5: b'v' * n}, R.aead_encrypt(a, k, b'v' * n, payload, aad_of(case, prot))] + extra))
        msg = B.CoseMessage.decode(data)
        msg.key = B.SymmetricKey(k=k)
        plain = msg.decrypt(*msg.recipients) if extra else msg.decrypt()
        eq(plain, payload, 'plaintext')
        msg.payload = plain
        u = {H.IV: b'v' * n}
    else:
        kw = {'phdr': {H.Algorithm: B.alg_class(a)}, 'payload': payload, 'key': B.SymmetricKey(k=k)}
        msg = B.Enc0Message(**kw) if tag == 16 else B.EncMessage(recipients=[recipient('direct')], **kw)
        u = {}
    p = {H.Algorithm: B.alg_class(a)}
    base = None
    derived = 0
    for op, v, x in case['ops']:
        if op in ('iv', 'part', 'noiv', 'nopart'):
            lab = H.IV if 'iv' in op else H.PartialIV
            p.pop(lab, None)
            u.pop(lab, None)
            if not op.startswith('no'):
                (u if x else p)[lab] = v
            msg.phdr = dict(p)
            msg.uhdr = dict(u)
        elif op == 'base':
            if x:
                msg.key.base_iv = v
            else:
                msg.key['BASE_IV'] = v
            base = v
        elif op == 'nobase':
            if base is not None:
                del msg.key[B.pycose.keys.keyparam.KpBaseIV]
            base = None
        elif op == 'key':
            msg.key = content_key(k, v, x)
            base = v
        else:
            msg.key = B.SymmetricKey(k=k)
            base = None
        s = {name: d[lab] for lab, name in ((H.IV, 'iv'), (H.PartialIV, 'part')) for d in (p, u) if lab in d}
        if base is not None:
            s['base'] = base
        want = nonce(s)
        r = attempt(msg.encode)
        if want is None:
            expect(isinstance(r, Raised), 'encrypted without a nonce (%s): %s', short(s), short(r))
            continue
        expect(not isinstance(r, Raised), 'refused, although the nonce is %s: %s', want.hex(), r)
        raw = B.parse(r, tag)
        ct = R.aead_encrypt(a, k, want, payload, aad_of(case, raw[0]))
        eq(raw[2], ct, 'ciphertext after %s' % op)
        # a message object with the same headers and key, as a receiver
        got = B.CoseMessage.decode(r)
        got.key = msg.key
        eq(got.decrypt(*got.recipients) if extra else got.decrypt(), payload, 'plaintext')
        derived += 'iv' not in s
    rec.label('%d derived nonces' % derived)
    if derived:
        rec.nt()


# ------------------------------------------------------------------------------------------- no nonce at all

@st.composite
def odd(draw):
    a = draw(G.enc_alg)
    n = algs.ENC[a][4]
    body = draw(zeros(n))
    return {'alg': a, 'k': draw(G.exact(algs.ENC[a][2])), 'mode': draw(st.sampled_from(['enc0', 'direct', 'enc0'])), 'aad': b'', 'iv': body,
            'how': draw(st.integers(0, 7)), 'bucket': draw(st.integers(0, 1)), 'over': draw(st.booleans()),
            'set': draw(st.integers(0, 2)), 'what': draw(st.sampled_from(['iv', 'part', 'base']))}


def odd_iv(v, n, how):
    """Something in the place of an IV (or partial IV) which is not a byte string."""
    return [list(v), n, v.decode('latin-1'), {i: i for i in v}, True, [v], int.from_bytes(v, 'big'), 1.5][how]


def odd_base(case, bad, rec):
    """A base IV which is not a byte string."""
    a, k, v, n = case['alg'], case['k'], case['iv'], algs.ENC[case['alg']][4]
    how = [case['bucket'], 2 + case['bucket'], 4 + case['bucket']][case['set']]
    prot = enc({1: a})

    def send():
        return B.Enc0Message(phdr={1: a}, uhdr={6: b'\1'}, payload=b'the payload', key=content_key(k, bad, how)).encode()

    def receive(sent):
        got = B.CoseMessage.decode(enc(Tag(16, [prot, {6: b'\1'}, R.aead_encrypt(a, k, sent, b'the payload', aad_of(case, prot))])))
        got.key = content_key(k, bad, how)
        return got.decrypt()
    refused('encrypting with the base IV %s' % short(bad), send)
    for sent in (R._xor(v, b'\1'.rjust(n, b'\0')), b'\1'.rjust(n, b'\0')):
        refused('decrypting with the base IV %s' % short(bad), receive, sent)
    rec.label('base IV is not a byte string')
    rec.nt()


def check_odd(case, rec):
    a, k, v = case['alg'], case['k'], case['iv']
    n = algs.ENC[a][4]
    what = case['what']
    bad = odd_iv(v, n, case['how'])
    if what == 'base':
        odd_base(case, bad, rec)
        return
    lab = H.PartialIV if what == 'part' else H.IV
    kw = {'payload': b'the payload', 'key': content_key(k, b'b' * n, 0)}
    p, u = {H.Algorithm: B.alg_class(a)}, {}
    (u if case['bucket'] else p)[lab] = v if case['over'] else bad
    recs = {} if case['mode'] == 'enc0' else {'recipients': [recipient('direct')]}
    cls = B.Enc0Message if case['mode'] == 'enc0' else B.EncMessage

    def run():
        # by whatever way the value gets there, nothing may be encrypted with it
        msg = cls(phdr=p, uhdr=u, **recs, **kw)
        if case['over']:
            msg.encode()
            if case['set'] == 0:
                (msg.uhdr_update if case['bucket'] else msg.phdr_update)({lab: bad})
            elif case['set'] == 1:
                if case['bucket']:
                    msg.uhdr = {**u, lab: bad}
                else:
                    msg.phdr = {**p, lab: bad}
            else:
                (msg.uhdr if case['bucket'] else msg.phdr)[lab] = bad
        return msg.encode()
    refused('encrypting with %s for %s' % (short(bad), lab.__name__), run)
    if case['mode'] != 'enc0':
        return
    # and what somebody encrypted under the bytes it could stand for is not decrypted
    pp, uu = {1: a}, {}
    (uu if case['bucket'] else pp)[6 if what == 'part' else 5] = bad
    prot = enc(pp)
    for sent in ([v, bytes(n), b'b' * n] if what == 'iv' else [R._xor(b'b' * n, v), b'b' * n]):
        ct = R.aead_encrypt(a, k, sent, b'the payload', aad_of(case, prot))

        def receive():
            got = B.CoseMessage.decode(enc(Tag(16, [prot, uu, ct])))
            got.key = kw['key']
            return got.decrypt()
        refused('decrypting with %s for %s' % (short(bad), lab.__name__), receive)
    rec.label('not a byte string')
    rec.nt()


FACETS = [
    Facet('odd', odd, check_odd, 1500),
    Facet('send', case, check_send, 6000),
    Facet('receive', recv_case, check_recv, 6000),
    Facet('history', hist, check_hist, 2500),
]
