"""C17 Imported and generated keys are the right keys."""
import copy

import hypothesis.strategies as st
from cryptography.hazmat.primitives.asymmetric import dh, dsa, ec, rsa
from cryptography.hazmat.primitives.serialization import (BestAvailableEncryption, Encoding, NoEncryption, PrivateFormat,
                                                          PublicFormat)

import algs
import build as B
import fix
import gen as G
import refcose as R
from core import Facet, attempt, eq, expect, fresh_bits, is_true, refused, Raised, short
from props.c15 import foreign, known, params, spelled

KP = B.pycose.keys.keyparam
RULE = ('Private and public keys of every supported kind with edge-case numbers, written as PEM in every format and with '
        'passwords, imported with generated optional parameters, and then used for a signature or key agreement against the '
        'original key; unsupported kinds, wrong passwords and damaged files; generated keys for all curves and sizes. '
        'Non-trivial: a successful import or generation, or a refusal of a well-formed but unsupported request.')
ASSUMPTIONS = ['cryptography writes correct PEM files', 'optional parameters do not repeat the mandatory ones']


def pyca(k):
    """The private key object of the `cryptography` package."""
    if k['kt'] == 'ec':
        return R.ec_private(k['crv'], k['d'])
    if k['kt'] == 'okp':
        return R.OKP[k['crv']][0].from_private_bytes(k['d'])
    return R.rsa_private(fix.RSA[k['i']])


def formats(k):
    f = ['pkcs8']
    if k['kt'] in ('ec', 'rsa'):
        f.append('traditional')
    return f


@st.composite
def optional(draw, kty):
    p = draw(params(kty))
    return {'m': p, 's': draw(st.lists(st.integers(0, 4), min_size=1, max_size=4)), 'none': draw(st.booleans())}


def opt_dict(kty, o):
    if not o['m'] and o['none']:
        return None
    d = spelled({1: kty, **o['m']}, o['s'], o['s'][::-1])
    for x in (1, 'KTY', KP.KpKty):
        d.pop(x, None)
    return d


@st.composite
def pem_case(draw):
    k = draw(st.one_of(G.ec_key(), G.ec_key(), G.okp_key(), G.rsa_key([i for i, b in enumerate(fix.RSA_BITS)])))
    k.pop('short', None)
    kty = B.KTY[k['kt']]
    return {'k': k, 'how': draw(st.sampled_from(['private', 'private', 'public'])), 'fmt': draw(st.sampled_from(formats(k))),
            'pw': draw(st.one_of(st.none(), st.binary(min_size=1, max_size=20))), 'o': draw(optional(kty)),
            'cls': draw(st.integers(0, 2)), 'bad': draw(st.sampled_from([None] * 5 + ['password', 'no password', 'needless', 'other half',
                                                                            'damage', 'empty']))}


def pem_of(c, kind):
    k = pyca(c['k'])
    if kind == 'public':
        fmt = PublicFormat.PKCS1 if c['fmt'] == 'traditional' and c['k']['kt'] == 'rsa' else PublicFormat.SubjectPublicKeyInfo
        return k.public_key().public_bytes(Encoding.PEM, fmt).decode()
    fmt = PrivateFormat.TraditionalOpenSSL if c['fmt'] == 'traditional' else PrivateFormat.PKCS8
    return k.private_bytes(Encoding.PEM, fmt, BestAvailableEncryption(c['pw']) if c['pw'] else NoEncryption()).decode()


def importer(c, kty):
    cls = (B.CoseKey, B.CoseKey, getattr(B.pycose.keys, algs.KEYCLS_BY_KTY[kty]))[c['cls']]
    return cls.from_pem_public_key if c['how'] == 'public' else cls.from_pem_private_key


def usable(k, key, private, rec):
    """The imported key works together with the original one."""
    data = b'to be signed'
    if k['kt'] == 'okp':
        if k['crv'][0] == 'X':
            return
        alg = -8
    elif k['kt'] == 'rsa':
        if fix.RSA_BITS[k['i']] > 2050 or k['i'] not in fix.rsa_fits(-257):
            return
        alg = -257
    elif k['crv'] == 'SECP256K1':
        return
    else:
        alg = {v[1]: a for a, v in algs.ECDSA.items()}[k['crv']]
    for x in (3, 4):
        if x in [l.identifier if isinstance(l, type) else l for l in key]:
            return      # restricted
    msg = B.Sign1Message(phdr={1: alg}, payload=data, key=key)
    tbs = R.sig_structure1(R.enc({1: alg}), b'', data)
    if private:
        w = B.parse(msg.encode(), 18)
        expect(R.verify(alg, k, tbs, w[3]), 'a signature of the imported key does not verify with the original one')
    m2 = B.Sign1Message.decode(R.enc(B.refcbor.Tag(18, [R.enc({1: alg}), {}, data, R.sign(alg, k, tbs)])))
    m2.key = key
    is_true('verifying a signature of the original key', m2.verify_signature())
    rec.label('used with the original key')


def check_pem(c, rec):
    k = c['k']
    kty = B.KTY[k['kt']]
    opt = opt_dict(kty, c['o'])
    before = B.frozen(opt)
    kw = {} if opt is None else {'optional_params': opt}
    pem = pem_of(c, c['how'])
    load = importer(c, kty)
    pw = {'password': c['pw']} if c['how'] == 'private' and (c['pw'] or c['cls']) else {}
    if c['bad']:
        if c['bad'] == 'password':
            if c['how'] == 'public' or not c['pw']:
                return
            pw = {'password': c['pw'][:-1] + bytes([c['pw'][-1] ^ 1])}
        elif c['bad'] == 'no password':
            if c['how'] == 'public' or not c['pw']:
                return
            pw = {}
        elif c['bad'] == 'needless':
            if c['how'] == 'public' or c['pw']:
                return
            pw = {'password': b'x'}
        elif c['bad'] == 'other half':
            pem = pem_of({**c, 'pw': None}, 'private' if c['how'] == 'public' else 'public')
            pw = {}
        elif c['bad'] == 'damage':
            lines = pem.splitlines()
            del lines[len(lines) // 2]
            if len(lines) > 6 or k['kt'] == 'rsa':
                lines = lines[:1] + ['!' + x for x in lines[1:-1]] + lines[-1:]
            pem = '\n'.join(lines)
        else:
            pem = ''
        refused('importing with: ' + c['bad'], load, pem, **pw, **kw)
        rec.nt()
        return rec.label('refused: ' + c['bad'])
    want = B.wire_key(k, c['how'] == 'private', c['o']['m'])
    key = attempt(load, pem, **pw, **kw)
    expect(not isinstance(key, Raised), 'import failed: %s', key)
    B.is_key(key, want, 'imported key')
    expect(B.frozen(opt) == before, 'the optional parameters of the caller changed')
    again = load(pem, **pw, **kw)
    expect(again == key and again is not key, 'importing twice gives different keys')
    usable(k, key, c['how'] == 'private', rec)
    rec.nt()
    rec.label('%s %s, %s' % (c['how'], k['kt'], c['fmt']))


# ------------------------------------------------------------------------------------------- unsupported kinds

EC_OTHER = ['SECP224R1', 'SECP192R1', 'BrainpoolP256R1', 'BrainpoolP384R1', 'BrainpoolP512R1', 'SECT163K1', 'SECT233R1',
            'SECT283K1', 'SECT409R1', 'SECT571K1']


def unsupported():
    return [{'kind': n, 'how': h} for n in EC_OTHER + ['dsa', 'dh'] for h in ('private', 'public')]


_objs = {}


def foreign_key(kind):
    if kind not in _objs:
        if kind == 'dsa':
            _objs[kind] = dsa.generate_private_key(1024)
        elif kind == 'dh':
            p = int('FFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD3A431B'
                    '302B0A6DF25F14374FE1356D6D51C245E485B576625E7EC6F44C42E9A637ED6B0BFF5CB6F406B7EDEE386BFB5A899FA5AE9F24117C4B1FE6'
                    '49286651ECE65381FFFFFFFFFFFFFFFF', 16)
            _objs[kind] = dh.DHParameterNumbers(p, 2).parameters().generate_private_key()
        else:
            try:
                _objs[kind] = ec.generate_private_key(getattr(ec, kind)())
            except Exception:       # this build of OpenSSL does not have the curve
                _objs[kind] = None
    return _objs[kind]


def check_unsupported(c, rec):
    k = foreign_key(c['kind'])
    if k is None:
        return
    for cls in (B.CoseKey, B.EC2Key, B.OKPKey, B.RSAKey, B.SymmetricKey):
        if c['how'] == 'private':
            pem = k.private_bytes(Encoding.PEM, PrivateFormat.PKCS8, NoEncryption()).decode()
            refused('a %s key' % c['kind'], cls.from_pem_private_key, pem)
        else:
            pem = k.public_key().public_bytes(Encoding.PEM, PublicFormat.SubjectPublicKeyInfo).decode()
            refused('a %s key' % c['kind'], cls.from_pem_public_key, pem)
    rec.nt()
    rec.label('unsupported ' + c['kind'])


# ------------------------------------------------------------------------------------------- generation


@st.composite
def gen_case(draw):
    kt = draw(st.sampled_from(['ec', 'ec', 'ec', 'okp', 'okp', 'sym', 'bad', 'bad']))
    kty = B.KTY.get(kt, 2)
    c = {'kt': kt, 's': draw(st.integers(0, 4)), 'o': draw(optional(kty)), 'cls': 0}
    if kt == 'ec':
        c['crv'] = draw(st.sampled_from(G.ALL_EC))
    elif kt == 'okp':
        c['crv'] = draw(st.sampled_from(sorted(R.OKP)))
    elif kt == 'sym':
        c['n'] = draw(st.sampled_from([16, 24, 32]))
    else:
        c['what'] = draw(st.sampled_from(['ec', 'okp', 'sym', 'sym', 'rsa']))
        if c['what'] in ('ec', 'okp'):
            own = G.ALL_EC if c['what'] == 'ec' else list(R.OKP)
            c['v'] = draw(st.one_of(st.sampled_from([x[1] for x in algs.CURVES.values() if x[1] not in own]),
                                    st.sampled_from([99, -1, 'nope', '', None, b'', b'P_256', [], 1.5, {}, 'P-256', 'secp256r1'])))
        elif c['what'] == 'sym':
            c['v'] = draw(st.one_of(st.integers(-5, 600).filter(lambda n: n not in (16, 24, 32)),
                                    st.sampled_from([128, 192, 256, None, '16', b'', 1.5, [], 2**40])))
        else:
            c['v'] = draw(st.sampled_from([0, 1, -1, 3, 100, 256, 511, None, '2048', 1.5, []]))
    return c


def curve_spelling(name, s):
    i = algs.CURVE_ID[name]
    return B.respell(name, i, B.curve_class(i), s)


SEEN = set()


def fresh(secret, what):
    expect(secret not in SEEN, '%s: the same secret was generated twice', what)
    SEEN.add(secret)


def check_gen(c, rec):
    kt = c['kt']
    if kt == 'bad':
        cls = {'ec': B.EC2Key, 'okp': B.OKPKey, 'sym': B.SymmetricKey, 'rsa': B.RSAKey}[c['what']]
        v = c['v']
        if isinstance(v, str) and v in algs.CURVE_ID:
            v = curve_spelling(v, c['s'])
        refused('generating a key for %s' % short(v), cls.generate_key, v)
        rec.nt()
        return rec.label('refused ' + c['what'])
    kty = B.KTY[kt]
    opt = opt_dict(kty, c['o'])
    before = B.frozen(opt)
    kw = {} if opt is None else {'optional_params': opt}
    for i in range(2):
        if kt == 'sym':
            key = B.SymmetricKey.generate_key(c['n'], **kw)
            k = key.k
            expect(type(k) is bytes and len(k) == c['n'], 'a key of %s instead of %d bytes', short(k), c['n'])
            want = B.wire_key({'kt': 'sym', 'k': k}, True, c['o']['m'])
            fresh(k, 'symmetric key')
        else:
            cls = {'ec': B.EC2Key, 'okp': B.OKPKey}[kt]
            key = cls.generate_key(curve_spelling(c['crv'], c['s']), **kw)
            d = key.d
            size = R.EC[c['crv']][1] if kt == 'ec' else R.OKP[c['crv']][2]
            expect(type(d) is bytes and len(d) == size, 'private value %s', short(d))
            expect(key.crv is B.curve_class(algs.CURVE_ID[c['crv']]), 'generated on %s', short(key.crv))
            expect(key.crv.size == size, 'the size of curve %s is %s', c['crv'], short(key.crv.size))
            want = B.wire_key({'kt': kt, 'crv': c['crv'], 'd': int.from_bytes(d, 'big') if kt == 'ec' else d}, True, c['o']['m'])
            fresh(d, c['crv'])
        B.is_key(key, want, 'generated key')
        expect(B.frozen(opt) == before, 'the optional parameters of the caller changed')
    rec.nt()
    rec.label(c.get('crv', 'symmetric'))


@st.composite
def rsa_case(draw):
    return {'bits': draw(st.sampled_from([1024, 1024, 1032, 1536, 2048])), 'o': draw(optional(3)), 'n': draw(st.integers(0, 10**6))}


def check_rsa(c, rec):
    opt = opt_dict(3, c['o'])
    before = B.frozen(opt)
    key = B.RSAKey.generate_key(c['bits'], **({} if opt is None else {'optional_params': opt}))
    expect(B.frozen(opt) == before, 'the optional parameters of the caller changed')
    vals = {}
    for n in ('n', 'e', 'd', 'p', 'q', 'dp', 'dq', 'qinv'):
        v = getattr(key, n)
        expect(type(v) is bytes and v and v[0], '%s is %s', n, short(v))
        vals[n] = int.from_bytes(v, 'big')
    g = vals
    expect(g['n'] == g['p'] * g['q'] and g['n'].bit_length() == c['bits'], 'modulus')
    expect(g['e'] == 65537 and g['p'] != g['q'], 'public exponent')
    for pr, dx in (('p', 'dp'), ('q', 'dq')):
        expect(g['d'] * g['e'] % (g[pr] - 1) == 1 and g[dx] == g['d'] % (g[pr] - 1), 'exponents')
    expect(g['qinv'] * g['q'] % g['p'] == 1, 'coefficient')
    want = {1: 3, **c['o']['m'], **{lab: B.i2b(g[n]) for lab, n in B.RSA_FIELDS}}
    B.is_key(key, want, 'generated key')
    fresh(key.d, 'RSA')
    rec.nt()
    rec.label('RSA %d' % c['bits'])


def bit_cases():
    return [['sym', n] for n in (16, 24, 32)] + [['ec', c] for c in G.ALL_EC] + [['okp', c] for c in sorted(R.OKP)]


CLAMPED = {'X25519': 7 << 248 | 192, 'X448': 3 << 440 | 128}


def check_bits(c, rec):
    """60 generated keys have nothing in common."""
    kind, x = c
    gen = {'sym': B.SymmetricKey, 'ec': B.EC2Key, 'okp': B.OKPKey}[kind].generate_key
    keys = [gen(x) for _ in range(60)]
    ds = [k.k if kind == 'sym' else k.d for k in keys]
    size = {'P_521': 521}.get(x, 8 * len(ds[0]))
    # some libraries fix the bits which do not count
    fresh_bits([int.from_bytes(d, 'big') for d in ds], size, CLAMPED.get(x, 0))
    rec.label('%s %s' % (kind, x))
    rec.nt()


FACETS = [
    Facet('pem', pem_case, check_pem, 2500, shards=4),
    Facet('unsupported', None, check_unsupported, 0, enum=unsupported, shards=1),
    Facet('generate', gen_case, check_gen, 1500, shards=2),
    Facet('generate-rsa', rsa_case, check_rsa, 40, thorough=800, shards=2),
    Facet('bits', None, check_bits, 0, enum=bit_cases, shards=1),
]
