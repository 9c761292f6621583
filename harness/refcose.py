"""Reference COSE (RFC 8152) computations, independent of the code under test.

Crypto primitives come from hashlib/hmac and the `cryptography` package; the constructions COSE needs on top of them
(structures, KDF contexts, HKDF, CBC-MAC, key wrap, deterministic ECDSA) are spelled out here.
"""
import functools
import hashlib
import hmac as _hmac

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed25519, ed448, padding, rsa, utils as asym_utils, x25519, x448
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms as _calgs, modes
from cryptography.hazmat.primitives.ciphers.aead import AESCCM, AESGCM
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat, PrivateFormat, NoEncryption

import algs
import fix
from refcbor import enc

# ---------------------------------------------------------------- curves

EC = {'P_256': (ec.SECP256R1(), 32, 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551),
      'P_384': (ec.SECP384R1(), 48, 0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973),
      'P_521': (ec.SECP521R1(), 66, 0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409),
      'SECP256K1': (ec.SECP256K1(), 32, 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141)}


@functools.lru_cache(maxsize=20000)
def ec_pub(curve, d):
    """(x, y) of d*G as fixed-size byte strings."""
    c, size, _ = EC[curve]
    n = ec.derive_private_key(d, c).public_key().public_numbers()
    return n.x.to_bytes(size, 'big'), n.y.to_bytes(size, 'big')


def ec_private(curve, d):
    return ec.derive_private_key(d, EC[curve][0])


def ec_public(curve, x, y):
    return ec.EllipticCurvePublicNumbers(int.from_bytes(x, 'big'), int.from_bytes(y, 'big'),
                                         EC[curve][0]).public_key()


def ecdh(curve, d, x, y):
    return ec_private(curve, d).exchange(ec.ECDH(), ec_public(curve, x, y))


def _bits2int(b, qlen):
    v = int.from_bytes(b, 'big')
    return v >> (len(b) * 8 - qlen) if len(b) * 8 > qlen else v


def rfc6979_k(curve, d, h1, hname):
    _, _, q = EC[curve]
    qlen = q.bit_length()
    rolen = (qlen + 7) // 8
    hlen = hashlib.new(hname).digest_size

    def mac(k, m):
        return _hmac.new(k, m, hname).digest()
    bx = d.to_bytes(rolen, 'big') + (_bits2int(h1, qlen) % q).to_bytes(rolen, 'big')
    v, k = b'\x01' * hlen, b'\x00' * hlen
    k = mac(k, v + b'\x00' + bx)
    v = mac(k, v)
    k = mac(k, v + b'\x01' + bx)
    v = mac(k, v)
    while True:
        t = b''
        while len(t) * 8 < qlen:
            v = mac(k, v)
            t += v
        cand = _bits2int(t, qlen)
        if 1 <= cand < q:
            yield cand
        k = mac(k, v + b'\x00')
        v = mac(k, v)


def ecdsa_sign(alg, d, data):
    """Deterministic ECDSA (RFC 6979), r || s in fixed size."""
    _, curve, hname = algs.ECDSA[alg]
    _, size, q = EC[curve]
    h1 = hashlib.new(hname, data).digest()
    z = _bits2int(h1, q.bit_length())
    for k in rfc6979_k(curve, d, h1, hname):
        r = int.from_bytes(ec_pub.__wrapped__(curve, k)[0], 'big') % q
        if not r:
            continue
        s = pow(k, -1, q) * (z + r * d) % q
        if s:
            return r.to_bytes(size, 'big') + s.to_bytes(size, 'big')


def ecdsa_verify(alg, x, y, data, sig):
    _, curve, hname = algs.ECDSA[alg]
    _, size, _ = EC[curve]
    if len(sig) != 2 * size:
        return False
    der = asym_utils.encode_dss_signature(int.from_bytes(sig[:size], 'big'), int.from_bytes(sig[size:], 'big'))
    try:
        ec_public(curve, x, y).verify(der, data, ec.ECDSA(_HASH[hname]()))
        return True
    except InvalidSignature:
        return False


_HASH = {'sha1': hashes.SHA1, 'sha256': hashes.SHA256, 'sha384': hashes.SHA384, 'sha512': hashes.SHA512}

# ---------------------------------------------------------------- OKP

OKP = {'ED25519': (ed25519.Ed25519PrivateKey, ed25519.Ed25519PublicKey, 32),
       'ED448': (ed448.Ed448PrivateKey, ed448.Ed448PublicKey, 57),
       'X25519': (x25519.X25519PrivateKey, x25519.X25519PublicKey, 32),
       'X448': (x448.X448PrivateKey, x448.X448PublicKey, 56)}


@functools.lru_cache(maxsize=20000)
def okp_pub(curve, d):
    return OKP[curve][0].from_private_bytes(d).public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)


def eddsa_sign(curve, d, data):
    return OKP[curve][0].from_private_bytes(d).sign(data)


def eddsa_verify(curve, x, data, sig):
    try:
        OKP[curve][1].from_public_bytes(x).verify(sig, data)
        return True
    except InvalidSignature:
        return False

# ---------------------------------------------------------------- RSA


_rsa_cache = {}


def rsa_private(k):
    """k: dict of ints n, e, d, p, q, dp, dq, qinv."""
    c = (k['n'], k['e'], k['d'], k['p'])
    if c not in _rsa_cache:
        _rsa_cache[c] = rsa.RSAPrivateNumbers(k['p'], k['q'], k['d'], k['dp'], k['dq'], k['qinv'],
                                                   rsa.RSAPublicNumbers(k['e'], k['n'])).private_key()
    return _rsa_cache[c]


def rsa_pad(alg):
    if alg in algs.PSS:
        h = _HASH[algs.PSS[alg][1]]
        return padding.PSS(padding.MGF1(h()), h.digest_size), h()
    if alg in algs.PKCS1:
        return padding.PKCS1v15(), _HASH[algs.PKCS1[alg][1]]()
    h = _HASH[algs.OAEP[alg][1]]
    return padding.OAEP(padding.MGF1(h()), h(), None), None


def rsa_sign(alg, k, data):
    pad, h = rsa_pad(alg)
    return rsa_private(k).sign(data, pad, h)


def rsa_verify(alg, k, data, sig):
    pad, h = rsa_pad(alg)
    try:
        rsa.RSAPublicNumbers(k['e'], k['n']).public_key().verify(sig, data, pad, h)
        return True
    except InvalidSignature:
        return False


def oaep_wrap(alg, k, cek):
    return rsa.RSAPublicNumbers(k['e'], k['n']).public_key().encrypt(cek, rsa_pad(alg)[0])


def oaep_unwrap(alg, k, ct):
    return rsa_private(k).decrypt(ct, rsa_pad(alg)[0])

# ---------------------------------------------------------------- symmetric


def digest(alg, data):
    name = algs.HASHES[alg][0]
    if name == 'SHAKE-128':
        return hashlib.shake_128(data).digest(32)
    if name == 'SHAKE-256':
        return hashlib.shake_256(data).digest(64)
    h = {'SHA-1': 'sha1', 'SHA-256/64': 'sha256', 'SHA-256': 'sha256', 'SHA-384': 'sha384', 'SHA-512': 'sha512',
         'SHA-512/256': 'sha512'}[name]
    return hashlib.new(h, data).digest()[:algs.HASHES[alg][1]]


def _ecb(key):
    e = Cipher(_calgs.AES(key), modes.ECB()).encryptor()
    return e.update


def _ecb_dec(key):
    return Cipher(_calgs.AES(key), modes.ECB()).decryptor().update


def _xor(a, b):
    return (int.from_bytes(a, 'big') ^ int.from_bytes(b, 'big')).to_bytes(len(a), 'big')


def aes_cbc_mac(key, data, taglen):
    f = _ecb(key)
    data = data + b'\0' * (-len(data) % 16)
    c = b'\0' * 16
    for i in range(0, len(data), 16):
        c = f(_xor(c, data[i:i + 16]))
    return c[:taglen]


def mac_tag(alg, key, data):
    _, kind, h, _, taglen = algs.MAC[alg]
    if kind == 'hmac':
        return _hmac.new(key, data, h).digest()[:taglen]
    return aes_cbc_mac(key, data, taglen)


def aead_encrypt(alg, key, nonce, data, aad):
    _, kind, _, tag, _ = algs.ENC[alg]
    if kind == 'gcm':
        return AESGCM(key).encrypt(nonce, data, aad)
    return AESCCM(key, tag_length=tag).encrypt(nonce, data, aad)


def aes_ctr_hint(key, first, n):
    return b''.join(_ecb(key)((first + i).to_bytes(16, 'big')) for i in range(n))


def ccm_own(alg, key, nonce, data, aad):
    """AES-CCM (RFC 3610) from the block cipher alone."""
    tag = algs.ENC[alg][3]
    f = _ecb(key)
    ll = 15 - len(nonce)
    b0 = bytes([(64 if aad else 0) | ((tag - 2) // 2) << 3 | (ll - 1)]) + nonce + len(data).to_bytes(ll, 'big')
    blocks = b0
    if aad:
        pre = len(aad).to_bytes(2, 'big') if len(aad) < 0xff00 else b'\xff\xfe' + len(aad).to_bytes(4, 'big')
        a = pre + aad
        blocks += a + b'\0' * (-len(a) % 16)
    blocks += data + b'\0' * (-len(data) % 16)
    c = b'\0' * 16
    for i in range(0, len(blocks), 16):
        c = f(_xor(c, blocks[i:i + 16]))

    def s(i):
        return f(bytes([ll - 1]) + nonce + i.to_bytes(ll, 'big'))
    out = b''
    for i in range(0, len(data), 16):
        chunk = data[i:i + 16]
        out += _xor(chunk, s(i // 16 + 1)[:len(chunk)])
    return out + _xor(c[:tag], s(0)[:tag])


def kw_wrap(kek, cek):
    f = _ecb(kek)
    n = len(cek) // 8
    a = b'\xa6' * 8
    r = [cek[8 * i:8 * i + 8] for i in range(n)]
    for j in range(6):
        for i in range(n):
            b = f(a + r[i])
            a = _xor(b[:8], (n * j + i + 1).to_bytes(8, 'big'))
            r[i] = b[8:]
    return a + b''.join(r)


def kw_unwrap(kek, ct):
    f = _ecb_dec(kek)
    n = len(ct) // 8 - 1
    a = ct[:8]
    r = [ct[8 * i + 8:8 * i + 16] for i in range(n)]
    for j in range(5, -1, -1):
        for i in range(n - 1, -1, -1):
            b = f(_xor(a, (n * j + i + 1).to_bytes(8, 'big')) + r[i])
            a, r[i] = b[:8], b[8:]
    if a != b'\xa6' * 8:
        raise ValueError('key unwrap')
    return b''.join(r)


def hkdf(hname, secret, salt, info, length):
    hl = hashlib.new(hname).digest_size
    prk = _hmac.new(salt if salt else b'\0' * hl, secret, hname).digest()
    t, out, i = b'', b'', 1
    while len(out) < length:
        t = _hmac.new(prk, t + info + bytes([i]), hname).digest()
        out += t
        i += 1
    return out[:length]

# ---------------------------------------------------------------- COSE structures


def auth_prot(prot):
    """empty_or_serialized_map as it is authenticated: every encoding of the empty map becomes the empty string."""
    return b'' if prot in (b'', b'\xa0', b'\xb8\x00', b'\xb9\0\0', b'\xba\0\0\0\0', b'\xbb\0\0\0\0\0\0\0\0',
                           b'\xbf\xff') else prot


def sig_structure1(prot, aad, payload):
    return enc(['Signature1', auth_prot(prot), aad, payload])


def sig_structure(body_prot, sign_prot, aad, payload):
    return enc(['Signature', auth_prot(body_prot), auth_prot(sign_prot), aad, payload])


def enc_structure(context, prot, aad):
    return enc([context, auth_prot(prot), aad])


def mac_structure(context, prot, aad, payload):
    return enc([context, auth_prot(prot), aad, payload])


def kdf_context(alg, keybytes, u, v, prot, pub_other=None, priv=None):
    pub = [keybytes * 8, auth_prot(prot)]
    if pub_other:
        pub.append(pub_other)
    ctx = [alg, list(u), list(v), pub]
    if priv:
        ctx.append(priv)
    return enc(ctx)


def sign(alg, key, data):
    """key: a private key spec of build.py"""
    if alg in algs.ECDSA:
        return ecdsa_sign(alg, key['d'], data)
    if alg in algs.EDDSA:
        return eddsa_sign(key['crv'], key['d'], data)
    return rsa_sign(alg, fix.RSA[key['i']], data)


def verify(alg, key, data, sig):
    if alg in algs.ECDSA:
        x, y = ec_pub(key['crv'], key['d'])
        return ecdsa_verify(alg, x, y, data, sig)
    if alg in algs.EDDSA:
        return eddsa_verify(key['crv'], okp_pub(key['crv'], key['d']), data, sig)
    return rsa_verify(alg, fix.RSA[key['i']], data, sig)


def deterministic(alg):
    return alg in algs.ECDSA or alg in algs.EDDSA or alg in algs.PKCS1


def foreign_sign(alg, key, data, variant):
    """A signature by the same private key over the same bytes in a scheme other than the one alg stands for, or None."""
    if alg in algs.EDDSA:
        # over the digest of the data, as in the prehashed variants
        return eddsa_sign(key['crv'], key['d'], hashlib.sha512(data).digest())
    hs = [hashes.SHA256, hashes.SHA384, hashes.SHA512, hashes.SHA1, hashes.SHA224]
    h = hs[variant % 5]
    if alg in algs.ECDSA:
        crv = key['crv']
        if h is {'P_256': hashes.SHA256, 'P_384': hashes.SHA384, 'P_521': hashes.SHA512}[crv]:
            return None
        n = EC[crv][1]
        r, s = asym_utils.decode_dss_signature(ec_private(crv, key['d']).sign(data, ec.ECDSA(h())))
        return r.to_bytes(n, 'big') + s.to_bytes(n, 'big')
    own = _HASH[(algs.PSS.get(alg) or algs.PKCS1[alg])[1]]
    sk = rsa_private(fix.RSA[key['i']])
    how = variant // 5 % 6
    if how == 0:
        pad, same = padding.PKCS1v15(), alg in algs.PKCS1 and h is own
    elif how == 1:
        # the hash of the algorithm with another salt length
        h, pad, same = own, padding.PSS(padding.MGF1(own()), [0, 20, 33, 1, 8][variant % 5]), False
        same = alg in algs.PSS and [0, 20, 33, 1, 8][variant % 5] == own.digest_size
    elif how == 2:
        h, pad, same = own, padding.PSS(padding.MGF1(own()), padding.PSS.MAX_LENGTH), False
        same = alg in algs.PSS and padding.calculate_max_pss_salt_length(sk, own()) == own.digest_size
    elif how == 3:
        # another hash in the mask generation
        pad, same, h = padding.PSS(padding.MGF1(h()), own.digest_size), alg in algs.PSS and h is own, own
    elif how == 4:
        # the other way round
        pad, same = padding.PSS(padding.MGF1(own()), h.digest_size), alg in algs.PSS and h is own
    else:
        pad, same = padding.PSS(padding.MGF1(h()), h.digest_size), alg in algs.PSS and h is own
    if same:
        return None
    try:
        return sk.sign(data, pad, h())
    except ValueError:
        return None     # the key is too small
