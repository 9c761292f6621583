"""What the standards say about the algorithms, key types, labels ... (independent of the code under test)."""

# id: (name, python hash)
HASHES = {
    -14: ('SHA-1', 20), -15: ('SHA-256/64', 8), -16: ('SHA-256', 32), -17: ('SHA-512/256', 32),
    -18: ('SHAKE-128', 32), -43: ('SHA-384', 48), -44: ('SHA-512', 64), -45: ('SHAKE-256', 64),
}

ECDSA = {-7: ('ES256', 'P_256', 'sha256'), -35: ('ES384', 'P_384', 'sha384'), -36: ('ES512', 'P_521', 'sha512')}
EDDSA = {-8: ('EDDSA',)}
PSS = {-37: ('PS256', 'sha256'), -38: ('PS384', 'sha384'), -39: ('PS512', 'sha512')}
PKCS1 = {-257: ('RS256', 'sha256'), -258: ('RS384', 'sha384'), -259: ('RS512', 'sha512'), -65535: ('RS1', 'sha1')}
SIGN = [-7, -35, -36, -8, -37, -38, -39, -257, -258, -259, -65535]

# id: (name, kind, key bytes, tag bytes, nonce bytes)
ENC = {
    1: ('A128GCM', 'gcm', 16, 16, 12), 2: ('A192GCM', 'gcm', 24, 16, 12), 3: ('A256GCM', 'gcm', 32, 16, 12),
    10: ('AES_CCM_16_64_128', 'ccm', 16, 8, 13), 11: ('AES_CCM_16_64_256', 'ccm', 32, 8, 13),
    12: ('AES_CCM_64_64_128', 'ccm', 16, 8, 7), 13: ('AES_CCM_64_64_256', 'ccm', 32, 8, 7),
    30: ('AES_CCM_16_128_128', 'ccm', 16, 16, 13), 31: ('AES_CCM_16_128_256', 'ccm', 32, 16, 13),
    32: ('AES_CCM_64_128_128', 'ccm', 16, 16, 7), 33: ('AES_CCM_64_128_256', 'ccm', 32, 16, 7),
}

# id: (name, kind, hash or None, key bytes for a delivered key, tag bytes)
MAC = {
    4: ('HMAC_256_64', 'hmac', 'sha256', 32, 8), 5: ('HMAC_256', 'hmac', 'sha256', 32, 32),
    6: ('HMAC_384', 'hmac', 'sha384', 48, 48), 7: ('HMAC_512', 'hmac', 'sha512', 64, 64),
    14: ('AES_MAC_128_64', 'aesmac', None, 16, 8), 15: ('AES_MAC_256_64', 'aesmac', None, 32, 8),
    25: ('AES_MAC_128_128', 'aesmac', None, 16, 16), 26: ('AES_MAC_256_128', 'aesmac', None, 32, 16),
}
# MAC algorithms whose delivered key fits the library's symmetric keys (16, 24 or 32 bytes)
MAC_DELIVERABLE = [4, 5, 14, 15, 25, 26]

KW = {-3: ('A128KW', 16), -4: ('A192KW', 24), -5: ('A256KW', 32)}
OAEP = {-40: ('RSAES_OAEP_SHA_1', 'sha1'), -41: ('RSAES_OAEP_SHA_256', 'sha256'), -42: ('RSAES_OAEP_SHA_512', 'sha512')}
DIRECT = -6
# id: (name, ephemeral?, hkdf hash, kw alg or None)
ECDH = {
    -25: ('ECDH_ES_HKDF_256', True, 'sha256', None), -26: ('ECDH_ES_HKDF_512', True, 'sha512', None),
    -27: ('ECDH_SS_HKDF_256', False, 'sha256', None), -28: ('ECDH_SS_HKDF_512', False, 'sha512', None),
    -29: ('ECDH_ES_A128KW', True, 'sha256', -3), -30: ('ECDH_ES_A192KW', True, 'sha256', -4),
    -31: ('ECDH_ES_A256KW', True, 'sha256', -5), -32: ('ECDH_SS_A128KW', False, 'sha256', -3),
    -33: ('ECDH_SS_A192KW', False, 'sha256', -4), -34: ('ECDH_SS_A256KW', False, 'sha256', -5),
}
DKA = [-25, -26, -27, -28]
KAKW = [-29, -30, -31, -32, -33, -34]
OTHER_ALGS = {-10: 'DIRECT_HKDF_SHA_256', -11: 'DIRECT_HKDF_SHA_512', -12: 'DIRECT_HKDF_AES_128',
              -13: 'DIRECT_HKDF_AES_256', -6: 'DIRECT'}

ALG_NAMES = {}
for _t in (HASHES, ECDSA, EDDSA, PSS, PKCS1, ENC, MAC, KW, OAEP, ECDH):
    for _i, _v in _t.items():
        ALG_NAMES[_i] = _v[0]
ALG_NAMES.update(OTHER_ALGS)

# class names in pycose.algorithms: part of the public interface
ALG_CLASSES = {
    -65535: 'RsaPkcs1Sha1', -259: 'RsaPkcs1Sha512', -258: 'RsaPkcs1Sha384', -257: 'RsaPkcs1Sha256', -45: 'Shake256',
    -44: 'Sha512', -43: 'Sha384', -42: 'RsaesOaepSha512', -41: 'RsaesOaepSha256', -40: 'RsaesOaepSha1', -39: 'Ps512',
    -38: 'Ps384', -37: 'Ps256', -36: 'Es512', -35: 'Es384', -34: 'EcdhSsA256KW', -33: 'EcdhSsA192KW',
    -32: 'EcdhSsA128KW', -31: 'EcdhEsA256KW', -30: 'EcdhEsA192KW', -29: 'EcdhEsA128KW', -28: 'EcdhSsHKDF512',
    -27: 'EcdhSsHKDF256', -26: 'EcdhEsHKDF512', -25: 'EcdhEsHKDF256', -18: 'Shake128', -17: 'Sha512Trunc256',
    -16: 'Sha256', -15: 'Sha256Trunc64', -14: 'Sha1', -13: 'DirectHKDFAES256', -12: 'DirectHKDFAES128',
    -11: 'DirecHKDFSHA512', -10: 'DirectHKDFSHA256', -8: 'EdDSA', -7: 'Es256', -6: 'Direct', -5: 'A256KW',
    -4: 'A192KW', -3: 'A128KW', 1: 'A128GCM', 2: 'A192GCM', 3: 'A256GCM', 4: 'HMAC25664', 5: 'HMAC256',
    6: 'HMAC384', 7: 'HMAC512', 10: 'AESCCM1664128', 11: 'AESCCM1664256', 12: 'AESCCM6464128', 13: 'AESCCM6464256',
    14: 'AESMAC12864', 15: 'AESMAC25664', 25: 'AESMAC128128', 26: 'AESMAC256128', 30: 'AESCCM16128128',
    31: 'AESCCM16128256', 32: 'AESCCM64128128', 33: 'AESCCM64128256',
}

# label: (class name, full name)
HEADERS = {
    0: ('Reserved', 'RESERVED'), 1: ('Algorithm', 'ALG'), 2: ('Critical', 'CRITICAL'),
    3: ('ContentType', 'CONTENT_TYPE'), 4: ('KID', 'KID'), 5: ('IV', 'IV'), 6: ('PartialIV', 'PARTIAL_IV'),
    7: ('CounterSignature', 'COUNTER_SIGN'), 9: ('CounterSignature0', 'COUNTER_SIGN0'),
    10: ('KIDContext', 'KID_CONTEXT'), 32: ('X5bag', 'X5_BAG'), 33: ('X5chain', 'X5_CHAIN'), 34: ('X5t', 'X5_T'),
    35: ('X5u', 'X5_U'), -1: ('EphemeralKey', 'EPHEMERAL_KEY'), -2: ('StaticKey', 'STATIC_KEY'),
    -3: ('StaticKeyID', 'STATIC_KEY_ID'), -20: ('Salt', 'SALT'), -21: ('PartyUID', 'PARTY_U_ID'),
    -22: ('PartyUNonce', 'PARTY_U_NONCE'), -23: ('PartyUOther', 'PARTY_U_OTHER'), -24: ('PartyVID', 'PARTY_V_ID'),
    -25: ('PartyVNonce', 'PARTY_V_NONCE'), -26: ('PartyVOther', 'PARTY_V_OTHER'),
}
KTYS = {0: ('KtyReserved', 'RESERVED'), 1: ('KtyOKP', 'OKP'), 2: ('KtyEC2', 'EC2'), 3: ('KtyRSA', 'RSA'),
        4: ('KtySymmetric', 'SYMMETRIC')}
KEYOPS = {1: ('SignOp', 'SIGN'), 2: ('VerifyOp', 'VERIFY'), 3: ('EncryptOp', 'ENCRYPT'), 4: ('DecryptOp', 'DECRYPT'),
          5: ('WrapOp', 'WRAP'), 6: ('UnwrapOp', 'UNWRAP'), 7: ('DeriveKeyOp', 'DERIVE_KEY'),
          8: ('DeriveBitsOp', 'DERIVE_BITS'), 9: ('MacCreateOp', 'MAC_CREATE'), 10: ('MacVerifyOp', 'MAC_VERIFY')}
# id: (class, full name, kty, size)
CURVES = {0: ('Reserved', 'RESERVED', None, 0), 1: ('P256', 'P_256', 2, 32), 2: ('P384', 'P_384', 2, 48),
          3: ('P521', 'P_521', 2, 66), 4: ('X25519', 'X25519', 1, 32), 5: ('X448', 'X448', 1, 56),
          6: ('Ed25519', 'ED25519', 1, 32), 7: ('Ed448', 'ED448', 1, 57), 8: ('SECP256K1', 'SECP256K1', 2, 32)}
CURVE_ID = {v[1]: k for k, v in CURVES.items()}
KP_COMMON = {1: ('KpKty', 'KTY'), 2: ('KpKid', 'KID'), 3: ('KpAlg', 'ALG'), 4: ('KpKeyOps', 'KEY_OPS'),
             5: ('KpBaseIV', 'BASE_IV')}
KP_EC2 = {-1: ('EC2KpCurve', 'CURVE'), -2: ('EC2KpX', 'X'), -3: ('EC2KpY', 'Y'), -4: ('EC2KpD', 'D')}
KP_OKP = {-1: ('OKPKpCurve', 'CURVE'), -2: ('OKPKpX', 'X'), -4: ('OKPKpD', 'D')}
KP_RSA = {-1: ('RSAKpN', 'N'), -2: ('RSAKpE', 'E'), -3: ('RSAKpD', 'D'), -4: ('RSAKpP', 'P'), -5: ('RSAKpQ', 'Q'),
          -6: ('RSAKpDP', 'DP'), -7: ('RSAKpDQ', 'DQ'), -8: ('RSAKpQInv', 'QINV'), -9: ('RSAKpOther', 'OTHER'),
          -10: ('RSAKpRi', 'R_I'), -11: ('RSAKpDi', 'D_I'), -12: ('RSAKpTi', 'T_I')}
KP_SYM = {-1: ('SymKpK', 'K')}
KP_BY_KTY = {1: KP_OKP, 2: KP_EC2, 3: KP_RSA, 4: KP_SYM}
KEYCLS_BY_KTY = {1: 'OKPKey', 2: 'EC2Key', 3: 'RSAKey', 4: 'SymmetricKey'}

TAGS = {16: 'Enc0Message', 17: 'Mac0Message', 18: 'Sign1Message', 96: 'EncMessage', 97: 'MacMessage', 98: 'SignMessage'}
