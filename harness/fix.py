"""Committed fixtures: RSA keys, elliptic-curve scalars with awkward encodings, certificates."""
import json
import os

_D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures')


def _load(n):
    with open(os.path.join(_D, n)) as f:
        return json.load(f)


RSA = [{k: int(v, 16) for k, v in k_.items()} for k_ in _load('rsa.json')]
RSA_BITS = [k['n'].bit_length() for k in RSA]
_ec = _load('ec.json')
EC_POOL = {c: [int(s, 16) for s in v['scalars']] for c, v in _ec.items()}
EC_PAIRS = {c: [(int(a, 16), int(b, 16)) for a, b in v['ecdh']] for c, v in _ec.items()}
CERTS = {k: bytes.fromhex(v) for k, v in _load('certs.json').items()}


def rsa_fits(alg):
    """Indices of the RSA keys which are large enough for the algorithm (with a 32-byte CEK for OAEP)."""
    need = {-37: 32 + 32 + 2, -38: 98, -39: 130, -257: 62, -258: 78, -259: 94, -65535: 46,
            -40: 32 + 42, -41: 32 + 66, -42: 32 + 130}[alg]
    # PSS works on an encoded message of modulus bits - 1
    return [i for i, b in enumerate(RSA_BITS) if ((b - 1 if alg in (-37, -38, -39) else b) + 7) // 8 >= need]
