"""Writes fixtures/pki.json and fixtures/trust.pem: a small certificate world for the chain checks (run once; committed)."""
import base64
import datetime
import json
import os
import random

from cryptography import x509
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.x509.oid import NameOID

import refcose as R

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures')
T0, T1 = datetime.datetime(2020, 1, 1), datetime.datetime(2099, 1, 1)
OLD, LATER = datetime.datetime(2021, 1, 1), datetime.datetime(2090, 1, 1)

# name: (subject, issuer name, signing certificate, is a CA, path length, from, until, may sign)
WORLD = {
    'root': ('root', 'root', 'root', True, None, T0, T1, True),
    'fakeroot': ('root', 'root', 'fakeroot', True, None, T0, T1, True),
    'uroot': ('uroot', 'uroot', 'uroot', True, None, T0, T1, True),
    'i1': ('i1', 'root', 'root', True, None, T0, T1, True),
    'i2': ('i2', 'i1', 'i1', True, None, T0, T1, True),
    'i3': ('i3', 'i2', 'i2', True, None, T0, T1, True),
    'fi1': ('i1', 'root', 'fakeroot', True, None, T0, T1, True),
    'u1': ('u1', 'uroot', 'uroot', True, None, T0, T1, True),
    'notca': ('notca', 'root', 'root', False, None, T0, T1, True),
    'oldca': ('oldca', 'root', 'root', True, None, T0, OLD, True),
    'nextca': ('nextca', 'root', 'root', True, None, LATER, T1, True),
    'short': ('short', 'root', 'root', True, 0, T0, T1, True),
    'below': ('below', 'short', 'short', True, None, T0, T1, True),
    'l0': ('l0', 'root', 'root', False, None, T0, T1, True),
    'l1': ('l1', 'i1', 'i1', False, None, T0, T1, True),
    'l2': ('l2', 'i2', 'i2', False, None, T0, T1, True),
    'l3': ('l3', 'i3', 'i3', False, None, T0, T1, True),
    'lu': ('lu', 'uroot', 'uroot', False, None, T0, T1, True),
    'lu1': ('lu1', 'u1', 'u1', False, None, T0, T1, True),
    'lf0': ('lf0', 'root', 'fakeroot', False, None, T0, T1, True),
    'lf1': ('lf1', 'i1', 'fi1', False, None, T0, T1, True),
    'lx': ('lx', 'i1', 'i2', False, None, T0, T1, True),
    'lnotca': ('lnotca', 'notca', 'notca', False, None, T0, T1, True),
    'loldca': ('loldca', 'oldca', 'oldca', False, None, T0, T1, True),
    'lnextca': ('lnextca', 'nextca', 'nextca', False, None, T0, T1, True),
    'lshort': ('lshort', 'short', 'short', False, None, T0, T1, True),
    'lbelow': ('lbelow', 'below', 'below', False, None, T0, T1, True),
    'lold': ('lold', 'i1', 'i1', False, None, T0, OLD, True),
    'lnext': ('lnext', 'i1', 'i1', False, None, LATER, T1, True),
    'lnosig': ('lnosig', 'i1', 'i1', False, None, T0, T1, False),
    'self': ('self', 'self', 'self', False, None, T0, T1, True),
}


def main():
    rnd = random.Random(24)
    keys = {n: R.ec_private('P_256', rnd.randrange(1, R.EC['P_256'][2])) for n in WORLD}

    def name(n):
        return x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, n)])
    certs = {}
    for i, (n, (sub, iss, signer, ca, plen, start, end, may)) in enumerate(WORLD.items()):
        b = x509.CertificateBuilder().subject_name(name(sub)).issuer_name(name(iss)).public_key(keys[n].public_key()) \
            .serial_number(100 + i).not_valid_before(start).not_valid_after(end) \
            .add_extension(x509.BasicConstraints(ca=ca, path_length=plen), critical=True) \
            .add_extension(x509.KeyUsage(may, False, not may, False, False, ca, ca, False, False), critical=True)
        if i % 2:
            # with and without key identifiers
            b = b.add_extension(x509.SubjectKeyIdentifier.from_public_key(keys[n].public_key()), critical=False)
        c = b.sign(keys[signer], hashes.SHA256()).public_bytes(serialization.Encoding.DER)
        certs[n] = {'der': c.hex(), 'subject': sub, 'issuer': iss, 'by': signer, 'ca': ca, 'len': plen,
                    'valid': start == T0 and end == T1, 'may': may}
    json.dump(certs, open(OUT + '/pki.json', 'w'), indent=0)
    with open(OUT + '/trust.pem', 'wb') as f:
        f.write(b'-----BEGIN CERTIFICATE-----\n' + base64.encodebytes(bytes.fromhex(certs['root']['der'])) +
                b'-----END CERTIFICATE-----\n')


if __name__ == '__main__':
    main()
