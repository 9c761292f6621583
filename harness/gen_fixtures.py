"""Makes fixtures/*.json (committed). Needs no network; not run by the checks."""
import datetime
import json
import math
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refcose as R  # noqa

rnd = random.Random(20240607)
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures')


def is_prime(n):
    if n % 2 == 0:
        return n == 2
    for p in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for _ in range(20):
        a = rnd.randrange(2, n - 1)
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def prime(bits, e):
    while True:
        p = rnd.getrandbits(bits) | 1 | 3 << (bits - 2)
        if math.gcd(p - 1, e) == 1 and is_prime(p):
            return p


def rsa_key(bits, e=65537, cond=None):
    while True:
        p = prime((bits + 1) // 2, e)
        q = prime(bits - (bits + 1) // 2, e)
        if p < q:
            p, q = q, p
        n = p * q
        if n.bit_length() != bits:
            continue
        d = pow(e, -1, (p - 1) * (q - 1) // math.gcd(p - 1, q - 1))
        k = dict(n=n, e=e, d=d, p=p, q=q, dp=d % (p - 1), dq=d % (q - 1), qinv=pow(q, -1, p))
        if cond is None or cond(k):
            return k


def blen(x):
    return (x.bit_length() + 7) // 8


def main():
    keys = [rsa_key(1024), rsa_key(1024, 3), rsa_key(1025), rsa_key(1031, 17), rsa_key(1040),
            rsa_key(1536), rsa_key(2048), rsa_key(2048, 3), rsa_key(2048), rsa_key(2049), rsa_key(3072)]
    base = keys[0]
    p, q = base['p'], base['q']

    def short(field):
        # choose e so that a CRT value gets a leading zero byte
        e = 65537
        while True:
            e += 2
            if math.gcd(e, (p - 1) * (q - 1)) != 1:
                continue
            d = pow(e, -1, (p - 1) * (q - 1) // math.gcd(p - 1, q - 1))
            k = dict(n=p * q, e=e, d=d, p=p, q=q, dp=d % (p - 1), dq=d % (q - 1), qinv=pow(q, -1, p))
            if blen(k[field]) < blen(dict(dp=p, dq=q, d=p * q)[field]):
                return k
    keys += [short('dp'), short('dq'), short('d')]

    def again(p, q, e, least=True):
        m = (p - 1) * (q - 1) // (math.gcd(p - 1, q - 1) if least else 1)
        d = pow(e, -1, m)
        return dict(n=p * q, e=e, d=d, p=p, q=q, dp=d % (p - 1), dq=d % (q - 1), qinv=pow(q, -1, p))

    # the smaller prime first, a private exponent above lcm(p-1, q-1), a long public exponent
    for i in (1, 3, 5, 7, 8):
        keys[i] = again(keys[i]['q'], keys[i]['p'], keys[i]['e'], i != 5)
    keys[4] = again(keys[4]['p'], keys[4]['q'], 0x1000000017, False)
    json.dump([{k: hex(v) for k, v in key.items()} for key in keys], open(OUT + '/rsa.json', 'w'), indent=0)

    pools = {}
    for curve, (_, size, q) in R.EC.items():
        pool = {1, 2, 3, q - 1, q - 2, 255, 256, (1 << (8 * (size - 1))) - 1}
        want = {'d': 3, 'x': 4, 'y': 4, 'xx': 1}
        while any(v > 0 for v in want.values()):
            d = rnd.randrange(1, q)
            x, y = R.ec_pub.__wrapped__(curve, d)
            if curve == 'P_521':
                # the top byte holds one bit only: "leading zero" is about the second byte as well
                lead = lambda b: b[0] == 0 and b[1] == 0
            else:
                lead = lambda b: b[0] == 0
            db = d.to_bytes(size, 'big')
            if lead(db) and want['d'] > 0:
                want['d'] -= 1
                pool.add(d)
            if lead(x) and want['x'] > 0:
                want['x'] -= 1
                pool.add(d)
            if lead(y) and want['y'] > 0:
                want['y'] -= 1
                pool.add(d)
            if lead(x) and lead(y[:1] + y[1:]) or want['x'] <= 0:
                want['xx'] = 0
        pairs = []
        while len(pairs) < 4:
            a, b = rnd.randrange(1, q), rnd.randrange(1, q)
            s = R.ec_pub.__wrapped__(curve, a * b % q)[0]
            if lead(s):
                pairs.append([hex(a), hex(b)])
        pools[curve] = {'scalars': [hex(v) for v in sorted(pool)], 'ecdh': pairs}
    json.dump(pools, open(OUT + '/ec.json', 'w'), indent=0)

    # certificates
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.x509.oid import NameOID
    t0, t1 = datetime.datetime(2020, 1, 1), datetime.datetime(2099, 1, 1)

    def cert(subject, key, issuer, ikey, ca, serial, until=t1):
        b = x509.CertificateBuilder().subject_name(x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, subject)])) \
            .issuer_name(x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, issuer)])).public_key(key.public_key()) \
            .serial_number(serial).not_valid_before(t0).not_valid_after(until) \
            .add_extension(x509.BasicConstraints(ca=ca, path_length=None), critical=True) \
            .add_extension(x509.KeyUsage(True, False, False, False, False, ca, ca, False, False), critical=True) \
            .add_extension(x509.SubjectKeyIdentifier.from_public_key(key.public_key()), critical=False) \
            .add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(ikey.public_key()), critical=False)
        return b.sign(ikey, hashes.SHA256()).public_bytes(serialization.Encoding.DER).hex()
    ks = [R.ec_private('P_256', rnd.randrange(1, R.EC['P_256'][2])) for _ in range(6)]
    certs = {'root': cert('root', ks[0], 'root', ks[0], True, 1),
             'inter': cert('inter', ks[1], 'root', ks[0], True, 2),
             'leaf': cert('leaf', ks[2], 'inter', ks[1], False, 3),
             'self': cert('self', ks[3], 'self', ks[3], False, 4),
             'leaf2': cert('leaf2', ks[4], 'root', ks[0], False, 5),
             'expired': cert('old', ks[5], 'inter', ks[1], False, 6, datetime.datetime(2021, 1, 1))}
    json.dump(certs, open(OUT + '/certs.json', 'w'), indent=0)


if __name__ == '__main__':
    main()
