"""C24 Hashes and certificate attributes are correct."""
import json
import os

os.environ['SSL_CERT_FILE'] = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
                                           'fixtures', 'trust.pem')

import cbor2
from cryptography import x509
import hypothesis.strategies as st

import algs
import build as B
import fix
import gen as G
import msgs as M
import refcose as R
from core import Facet, attempt, eq, expect, fail, is_true, Raised, same, short
from pycose.extensions.x509 import X5Bag, X5Chain, X5T, X5U
from refcbor import Tag, enc

H = B.pycose.headers
RULE = ('Every hash algorithm over generated data (empty, around every block boundary, large) against hashlib; thumbprints made '
        'from, and matched against, generated and real certificates, near misses of the certificate and of the thumbprint, and '
        'after a trip through either header bucket of every message kind; bags and chains of 1..6 certificates in generated '
        'order through messages; generated chains from a world of 31 certificates (untrusted and forged roots, wrong signers, '
        'expired, not yet valid, not a CA, too long a path, wrong usage, tampered bytes, missing or shuffled intermediates) '
        'against an own path search over the ground truth, with one trusted root. Non-trivial: data of a length other than 0, a '
        'near miss, a trip through a message, or a chain whose end certificate could not be reached by trivial means.')
ASSUMPTIONS = ['the trusted roots are the ones of the operating system (here: SSL_CERT_FILE with one root)',
               'an empty list of certificates is not a bag or a chain',
               'SHA-512/256 is SHA-512 truncated to 32 bytes (as the library documents it)']
ALGS = sorted(algs.HASHES)
alg = st.sampled_from(ALGS)
with open(os.path.join(os.path.dirname(os.environ['SSL_CERT_FILE']), 'pki.json')) as _f:
    PKI = json.load(_f)
DER = {n: bytes.fromhex(c['der']) for n, c in PKI.items()}
BLOCKS = sorted({n * b + k for b in (64, 128, 136, 168) for n in (1, 2, 3) for k in (-18, -17, -16, -9, -8, -2, -1, 0, 1, 2)})


@st.composite
def data(draw):
    c = draw(st.integers(0, 9))
    if c < 5:
        return draw(G.blob())
    if c < 8:
        return G.expand(draw(st.integers(0, 99)), draw(st.sampled_from(BLOCKS)))
    return DER[draw(st.sampled_from(sorted(DER)))]


# ------------------------------------------------------------------------------------------- hashes

@st.composite
def hashing(draw):
    return {'a': draw(alg), 'd': draw(data()), 'again': draw(G.blob(0, 100))}


def check_hash(c, rec):
    cls = B.alg_class(c['a'])
    got = cls.compute_hash(c['d'])
    expect(type(got) is bytes, '%s gave %s', algs.ALG_NAMES[c['a']], short(got))
    eq(len(got), algs.HASHES[c['a']][1], 'digest length of %s' % algs.ALG_NAMES[c['a']])
    eq(got, R.digest(c['a'], c['d']), 'digest of %s over %d bytes' % (algs.ALG_NAMES[c['a']], len(c['d'])))
    eq(cls.compute_hash(c['again']), R.digest(c['a'], c['again']), 'second digest')
    eq(B.pycose.algorithms.CoseAlgorithm.from_id(c['a']).compute_hash(c['d']), got, 'digest again')
    if c['d']:
        rec.nt()
    rec.label(algs.ALG_NAMES[c['a']])


# ------------------------------------------------------------------------------------------- thumbprints

@st.composite
def thumb(draw):
    out = {'a': draw(alg), 'd': draw(data()), 'cb': draw(st.booleans()), 'sp': draw(st.integers(0, 4)), 'e': None}
    out['e'] = draw(st.one_of(st.none(), st.tuples(st.sampled_from(['flip', 'cut', 'ext', 'other', 'wrap', 'ends']),
                                                   st.integers(0, 10**6), st.integers(0, 7), G.blob(0, 40))))
    out['t'] = draw(st.one_of(st.none(), st.tuples(
        st.sampled_from(['flip', 'cut', 'ext', 'empty', 'alg', 'front', 'zero', 'none', 'other', 'prefix']),
        st.integers(0, 10**6), st.integers(0, 7), alg)))
    out['via'] = draw(st.one_of(st.none(), st.tuples(st.sampled_from(sorted(M.CLASS)), st.sampled_from(['phdr', 'uhdr']),
                                                     st.booleans(), st.sampled_from(['wire', 'class']))))
    return out


def edit_cert(d, e):
    t, at, bit, other = e
    if t == 'flip' and d:
        at %= len(d)
        return d[:at] + bytes([d[at] ^ 1 << bit]) + d[at + 1:]
    if t == 'cut':
        return d[:-1 - at % 5]
    if t == 'ext':
        return d + bytes([bit]) * (1 + at % 3)
    if t == 'other':
        return other
    if t == 'wrap':
        return enc(d)
    return d[:1] + d[-1:]


def edit_print(t, a, e, cert):
    """-> (algorithm, thumbprint) next to the right one"""
    k, at, bit, a2 = e
    if k == 'flip':
        at %= len(t)
        return a, t[:at] + bytes([t[at] ^ 1 << bit]) + t[at + 1:]
    if k == 'cut':
        return a, t[:at % len(t)]
    if k == 'ext':
        return a, t + bytes(1 + at % 5)
    if k == 'empty':
        return a, b''
    if k == 'alg':
        return a2, t
    if k == 'front':
        return a, t[at % len(t):]
    if k == 'zero':
        return a, bytes(len(t))
    if k == 'none':
        return a, None
    if k == 'other':
        return a, R.digest(a2, cert)
    # a longer digest than the algorithm's
    return a, R.digest(-44, cert)[:at % 65]


def message_with(label, value, via, key='kid'):
    """A decoded message which carries [label: value] in one of its buckets."""
    kind, bucket, tstr, form = via
    hv = {(B.hdr_class(label), label)[tstr]: value}
    a, other = {'s': -8, 'm': 5, 'e': 1}[kind[0]], 'uhdr' if bucket == 'phdr' else 'phdr'
    if kind.startswith('sign'):
        k = B.key({'kt': 'okp', 'crv': 'ED25519', 'd': b'\1' * 32})
    else:
        k = B.key({'kt': 'sym', 'k': b'\2' * 16})
    kw = {bucket: hv, 'payload': b'payload'}
    ah = {H.Algorithm: B.alg_class(a)}
    if kind[0] == 'e':
        ah[H.IV] = b'\3' * 12
    if kind == 'sign':
        kw['signers'] = [B.CoseSignature(phdr=ah, key=k)]
    else:
        kw[other] = ah
        kw['key'] = k
    if kind in ('enc', 'mac'):
        kw['recipients'] = [B.pycose.messages.recipient.DirectEncryption(uhdr={H.Algorithm: B.pycose.algorithms.Direct})]
    m = M.CLASS[kind](**kw)
    wire = m.encode()
    node = B.parse(wire, M.TAG[kind])
    u = node[1] if bucket == 'uhdr' else cbor2.loads(node[0])
    got = B.CoseMessage.decode(wire)
    return u[label], getattr(got, bucket)[B.hdr_class(label)], got.get_attr(B.hdr_class(label))


def check_thumb(c, rec):
    cls, cert = B.alg_class(c['a']), c['d']
    want = R.digest(c['a'], cert)
    t = X5T.from_certificate(cls, enc(cert) if c['cb'] else cert, c['cb'])
    if not c['cb']:
        eq(X5T.from_certificate(cls, cert).thumbprint, want, 'thumbprint, by default')
    expect(t.alg is cls, 'algorithm of the thumbprint: %s', short(t.alg))
    eq(t.thumbprint, want, 'thumbprint')
    eq(t.encode(), [cls, want], 'encoding of the thumbprint')
    is_true('the certificate itself matches', t.matches(cert))
    is_true('the encoded certificate matches', t.matches(enc(cert), True))
    is_true('the thumbprint equals itself', t == X5T(cls, want))
    ident = B.spell_alg(c['a'], c['sp'])
    t2 = X5T.decode([ident, want])
    is_true('the decoded thumbprint is the same', t2 == t and t2.alg is cls and t2.thumbprint == want)
    alg2, print2, cert2 = c['a'], want, cert
    if c['t']:
        alg2, print2 = edit_print(want, c['a'], c['t'], cert)
    if c['e']:
        cert2 = edit_cert(cert, c['e'])
    if c['via'] and print2 is not None:
        value = X5T(B.alg_class(alg2), print2).encode() if c['via'][3] == 'class' else [alg2, print2]
        wire, h, h2 = message_with(34, value, c['via'])
        eq(wire, [alg2, print2], 'thumbprint on the wire')
        eq(h2, h, 'thumbprint from get_attr')
        t3 = X5T.decode(h)
        eq(t3.encode(), [B.alg_class(alg2), print2], 'thumbprint after transport')
        rec.label('transport')
        rec.nt()
    else:
        t3 = X5T(B.alg_class(alg2), print2)
    yes = bool(print2) and print2 == R.digest(alg2, cert2)
    eq(attempt(t3.matches, cert2), yes, 'matches() for %s over %d bytes' % (algs.ALG_NAMES[alg2], len(cert2)))
    eq(attempt(t3.matches, enc(cert2), True), yes, 'matches() for the encoded certificate')
    eq(attempt(lambda: t3 == t), alg2 == c['a'] and print2 == want, 'equality of thumbprints')
    if not yes:
        rec.nt()
    rec.label('match' if yes else 'no match')


# ------------------------------------------------------------------------------------------- bags, chains, URIs

@st.composite
def bag(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 5, 6]))
    certs = draw(st.lists(st.one_of(st.sampled_from(sorted(DER)).map(DER.get), G.blob(0, 80), G.blob(1, 1)), min_size=n, max_size=n))
    if draw(st.integers(0, 3)) == 0:
        certs[-1] = certs[0]
    return {'c': certs, 'bare': draw(st.booleans()), 'cls': draw(st.sampled_from([32, 33])), 'uri': draw(G.text),
            'via': [draw(st.sampled_from(sorted(M.CLASS))), draw(st.sampled_from(['phdr', 'uhdr'])), draw(st.booleans()), '']}


def check_bag(c, rec):
    certs = c['c']
    given = certs[0] if len(certs) == 1 and c['bare'] else list(certs)
    want = certs[0] if len(certs) == 1 else list(certs)
    cls = X5Bag if c['cls'] == 32 else X5Chain
    obj = cls(given)
    eq(obj.encode(), want, 'encoding of %d certificates' % len(certs))
    eq(obj.encode(), want, 'second encoding')
    wire, h, h2 = message_with(c['cls'], obj.encode(), c['via'])
    eq(wire, want, 'certificates on the wire')
    eq(h, want, 'certificates after transport')
    eq(h2, want, 'certificates from get_attr')
    eq(cls(h).encode(), want, 'encoding of the received certificates')
    if not (len(certs) == 1 and c['bare']):
        eq(given, list(certs), "the caller's list")
    eq(X5U(c['uri']).encode(), c['uri'], 'URI')
    _, h, _ = message_with(35, X5U(c['uri']).encode(), c['via'])
    eq(h, c['uri'], 'URI after transport')
    rec.nt()
    rec.label('%d certificates' % len(certs))


# ------------------------------------------------------------------------------------------- chain verification

def usages(der):
    ku = x509.load_der_x509_certificate(der).extensions.get_extension_for_class(x509.KeyUsage).value
    return {n for n, a in NAMES_OF_USAGE.items() if getattr(ku, a)}


NAMES_OF_USAGE = {'digital_signature': 'digital_signature', 'non_repudiation': 'content_commitment', 'crl_sign': 'crl_sign',
                  'key_encipherment': 'key_encipherment', 'data_encipherment': 'data_encipherment',
                  'key_agreement': 'key_agreement', 'key_cert_sign': 'key_cert_sign'}
USAGE = {n: usages(d) for n, d in DER.items()}


LEAVES = {'l0': [], 'l1': ['i1'], 'l2': ['i2', 'i1'], 'l3': ['i3', 'i2', 'i1'], 'lu': [], 'lu1': ['u1'], 'lf0': ['fakeroot'],
          'lf1': ['fi1'], 'lx': ['i1'], 'lnotca': ['notca'], 'loldca': ['oldca'], 'lnextca': ['nextca'], 'lshort': ['short'],
          'lbelow': ['below', 'short'], 'lold': ['i1'], 'lnext': ['i1'], 'lnosig': ['i1'], 'self': [], 'i1': [], 'i2': ['i1'],
          'i3': ['i2', 'i1'], 'u1': ['uroot'], 'fakeroot': [], 'uroot': [], 'below': ['short'], 'notca': []}


@st.composite
def chain(draw):
    leaf = draw(st.sampled_from(sorted(LEAVES)))
    rest = list(LEAVES[leaf])
    c = draw(st.integers(0, 9))
    if c == 0 and rest:
        del rest[draw(st.integers(0, len(rest) - 1))]
    elif c == 1:
        rest = draw(st.permutations(rest))
    elif c in (2, 3):
        rest += draw(st.lists(st.sampled_from(sorted(DER)), max_size=3))
        rest = draw(st.permutations(rest))
    elif c == 4:
        rest += draw(st.sampled_from([['root'], ['fakeroot'], ['uroot'], ['root', 'uroot']]))
    elif c == 5:
        rest = draw(st.lists(st.sampled_from(sorted(DER)), max_size=4))
    elif c == 6:
        # the same certificates again and again, and those of somebody else's valid chain
        other = draw(st.sampled_from(['l0', 'l1', 'l2', 'l3', 'i1', 'below']))
        rest = draw(st.lists(st.sampled_from([leaf] * 2 + rest + [other] * 2 + LEAVES[other]), max_size=6))
    out = {'l': leaf, 'r': rest, 'u': draw(st.sampled_from([['digital_signature']] * 5 + [['key_encipherment'], ['key_agreement'], [
        'digital_signature', 'key_encipherment'], ['non_repudiation']] + [['digital_signature', x] for x in sorted(NAMES_OF_USAGE)
    if x != 'digital_signature'] + [['key_cert_sign'], ['key_cert_sign', 'digital_signature']])), 'ctor': draw(st.booleans()),
        'via': None, 'e': None}
    if draw(st.integers(0, 2)) == 0:
        # tamper with one certificate: a bit anywhere, or in the signature at the end
        out['e'] = [draw(st.integers(0, len(rest))), draw(st.one_of(st.integers(0, 800), st.integers(1, 60).map(lambda x: -x))),
                    draw(st.integers(0, 7))]
    if draw(st.integers(0, 3)) == 0:
        out['via'] = [draw(st.sampled_from(sorted(M.CLASS))), draw(st.sampled_from(['phdr', 'uhdr'])), draw(st.booleans()), '']
    return out


def leads_to_root(leaf, pool, below=0, seen=()):
    """Ground truth: is there a valid path from this certificate to the trusted root through the pool?"""
    c = PKI[leaf]
    if not c['valid']:
        return False
    if leaf == 'root':
        return True
    for n in ['root'] + pool:
        if n in seen or n == leaf:
            continue
        i = PKI[n]
        if c['by'] == n and c['issuer'] == i['subject'] and i['ca'] and (i['len'] is None or i['len'] >= below):
            if leads_to_root(n, pool, below + 1, seen + (leaf,)):
                return True
    return False


def signed_length(der):
    head = der[4:8]
    return 4 + int.from_bytes(head[2:4], 'big') if head[1] == 0x82 else 3 + head[2] if head[1] == 0x81 else 2 + head[1]


def may(leaf, usage):
    return set(usage) <= USAGE[leaf]


def check_chain(c, rec):
    names = [c['l']] + list(c['r'])
    ders = [DER[n] for n in names]
    ok = leads_to_root(c['l'], list(c['r'])) and may(c['l'], c['u'])
    # a path that is certainly found: no second candidate anywhere
    clean = sorted(c['r']) == sorted(LEAVES[c['l']]) and c['e'] is None
    if c['e'] is not None:
        i, at, bit = c['e']
        d = bytearray(ders[i])
        # in what is signed, or in the numbers of the signature (the wrapping between them is not protected by anything)
        at = 4 + at % signed_length(ders[i]) if at >= 0 else at
        d[at] ^= 1 << bit
        ders[i] = bytes(d)
        # a certificate whose bytes were changed is not one that was issued
        ok = leads_to_root(c['l'], [n for n in c['r'] if n != names[i]] + [
            n for j, n in enumerate(names) if j not in (0, i) and n == names[i]]) and may(c['l'], c['u']) and i > 0
    given = ders[0] if len(ders) == 1 and c['ctor'] else ders
    if c['via']:
        _, given, _ = message_with(33, X5Chain(given).encode(), c['via'])
        rec.label('transport')

    def run():
        if c['ctor'] and c['u'] == ['digital_signature']:
            X5Chain(given, verify=True)
        else:
            X5Chain(given).verify_chain(set(c['u']))
        return 'accepted'
    got = attempt(run)
    if isinstance(got, Raised):
        expect(not (ok and clean), 'the valid chain %s was refused: %s', names, got)
    else:
        expect(ok, 'the chain %s (usage %s%s) was accepted', names, c['u'], ', tampered at %s' % c['e'] if c['e'] else '')
    if len(names) > 1 or not ok:
        rec.nt()
    rec.label('valid' if ok else 'invalid')
    rec.label('accepted' if not isinstance(got, Raised) else 'refused')


FACETS = [
    Facet('hash', hashing, check_hash, 6000, enum=lambda: [{'a': a, 'd': G.expand(n, n), 'again': b''} for a in ALGS
                                                         for n in [0, 1, 2, 3] + BLOCKS], shards=2),
    Facet('thumbprint', thumb, check_thumb, 6000),
    Facet('bag', bag, check_bag, 2500, shards=2),
    Facet('chain', chain, check_chain, 5000, enum=lambda: [
        {'l': n, 'r': r, 'u': ['digital_signature'], 'ctor': k, 'via': None, 'e': None}
        for n, r in sorted(LEAVES.items()) for k in (False, True)] + [
        {'l': n, 'r': r, 'u': u, 'ctor': False, 'via': None, 'e': None} for n, r in sorted(LEAVES.items())
        for u in [[x] for x in sorted(NAMES_OF_USAGE)] + [['digital_signature', x] for x in sorted(NAMES_OF_USAGE)]]),
]
