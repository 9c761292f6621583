"""C01 Signed messages verify after transport."""
import hypothesis.strategies as st

import algs
import build as B
import crowd
import gen as G
import msgs as M
import resend
from core import Facet, eq, expect, is_true

RULE = ('Sign1/Sign messages over all signature algorithms, key forms, headers in both buckets, external data, carried and '
        'detached payloads of boundary sizes; sent by the library, edited in transit in unrelated unprotected attributes, '
        'decoded and verified. Non-trivial: the message has an extra header, external data, a detached or empty payload, '
        'more than one signer or a transit edit.')
ASSUMPTIONS = ['unknown header labels do not collide with registered names', 'RSA keys are large enough for the algorithm']


def interesting(c, ops):
    return bool(len(c['h']['p']) + len(c['h']['u']) > 1 or c['det'] or not c['payload'] or c.get('aad') or ops or
                len(c.get('signers', [])) > 1)


def check(case, rec):
    c, ops, how = case['c'], case['ops'], case['how']
    msg = M.build(c)
    data = M.encode(c, msg)
    # straight through
    got = M.receive(c, data, how)
    M.check_received(c, got)
    M.arm(c, got)
    M.verify_all(c, got)
    if c['k'] == 'sign1':
        eq(got.signature, B.parse(data, 18)[3], 'signature attribute')
        rec.label('alg %s' % algs.ALG_NAMES[c['alg']])
    else:
        for s, w in zip(got.signers, B.parse(data, 98)[3]):
            eq(s.signature, w[2], 'signature attribute')
        rec.label('%d signers' % len(c['signers']))
        for s in c['signers']:
            rec.label('alg %s' % algs.ALG_NAMES[s['alg']])
    # after edits in transit
    if ops:
        edited, _ = B.relay(data, ops, prot_labels=[l for l, _ in c['h']['p']])
        if c['k'] == 'sign':
            i = how % len(c['signers'])
            edited, _ = B.relay(edited, ops, path=(3, i), prot_labels=[l for l, _ in c['signers'][i]['h']['p']])
        again = M.receive(c, edited, how + 1)
        M.arm(c, again)
        M.verify_all(c, again)
        rec.label('edited in transit')
    # verification is repeatable and needs nothing but the message
    M.verify_all(c, got)
    # what was received can be sent on
    if c['k'] == 'sign1' and case['fwd']:
        fwd = got.encode(sign=False)
        third = M.receive(c, fwd, how)
        M.arm(c, third)
        M.verify_all(c, third)
        rec.label('forwarded')
    if c['det']:
        rec.label('detached')
    if interesting(c, ops):
        rec.nt()


def strategy(kind):
    return lambda: st.fixed_dictionaries({'c': M.sharing(kind()), 'ops': G.relay_ops(), 'how': st.integers(0, 3), 'fwd': st.booleans()})


def enum():
    """Every algorithm and, for the curves, every pool scalar once."""
    import fix
    out = []
    for a in algs.SIGN:
        if a in algs.ECDSA:
            keys = [{'kt': 'ec', 'crv': algs.ECDSA[a][1], 'd': d} for d in fix.EC_POOL[algs.ECDSA[a][1]]]
        elif a in algs.EDDSA:
            keys = [{'kt': 'okp', 'crv': c, 'd': b'\x01' * n} for c, n in (('ED25519', 32), ('ED448', 57))]
        else:
            keys = [{'kt': 'rsa', 'i': i} for i in fix.rsa_fits(a)]
        for n, k in enumerate(keys):
            out.append({'c': {'k': 'sign1', 'alg': a, 'key': k, 'kf': n, 'vf': n + 1, 'kp': {}, 'vp': {}, 'vpriv': False,
                              'aad': b'', 'h': {'p': [[1, a]], 'u': [], 'sp': [0]}, 'payload': b'%d' % n, 'det': False},
                        'ops': [], 'how': 0, 'fwd': True})
    return out + [{'c': c, 'ops': [], 'how': 0, 'fwd': True} for c in crowd.sign1_cases()]


def enum_sign():
    return [{'c': c, 'ops': [['set', 4, b'n']], 'how': i, 'fwd': True} for i, c in enumerate(crowd.sign_cases())]


FACETS = [
    Facet('sign1', strategy(M.sign1), check, 1600, enum=enum, shards=4),
    Facet('sign', strategy(M.sign), check, 800, enum=enum_sign, shards=4),
    Facet('again-sign1', resend.resends('sign1'), resend.check, 600, shards=4),
]
