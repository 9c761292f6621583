"""C13 Header lookup is unambiguous."""
import cbor2
import hypothesis.strategies as st

import algs
import build as B
import gen as G
import msgs as M
from core import Facet, Raised, attempt, eq, expect, refused, same, short
from refcbor import Tag, enc

H = B.pycose.headers
RULE = ('Header maps whose labels may occur in one bucket, in both or in none, with any values (zero, empty, false and null '
        'included), on every kind of message, signer and recipient, built in any spelling, built by updating, or decoded; '
        'every label is looked up with and without defaults. Operations which need an attribute that is in both buckets '
        'must refuse. Non-trivial: a label in both buckets, or a value or default that counts as false.')
ASSUMPTIONS = ['known attributes are looked up by their class, unknown ones by their label']

FALSY = [0, False, b'', '', [], {}, None, 0.0]
KNOWN = [0, 7, 9, 10, 4, 5, 6, 3, 2, 32, 33, 34, 35, -3, -20, -21, -22, -23, -24, -25, -26, -1, -2]
HOLDERS = ['sign1', 'sign', 'mac0', 'mac', 'enc0', 'enc', 'signer', 'direct', 'kw', 'dka', 'kakw']
ALG_OF = {'sign1': -7, 'sign': None, 'mac0': 5, 'mac': 5, 'enc0': 1, 'enc': 1, 'signer': -8, 'direct': -6, 'kw': -3,
          'dka': -27, 'kakw': -32}


def value(lab):
    if lab in (4, 5, 6, 9, 10):
        return st.one_of(st.just(b''), G.small)
    if lab == 2:
        return st.sampled_from([[0], [''], [1, 'x']])
    if lab == 3:
        return st.one_of(st.just(0), st.just(''), G.uints)
    if lab in (-1, -2):
        return G.ec_key().map(lambda k: {'key': k})
    if lab == 1:
        return st.sampled_from(sorted(algs.ALG_CLASSES))
    return st.one_of(st.sampled_from(FALSY), st.sampled_from(FALSY), G.any_value)


@st.composite
def lookup(draw):
    holder = draw(st.sampled_from(HOLDERS))
    labs = draw(st.lists(st.one_of(st.sampled_from(KNOWN), st.sampled_from([4, 3, -20, 99, 'x', '']), G.unknown_label),
                         max_size=5, unique_by=lambda l: (isinstance(l, str), l)))
    p, u = [], []
    for l in labs:
        w = draw(st.sampled_from('pub'))
        if w in 'pb':
            p.append([l, draw(value(l))])
        if w in 'ub':
            u.append([l, draw(value(l))])
    a = ALG_OF[holder]
    if a is not None:
        c = draw(st.integers(0, 5))
        if holder in ('direct', 'kw'):
            p = []
            u = u + [[1, a]]
        else:
            if c != 5:
                p = p + [[1, a]]
            if c in (0, 5):
                u = u + [[1, a]]
    return {'holder': holder, 'p': p, 'u': u, 'sp': draw(G.spell), 'how': draw(st.sampled_from(['built', 'updated', 'set', 'decoded', 'decoded'])),
            'absent': draw(st.lists(st.one_of(st.sampled_from(KNOWN), G.unknown_label), max_size=3)),
            'dflt': draw(st.one_of(st.sampled_from(FALSY), G.any_value))}


def holder_obj(case):
    """The object whose headers are looked up."""
    h, how = case['holder'], case['how']
    if how == 'decoded':
        p, u = B.wire_prot(case['p']), B.wire_hdr(case['u'])
        node = [p, u]
        plain = [b'', {1: -6}, b'']
        if h in ('sign1', 'mac0'):
            return B.CoseMessage.decode(enc(Tag(M.TAG[h], node + [b'x', b'y'])))
        if h == 'sign':
            return B.CoseMessage.decode(enc(Tag(98, node + [b'x', [[b'', {}, b'']]])))
        if h == 'mac':
            return B.CoseMessage.decode(enc(Tag(97, node + [b'x', b'y', [plain]])))
        if h == 'enc0':
            return B.CoseMessage.decode(enc(Tag(16, node + [b'x'])))
        if h == 'enc':
            return B.CoseMessage.decode(enc(Tag(96, node + [b'x', [plain]])))
        if h == 'signer':
            return B.CoseMessage.decode(enc(Tag(98, [b'', {}, b'x', [node + [b'y']]]))).signers[0]
        m = B.CoseMessage.decode(enc(Tag(96, [b'', {}, b'x', [node + [b'' if h in ('direct', 'dka') else b'y' * 24]]])))
        return m.recipients[0]
    cls = M.CLASS.get(h) or {'signer': B.CoseSignature, 'direct': M.B.pycose.messages.recipient.DirectEncryption,
                             'kw': B.pycose.messages.recipient.KeyWrap,
                             'dka': B.pycose.messages.recipient.DirectKeyAgreement,
                             'kakw': B.pycose.messages.recipient.KeyAgreementWithKeyWrap}[h]
    if how == 'built':
        return cls(phdr=B.hdr(case['p'], case['sp']), uhdr=B.hdr(case['u'], case['sp'][::-1]))
    o = cls()
    if how == 'set':
        o.phdr, o.uhdr = objs(case['p']), objs(case['u'])
    else:
        o.phdr_update(objs(case['p']))
        o.uhdr_update(objs(case['u']))
    return o


def objs(entries):
    out = B.hdr(entries)
    for k, v in out.items():
        if k in (H.EphemeralKey, H.StaticKey) and isinstance(v, dict) and not isinstance(v, B.CoseKey):
            out[k] = B.CoseKey.from_dict(v)
    return out


def check(case, rec):
    o = attempt(holder_obj, case)
    both = {(isinstance(l, str), l) for l, _ in case['p']} & {(isinstance(l, str), l) for l, _ in case['u']}
    if isinstance(o, Raised):
        # recipients are looked at while they are decoded
        expect(case['how'] == 'decoded' and both & {(False, 1), (False, -1)} and case['holder'] in ('dka', 'kakw', 'kw', 'direct'),
               'making the %s: %s', case['holder'], o)
        rec.label('refused while decoding: attribute in both buckets')
        return
    before = (B.frozen(o.phdr), B.frozen(o.uhdr))
    d = case['dflt']
    sentinel = object()
    seen = {}
    for b in ('p', 'u'):
        for l, v in case[b]:
            seen.setdefault((isinstance(l, str), l), []).append((b, v))
    for (is_str, l), hits in seen.items():
        attr = B.hdr_class(l) if not is_str and l in algs.HEADERS else l
        if len(hits) == 2:
            for args in ((attr,), (attr, d), (attr, None), (attr, sentinel)):
                refused('lookup of %r, which is in both buckets' % (attr,), o.get_attr, *args)
            refused('lookup of %r, which is in both buckets' % (attr,), o.get_attr, attr, default=d)
            rec.label('in both buckets')
            rec.nt()
            continue
        v = hits[0][1]
        for got in (o.get_attr(attr), o.get_attr(attr, d), o.get_attr(attr, default=d), o.get_attr(attr, sentinel)):
            if B.is_spec(v) and l in (-1, -2):
                B.is_key(got if isinstance(got, B.CoseKey) else B.CoseKey.from_dict(got), B.wire_key(v['key'], False), 'value of %r' % l)
            elif l == 1 and not is_str:
                expect(got is B.alg_class(v), 'algorithm looked up: %s', short(got))
            else:
                eq(got, v, 'value of %r' % (l,))
        rec.label('present')
        if not v and not B.is_spec(v):
            rec.label('a value that counts as false')
            rec.nt()
    for l in case['absent'] + [1, 4, 'x', 99]:
        if (isinstance(l, str), l) in seen:
            continue
        attr = B.hdr_class(l) if not isinstance(l, str) and l in algs.HEADERS else l
        eq(o.get_attr(attr), None, 'lookup of absent %r' % (l,))
        eq(o.get_attr(attr, d), d, 'default for absent %r' % (l,))
        for x in (sentinel, list, len, dict(), B.alg_class(1), refused):
            expect(o.get_attr(attr, default=x) is x, 'default %s for absent %r', short(x), l)
        rec.label('absent')
        if not d:
            rec.nt()
    expect((B.frozen(o.phdr), B.frozen(o.uhdr)) == before, 'a lookup changed the headers')


# ------------------------------------------------------------------------------------------- operations refuse ambiguity

@st.composite
def ambiguous(draw):
    k = draw(st.sampled_from(['alg', 'alg', 'iv', 'party', 'salt', 'recipient alg', 'ephemeral']))
    alg2 = draw(st.booleans())
    if k == 'alg':
        c = draw(st.one_of(M.sign1(alg=-8), M.mac0(), M.enc0(), M.sign(max_signers=1)))
    elif k == 'iv':
        c = draw(M.enc0())
    else:
        c = draw(M.encm(modes=('wrap', 'dka', 'dka')).filter(lambda c: any(r['t'] in ('dka', 'kakw') for r in c['rcpts'])))
    return {'k': k, 'c': c, 'same': draw(st.booleans()), 'late': draw(st.booleans()), 'v': draw(G.blob(1, 20)), 'alg2': alg2}


def double(layer, lab, val):
    """Put the attribute into the bucket which does not have it (and into one if none has)."""
    for b, other in (('p', 'u'), ('u', 'p')):
        for l, v in layer[b]:
            if not isinstance(l, str) and l == lab:
                layer[other].append([lab, v if val is None else val])
                return
    layer['p'].append([lab, val])
    layer['u'].append([lab, val])


def check_ambiguous(case, rec):
    import copy
    c, k = copy.deepcopy(case['c']), case['k']
    who = [i for i, r in enumerate(c.get('rcpts', [])) if r['t'] in ('dka', 'kakw')]
    x = c
    if k == 'alg':
        x = c['signers'][0] if c['k'] == 'sign' else c
        double(x['h'], 1, None)
    elif k == 'iv':
        val = None if case['same'] else case['v']
        if 'iv' in c:
            double(x['h'], 5, val)
        else:
            double(x['h'], 6, val)
    else:
        r = c['rcpts'][who[0]]
        lab = {'party': -21, 'salt': -20, 'recipient alg': 1, 'ephemeral': -1 if algs.ECDH[r['alg']][1] else -2}[k]
        if lab == -2 or (lab == -1 and (r['gen'] or r['t'] == 'kakw')):
            return      # this sender does not look the key up
        double(r['h'], lab, None if lab in (1, -1) or (case['same'] and M.attr(r['h'], lab) is not None) else case['v'])

    def go():
        msg = M.build(c)
        return M.encode(c, msg)
    refused('encoding with %s in both buckets' % k, go)
    rec.label('operation with %s in both buckets' % k)
    rec.nt()
    # and the receiver
    if k in ('alg', 'iv') and c['k'] in ('sign1', 'mac0', 'enc0', 'sign'):
        good = case['c']
        w = cbor2.loads(M.send(good)).value
        node = w[3][0] if c['k'] == 'sign' else w
        lab = 1 if k == 'alg' else (5 if 'iv' in c else 6)
        p = cbor2.loads(node[0]) if node[0] else {}
        if lab in p:
            node[1][lab] = p[lab]
            data = enc(Tag(M.TAG[c['k']], w))
            msg = B.CoseMessage.decode(data)
            M.arm(good, msg)

            def take():
                if c['k'] == 'sign':
                    return msg.signers[0].verify_signature(**M.det(good))
                if c['k'] == 'sign1':
                    return msg.verify_signature(**M.det(good))
                return msg.verify_tag() if c['k'] == 'mac0' else msg.decrypt()
            refused('receiving with %s in both buckets' % k, take)
            rec.label('received with %s in both buckets' % k)


FACETS = [
    Facet('lookup', lookup, check, 5000, shards=4),
    Facet('ambiguous', ambiguous, check_ambiguous, 1200, shards=4),
]
