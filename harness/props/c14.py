"""C14 Attribute policy is enforced at every layer."""
import copy
from collections.abc import Mapping

import cbor2
import hypothesis.strategies as st

import algs
import build as B
import gen as G
import grey
import msgs as M
import refcose as R
from core import Facet, attempt, eq, expect, refused, Raised, short
from refcbor import Raw, Tag, enc, odd_key, wild_from

H = B.pycose.headers
RULE = ('Messages of every kind with signers, recipients and nested recipients, into whose buckets unknown labels, illegal '
        'values of standard attributes and legal known ones are put at a generated layer; decoded under both policies, and '
        'constructed under both. Outcome: illegal values always refused, unknown labels refused exactly when disallowed, '
        'everything else accepted and kept. Coverage-guided messages are judged when they are accepted. Non-trivial: the message has an unknown label or an illegal value, or is '
        'accepted under the strict policy with at least two layers.')
ASSUMPTIONS = ['header labels are integers and text']

NOTBYTES = ['', 'x', 0, 1, -1, None, 1.5, [], [b'x'], {}, {1: b'x'}, True]
BAD_KEYS = [None, b'', b'xx', 'x', 1, [], {}, {-1: 1}, {2: b'k'}, {1: 0}, {1: 9, -1: b'k' * 16}, {1: 4}, {1: 4, -1: b''},
            {1: 4, -1: b'short'}, {1: 4, -1: 'k' * 16}, {1: 4, -1: b'k' * 17}, {1: 2}, {1: 2, -1: 1}, {1: 2, -2: b'x' * 32, -3: b'y' * 32},
            {1: 2, -1: 6, -2: b'x' * 32, -3: b'y' * 32}, {1: 2, -1: 99, -2: b'x' * 32, -3: b'y' * 32},
            {1: 2, -1: 1, -3: b'y' * 32}, {1: 2, -1: 1, -2: 'x' * 32, -3: b'y' * 32}, {1: 2, -1: 1, -2: b'x' * 32, -3: 'y' * 32},
            {1: 1, -1: 1, -2: b'x' * 32}, {1: 1, -1: 4}, {1: 1, -1: 4, -2: 5}, {1: 1, -2: b'x' * 32}, {1: 1, -1: 'nocurve', -2: b'x' * 32},
            {1: 3, -1: b'n'}, {1: 3, -1: b'n', -2: b'e', -3: b'd'}, {1: 3, -1: 5, -2: b'e'}, {1: 2, -1: 1, -2: b'\1' * 32},
            {1: 4, -1: b'k' * 16, 3: 9999}, {1: 4, -1: b'k' * 16, 3: 'nope'}, {1: 4, -1: b'k' * 16, 3: [5]}, {1: 4, -1: b'k' * 16, 3: []}, {1: 4, -1: b'k' * 16, 4: [99]}, {1: 4, -1: b'k' * 16, 4: ['nope']}]

BAD_ALGS = [-9, -1, 8, 9, 2**40, -2**40, 'x', '', 'ES257', 'A128', 'HMAC', b'', b'ES256', None, 1.5, {}, {1: 2}, [], [1], [-7, 5], ['ES256'],
            True, False, [True], 'ES256 ', ' A128GCM', 'AES-CCM-16-64-128', 'SHA_256', 'NONE']
BAD_CRIT = [[], 0, 'x', b'', {}, None, {1: 2}, 1.5, True, [True], [False, 1], [b'x', 1]]
BAD_CT = [b'', b'x', None, 1.5, [], ['text/plain'], {}, -1, -0.0, [0], True, False, -2**64]
BAD = {1: BAD_ALGS, 2: BAD_CRIT, 3: BAD_CT, -1: BAD_KEYS, -2: BAD_KEYS, **{i: NOTBYTES for i in (4, 5, 6, 9, 10)}}
ILLEGAL = {
    1: st.one_of(st.integers(-70000, 70000).filter(lambda i: i not in algs.ALG_CLASSES), st.sampled_from(BAD_ALGS)),
    2: st.one_of(st.sampled_from(BAD_CRIT), st.lists(st.one_of(G.ints, G.text), max_size=2).flatmap(
        lambda l: st.sampled_from([b'x', None, 1.5, [], [1], {}, {1: 1}, True, False]).map(lambda x: l + [x]))),
    3: st.one_of(st.integers(-2**70, -1), st.sampled_from(BAD_CT)),
    4: st.sampled_from(NOTBYTES), 5: st.sampled_from(NOTBYTES), 6: st.sampled_from(NOTBYTES),
    9: st.sampled_from(NOTBYTES), 10: st.sampled_from(NOTBYTES),
    -1: st.sampled_from(BAD_KEYS), -2: st.sampled_from(BAD_KEYS),
}


@st.composite
def legal_key(draw):
    k = draw(st.one_of(G.ec_key(), G.okp_key(), G.sym_key(), G.rsa_key([0, 1])))
    return B.wire_key(k, False, draw(st.sampled_from([{}, {2: b'kid'}, {4: [1]}, {99: 'unknown parameter'}, {'name': 1}])))


LEGAL = {
    1: st.sampled_from(sorted(algs.ALG_CLASSES)),
    2: st.lists(st.one_of(G.ints, G.text), min_size=1, max_size=3), 3: st.one_of(G.uints, G.text),
    4: G.small, 5: G.small, 6: G.small, 9: G.small, 10: G.small, -1: legal_key(), -2: legal_key(),
}
OTHER_KNOWN = [l for l in algs.HEADERS if l not in LEGAL]


def entry(kind):
    if kind == 'unknown':
        return st.one_of(G.unknown_label, st.sampled_from([-998, -999, 8, 36, -4, 'alg2', 'kid ', 11])).flatmap(
            lambda l: st.tuples(st.just(l), st.one_of(G.any_value, st.sampled_from([0, None])))).map(list)
    if kind == 'illegal':
        return st.sampled_from(sorted(ILLEGAL)).flatmap(lambda l: st.tuples(st.just(l), ILLEGAL[l])).map(list)
    return st.one_of(st.sampled_from(sorted(LEGAL)).flatmap(lambda l: st.tuples(st.just(l), LEGAL[l])),
                     st.sampled_from(OTHER_KNOWN).flatmap(lambda l: st.tuples(st.just(l), G.any_value))).map(list)


@st.composite
def layer(draw):
    return [draw(st.lists(entry('known').filter(lambda e: e[0] != 1), max_size=3, unique_by=lambda e: e[0])),
            draw(st.lists(entry('known').filter(lambda e: e[0] != 1), max_size=3, unique_by=lambda e: e[0]))]


KINDS = ['sign1', 'sign', 'mac0', 'mac', 'enc0', 'enc']


@st.composite
def case(draw):
    k = draw(st.sampled_from(KINDS))
    shape = {'k': k, 'body': draw(layer()), 'subs': [], 'alg': draw(st.sampled_from([None, 'p', 'u']))}
    if k == 'sign':
        shape['subs'] = G.several(draw, lambda: {'t': 'signer', 'h': draw(layer()), 'n': []}, [1, 2, 3])
    if k in ('mac', 'enc'):
        def rc(depth):
            t = draw(st.sampled_from(['direct', 'dka', 'oaep', 'kakw', 'kw', 'ss']))
            n = []
            if t in ('oaep', 'kakw', 'kw') and depth and draw(st.integers(0, 2)) == 0:
                n = [rc(depth - 1) for _ in range(draw(st.integers(1, 2)))]
            return {'t': t, 'h': draw(layer()), 'n': n}
        shape['subs'] = G.several(draw, lambda: rc(2), [1, 2, 3])
    out = {'s': shape, 'kinds': [], 'w': draw(st.lists(st.sampled_from([0, 0, 1, 2, 12]), max_size=6)),
           'cls': draw(st.booleans())}
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
        kd = draw(st.sampled_from(['unknown', 'unknown', 'illegal', 'illegal', 'known']))
        out['kinds'].append([kd, draw(entry(kd)), draw(st.integers(0, 99)), draw(st.integers(0, 1))])
    return out


RC_ALG = {'direct': -6, 'dka': -25, 'ss': -27, 'oaep': -40, 'kakw': -29, 'kw': -3}
KEYMAP = {1: 2, -1: 1, -2: R.ec_pub('P_256', 5)[0], -3: R.ec_pub('P_256', 5)[1]}


def flatten(shape):
    """All layers, outermost first, as [p dict, u dict, structural]; structural labels must not be touched."""
    out = []

    def add(h, alg=None, more=None, empty_p=False):
        p, u = {l: v for l, v in h[0]}, {}
        for l, v in h[1]:
            if l not in p:
                u[l] = v
        if empty_p:
            for l, v in p.items():
                u.setdefault(l, v)
            p = {}
        if more:
            for l in more:
                p.pop(l, None)
            u.update(more)
        if alg is not None:
            u[1] = alg
        e = [p, u, set(u) & ({1} if alg else set()) | set(more or ()), empty_p]
        out.append(e)
        return e

    b = add(shape['body'])
    if shape['alg']:
        a = {'sign1': -7, 'sign': -7, 'mac0': 5, 'mac': 5, 'enc0': 1, 'enc': 1}[shape['k']]
        b[0 if shape['alg'] == 'p' else 1][1] = a
        b[2].add(1)

    def sub(s):
        if s['t'] == 'signer':
            add(s['h'], -8)
            return
        add(s['h'], RC_ALG[s['t']], {-1: KEYMAP} if s['t'] == 'dka' else None, s['t'] in ('direct', 'kw'))
        for n in s['n']:
            sub(n)
    for s in shape['subs']:
        sub(s)
    return out


def wire(shape, layers, wild):
    it = iter(layers)

    def ph(p):
        return enc(p, wild_from(wild)) if p else b''

    def node(s):
        p, u = next(it)[:2]
        if s['t'] == 'signer':
            return [ph(p), u, b'sig']
        r = [ph(p), u, b'' if s['t'] in ('direct', 'dka', 'ss') else b'c' * 24]
        if s['n']:
            r.append([node(n) for n in s['n']])
        return r
    p, u = next(it)[:2]
    body = [ph(p), u, b'payload or ciphertext']
    k = shape['k']
    if k in ('sign1', 'mac0', 'mac'):
        body.append(b'tag')
    if shape['subs']:
        body.append([node(s) for s in shape['subs']])
    return enc(Tag(M.TAG[k], body), wild_from(wild))


def objects(msg):
    out = [msg]

    def rc(r):
        out.append(r)
        for n in r.recipients:
            rc(n)
    out.extend(getattr(msg, 'signers', []))
    for r in getattr(msg, 'recipients', []):
        rc(r)
    return out


def kept(got, want, what):
    gk = {(k.__class__, k) for k in got}
    wk = {((type, B.hdr_class(l)) if not isinstance(l, str) and l in algs.HEADERS else (l.__class__, l)): l for l in want}
    got_k = {((type, k) if isinstance(k, type) else (k.__class__, k)): v for k, v in got.items()}
    expect(set(got_k) == set(wk), '%s: labels %s instead of %s', what, short(list(got)), short(list(want)))
    for k, l in wk.items():
        g, v = got_k[k], want[l]
        if isinstance(l, str) or l not in algs.HEADERS:
            eq(g, v, '%s: %r' % (what, l))
        elif l == 1:
            expect(g is B.alg_class(v), '%s: algorithm %s', what, short(g))
        elif l in (-1, -2):
            expect(isinstance(g, B.CoseKey), '%s: not a key object', what)
            m = B.key_map(g)
            eq({x: y for x, y in m.items() if x in v}, v, '%s: key' % what)
        else:
            eq(g, v, '%s: %r' % (what, l))


def check(case, rec):
    shape = case['s']
    layers = flatten(shape)
    unknown = illegal = False
    placed = []
    for kd, e, where, bucket in case['kinds']:
        lay = layers[where % len(layers)]
        if e[0] in lay[2] and not (kd == 'illegal'):
            continue
        at = (where % len(layers), type(e[0]), e[0])
        if at in placed:        # one extra entry per label and layer
            continue
        placed.append(at)
        b = 1 if lay[3] else bucket
        if any(e[0] == x and type(e[0]) is type(x) for x in lay[1 - b]):
            b = 1 - b
        lay[b][e[0]] = e[1]
        unknown |= kd == 'unknown'
        illegal |= kd == 'illegal'
        depth = 'body' if where % len(layers) == 0 else 'sub-layer'
        rec.label('%s in the %s (%s)' % (kd, depth, 'pu'[b]))
    data = wire(shape, layers, case['w'])
    cls = M.CLASS[shape['k']] if case['cls'] else B.CoseMessage

    def loose(**kw):
        got = attempt(cls.decode, data, **kw)
        if illegal:
            expect(isinstance(got, Raised), 'a message with an illegal attribute value was accepted')
            return
        expect(not isinstance(got, Raised), 'a legal message was refused: %s', got)
        os_ = objects(got)
        eq(len(os_), len(layers), 'number of layers')
        for o, (p, u, _, _) in zip(os_, layers):
            kept(o.phdr, p, 'protected header')
            kept(o.uhdr, u, 'unprotected header')
    loose()
    loose(allow_unknown_attributes=True)
    if unknown or illegal:
        got = attempt(cls.decode, data, allow_unknown_attributes=False)
        expect(isinstance(got, Raised), 'unknown attributes are disallowed, but a message with one was accepted')
        rec.nt()
    else:
        loose(allow_unknown_attributes=False)
        if len(layers) > 1:
            rec.nt()
    # a lenient decoding has no influence on a strict one and the other way round
    if not illegal:
        loose()


# ------------------------------------------------------------------------------------------- construction

OBJ = ['sign1', 'sign', 'mac0', 'mac', 'enc0', 'enc', 'signer', 'DirectEncryption', 'KeyWrap', 'DirectKeyAgreement',
       'KeyAgreementWithKeyWrap']


@st.composite
def construct(draw):
    out = {'o': draw(st.sampled_from(OBJ)), 'h': draw(layer()), 'kinds': [], 'sp': draw(G.spell)}
    for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
        kd = draw(st.sampled_from(['unknown', 'illegal', 'known']))
        out['kinds'].append([kd, draw(entry(kd)), 0, draw(st.integers(0, 1))])
    return out


def spelled(m, sp):
    """Labels (and the algorithm) in the given spellings, values as they are."""
    out = {}
    for i, (l, v) in enumerate(m.items()):
        if l == 1 and not isinstance(l, str) and type(v) is int and v in algs.ALG_CLASSES:
            v = B.spell_alg(v, sp[(i + 1) % len(sp)])
        out[B.spell_label(l, sp[i % len(sp)])] = copy.deepcopy(v) if not isinstance(v, type) else v
    return out


def check_construct(case, rec):
    o = case['o']
    cls = M.CLASS.get(o) or (B.CoseSignature if o == 'signer' else getattr(B.pycose.messages.recipient, o))
    p, u = {l: v for l, v in case['h'][0]}, {}
    for l, v in case['h'][1]:
        if l not in p:
            u[l] = v
    unknown = illegal = False
    placed = []
    for kd, e, _, b in case['kinds']:
        if (type(e[0]), e[0]) in placed:
            continue
        placed.append((type(e[0]), e[0]))
        if any(e[0] == x and type(e[0]) is type(x) for x in (p, u)[1 - b]):
            b = 1 - b
        (p, u)[b][e[0]] = e[1]
        unknown |= kd == 'unknown'
        illegal |= kd == 'illegal'

    def make(**kw):
        return attempt(cls, phdr=spelled(p, case['sp']), uhdr=spelled(u, case['sp'][::-1]), **kw)

    def loose(**kw):
        got = make(**kw)
        if illegal:
            expect(isinstance(got, Raised), '%s with an illegal attribute value was constructed', o)
            return
        expect(not isinstance(got, Raised), '%s with legal headers was refused: %s', o, got)
        kept(got.phdr, p, 'protected header')
        kept(got.uhdr, u, 'unprotected header')
    loose()
    loose(allow_unknown_attributes=True)
    if unknown or illegal:
        got = make(allow_unknown_attributes=False)
        expect(isinstance(got, Raised), '%s with an unknown attribute was constructed although they are disallowed', o)
        rec.nt()
    else:
        loose(allow_unknown_attributes=False)
        if p or u:
            rec.nt()
    rec.label('constructed ' + o)


# ------------------------------------------------------------------------------------------- coverage-guided decoding

NAMES = {v[1]: k for k, v in algs.HEADERS.items()}


def wire_layers(top):
    """[protected map, unprotected map] of every layer of an accepted message."""
    def layer(x):
        return [cbor2.loads(x[0]) if x[0] else {}, x[1]]

    def rc(x):
        out = [layer(x)]
        for y in x[3] if len(x) > 3 else []:
            out += rc(y)
        return out
    body = top.value
    out = [layer(body)]
    at = {98: 3, 96: 3, 97: 4}.get(top.tag)
    for x in body[at] if at and len(body) > at else []:
        out += rc(x) if top.tag != 98 else [layer(x)]
    return out


def judge_value(lab, v):
    if lab == 1:
        ok = v in algs.ALG_CLASSES if type(v) is int else isinstance(v, str) and v.upper() in algs.ALG_NAMES.values()
    elif lab == 2:
        ok = isinstance(v, (list, tuple)) and len(v) > 0 and all(type(x) in (int, str) for x in v)
    elif lab == 3:
        ok = isinstance(v, str) or type(v) is int and v >= 0
    elif lab in (4, 5, 6, 9, 10):
        ok = isinstance(v, bytes)
    elif lab in (-1, -2):
        ok = isinstance(v, Mapping)
    else:
        return
    expect(ok, 'accepted with %s: %s', algs.HEADERS[lab][1], short(v))


def grey_seeds(rng):
    out = []
    for c in grey.draws(case(), rng, 50):
        layers = flatten(c['s'])
        for kd, e, where, bucket in c['kinds']:
            lay = layers[where % len(layers)]
            if kd != 'illegal' and e[0] not in lay[2] and not lay[3]:
                lay[bucket][e[0]] = e[1]
        out.append(wire(c['s'], layers, c['w']))
    return [d for d in out if len(d) < 2000]


def check_guided(c, rec):
    data = c['data']
    if odd_key(data):
        return
    loose, strict = attempt(B.CoseMessage.decode, data), attempt(B.CoseMessage.decode, data, allow_unknown_attributes=False)
    if isinstance(loose, Raised):
        expect(isinstance(strict, Raised), 'refused with (%s), but accepted without unknown attributes', loose)
        return
    unknown = False
    for buckets in wire_layers(cbor2.loads(data)):
        for b in buckets:
            labs = {}
            for lab, v in b.items():
                if type(lab) not in (int, str):
                    return
                i = NAMES.get(lab.upper(), lab) if isinstance(lab, str) else lab
                if i in labs:
                    return      # two spellings of one label
                labs[i] = v
                judge_value(i, v)
                unknown |= i not in algs.HEADERS
    expect(isinstance(strict, Raised) == unknown, 'unknown attributes are disallowed and %s in the message, which was %s',
           'are' if unknown else 'none is', 'refused: %s' % strict if isinstance(strict, Raised) else 'accepted')
    rec.nt()
    rec.label('accepted, %s' % ('unknown labels' if unknown else 'known labels only'))


# every value of the tables at every kind of layer

RCS = ['direct', 'dka', 'ss', 'oaep', 'kakw', 'kw']
SHAPES = [{'k': k, 'body': [[], []], 'subs': [], 'alg': None} for k in KINDS] + [
    {'k': 'sign', 'body': [[], []], 'alg': 'p', 'subs': [{'t': 'signer', 'h': [[], []], 'n': []}] * 2}] + [
    {'k': k, 'body': [[], []], 'alg': 'p', 'subs': [{'t': 'kw', 'h': [[], []], 'n': [{'t': t, 'h': [[], []], 'n': []} for t in RCS]}]}
    for k in ('enc', 'mac')]


def table(extra):
    return [['illegal', [l, v], w, b] for l in sorted(BAD) for v in BAD[l] for w in range(extra) for b in (0, 1)]


def enum():
    return [{'s': s, 'kinds': [e], 'w': [], 'cls': i % 2 == 0} for i, s in enumerate(SHAPES)
            for e in table(1 if not s['subs'] else 2 if s['k'] == 'sign' else 8) if e[2] or i < 6]


def enum_construct():
    return [{'o': o, 'h': [[], []], 'kinds': [e], 'sp': [i]} for o in OBJ for i, e in enumerate(table(1))]


FACETS = [
    Facet('decode', case, check, 5000, enum=enum, shards=6),
    Facet('construct', construct, check_construct, 2500, enum=enum_construct, shards=2),
    Facet('guided', None, check_guided, 24000, driver=grey.driver(grey_seeds, lambda: sorted(algs.HEADERS) + sorted(NAMES) + NOTBYTES)),
]
