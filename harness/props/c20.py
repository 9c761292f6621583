"""C20 Decoding is faithful and type-safe on arbitrary input."""
import copy

import cbor2
import hypothesis.strategies as st

import algs
import build as B
import gen as G
import grey
import msgs as M
from core import Facet, attempt, eq, expect, fail, Raised, same, short
from props import c14
from refcbor import RESOLVED, Raw, Tag, Undefined, enc, head, odd_key, wild_from

H = B.pycose.headers
RULE = ('Generated messages of all kinds (signers, recipients, nested recipients, any header) in arbitrary valid CBOR '
        'encodings, as they are (must be accepted, exactly by the generic and the own message class) or with one structural '
        'defect (must be refused); the same under byte-level mutation (flips, splices, truncation, insertion, duplication), '
        'random CBOR and random bytes, where a returned message must reproduce the input as an independent parse sees it; and '
        'sequences of decodings of several inputs with manipulation of the results in between, each compared with the first '
        'decoding of that input; and coverage-guided search over the structure. Non-trivial: a message was returned and compared, or a structural defect was refused.')
ASSUMPTIONS = ['bytes behind the message and surplus array elements are not looked at', 'a text label that is the name of a '
               'registered attribute stands for that attribute', 'self-described, shared and cyclic CBOR (tags 25, 28, 29, 256, 55799) '
               'are resolved by the CBOR library']

CLASSES = {16: B.Enc0Message, 17: B.Mac0Message, 18: B.Sign1Message, 96: B.EncMessage, 97: B.MacMessage, 98: B.SignMessage}
TAGNO = {v: k for k, v in M.CLASS.items()}
NAMES = {v[1]: k for k, v in algs.HEADERS.items()}

# ------------------------------------------------------------------------------------------- is the result what the input says?


def check_bucket(got, want, what):
    expect(type(got) is dict, '%s: a %s', what, type(got).__name__)
    labels = {}
    for lab in want:
        if isinstance(lab, (int, float)) and not isinstance(lab, bool) and lab in algs.HEADERS and isinstance(lab, int):
            cl = B.hdr_class(lab)
        elif isinstance(lab, str) and lab.upper() in NAMES:
            cl = B.hdr_class(NAMES[lab.upper()])
        elif isinstance(lab, bool) or lab != lab:
            return
        else:
            cl = lab
        if cl in labels:
            return      # two spellings of one attribute
        labels[cl] = lab
    expect(len(got) == len(labels), '%s: labels %s, from %s', what, short(list(got)), short(list(want)))
    for cl, lab in labels.items():
        expect(cl in got, '%s: label %r is missing', what, lab)
        v, g = want[lab], got[cl]
        if cl is H.Algorithm:
            known = v in algs.ALG_CLASSES if isinstance(v, int) else isinstance(v, str) and v.upper() in algs.ALG_NAMES.values()
            expect(known, '%s: unknown algorithm %s', what, short(v))
            i = v if isinstance(v, int) else [k for k, n in algs.ALG_NAMES.items() if n == v.upper()][0]
            expect(g is B.alg_class(i), '%s: algorithm %s for %s', what, short(g), short(v))
        elif cl in (H.EphemeralKey, H.StaticKey):
            expect(isinstance(g, B.CoseKey), '%s: %s is not a key', what, short(g))
            expect(isinstance(v, dict), '%s: a key from %s', what, short(v))
            if all(type(x) is int for x in v) and not set(v) & {3, 4, -1, -2, -3}:
                m = B.key_map(g)
                for x in v:
                    expect(x in m and same(m[x], v[x]), '%s: key parameter %r', what, x)
            for x in (-1, -2, -4):
                if isinstance(v.get(x), bytes) and v[x]:     # an empty one is none
                    expect(B.key_map(g).get(x) == v[x], '%s: key parameter %r', what, x)
        else:
            eq(g, v, '%s: value of %r' % (what, lab))


def check_layer(obj, raw, what):
    prot = raw[0]
    expect(type(prot) is bytes, '%s: a protected header from %s', what, short(prot))
    pm = cbor2.loads(prot) if prot else {}
    expect(isinstance(pm, dict), '%s: a protected header from %s', what, short(pm))
    expect(isinstance(raw[1], dict), '%s: an unprotected header from %s', what, short(raw[1]))
    if pm:
        eq(obj.phdr_encoded, prot, what + ': protected bytes')
    else:
        expect(obj.phdr_encoded in (prot, b''), '%s: protected bytes %s', what, short(obj.phdr_encoded))
    check_bucket(obj.phdr, pm, what + ' protected')
    check_bucket(obj.uhdr, raw[1], what + ' unprotected')


RCLASS = {-6: 'DirectEncryption', -10: 'DirectEncryption', -12: 'DirectEncryption', -13: 'DirectEncryption',
          -11: 'DirectEncryption'}
RCLASS.update({a: 'KeyWrap' for a in list(algs.KW) + list(algs.OAEP)})
RCLASS.update({a: 'DirectKeyAgreement' for a in algs.DKA})
RCLASS.update({a: 'KeyAgreementWithKeyWrap' for a in algs.KAKW})


def check_recipient(obj, raw, what):
    expect(isinstance(raw, list), '%s: a recipient from %s', what, short(raw))
    check_layer(obj, raw, what)
    alg = obj.phdr.get(H.Algorithm) or obj.uhdr.get(H.Algorithm)
    expect(alg is not None, '%s: no algorithm', what)
    eq(type(obj).__name__, RCLASS[alg.identifier], what + ': class')
    ct = raw[2]
    expect(ct is None or type(ct) is bytes, '%s: a ciphertext from %s', what, short(ct))
    eq(obj.payload, ct, what + ': ciphertext')
    sub = raw[3] if len(raw) > 3 else []
    expect(isinstance(sub, list), '%s: recipients from %s', what, short(sub))
    eq(len(obj.recipients), len(sub), what + ': number of recipients')
    for i, (o, r) in enumerate(zip(obj.recipients, sub)):
        check_recipient(o, r, '%s.%d' % (what, i))


def check_message(msg, tag, raw):
    expect(type(msg) is CLASSES[tag], 'tag %d gave a %s', tag, type(msg).__name__)
    check_layer(msg, raw, 'body')
    p = raw[2]
    expect(p is None or type(p) is bytes, 'a payload from %s', short(p))
    eq(msg.payload, p, 'payload')
    if tag in (17, 97):
        eq(msg.auth_tag, raw[3], 'authentication tag')
        expect(type(raw[3]) is bytes, 'an authentication tag from %s', short(raw[3]))
    if tag == 18:
        eq(msg.signature, raw[3], 'signature')
        expect(type(raw[3]) is bytes, 'a signature from %s', short(raw[3]))
    if tag == 98:
        expect(isinstance(raw[3], list), 'signers from %s', short(raw[3]))
        eq(len(msg.signers), len(raw[3]), 'number of signers')
        for i, (s, r) in enumerate(zip(msg.signers, raw[3])):
            expect(isinstance(r, list), 'a signer from %s', short(r))
            expect(type(s) is B.CoseSignature, 'signer %d is a %s', i, type(s).__name__)
            check_layer(s, r, 'signer %d' % i)
            eq(s.signature, r[2], 'signature of signer %d' % i)
            expect(type(r[2]) is bytes, 'a signature from %s', short(r[2]))
    if tag in (96, 97):
        at = 3 if tag == 96 else 4
        sub = raw[at] if len(raw) > at else []
        expect(isinstance(sub, list), 'recipients from %s', short(sub))
        eq(len(msg.recipients), len(sub), 'number of recipients')
        for i, (o, r) in enumerate(zip(msg.recipients, sub)):
            check_recipient(o, r, 'recipient %d' % i)


def snapshot(msg):
    """Everything a decoded message holds, comparable."""
    def layer(o):
        out = [type(o).__name__, o.phdr_encoded, B.frozen(o.phdr), B.frozen(o.uhdr), o.payload, o.external_aad, o.key]
        out.append(getattr(o, 'auth_tag', None))
        out.append(getattr(o, 'signature', None))
        out.append(B.frozen(dict(o.local_attrs)))
        out += [layer(s) for s in getattr(o, 'signers', [])]
        out += [layer(s) for s in getattr(o, 'recipients', [])]
        return out
    return layer(msg)


def judge(data, rec, must=None):
    """Decode through every class under both policies; compare with an independent parse. must: accept / refuse / None"""
    try:
        top = cbor2.loads(data)
        ok = isinstance(top, cbor2.CBORTag) and top.tag in CLASSES and isinstance(top.value, list)
    except Exception:
        ok = False
    got = attempt(B.CoseMessage.decode, data)
    if not ok:
        expect(isinstance(got, Raised), 'accepted, although not a tagged array of a known kind: %s', short(got))
    if isinstance(got, Raised):
        expect(must != 'accept', 'a valid message was refused: %s', got)
        for cls in CLASSES.values():
            r = attempt(cls.decode, data)
            expect(isinstance(r, Raised), 'refused by CoseMessage.decode and accepted by %s', cls.__name__)
        return None
    expect(must != 'refuse', 'a malformed message was accepted: %s', short(got))
    tag, raw = top.tag, top.value
    check_message(got, tag, raw)
    snap = snapshot(got)
    for t, cls in CLASSES.items():
        r = attempt(cls.decode, data)
        if t == tag:
            expect(not isinstance(r, Raised), 'accepted by CoseMessage.decode and refused by %s: %s', cls.__name__, r)
            expect(snapshot(r) == snap, '%s.decode and CoseMessage.decode differ', cls.__name__)
        else:
            expect(isinstance(r, Raised), '%s.decode returned a %s for tag %d', cls.__name__, type(r).__name__, tag)
    strict = attempt(B.CoseMessage.decode, data, allow_unknown_attributes=False)
    if not isinstance(strict, Raised):
        expect(snapshot(strict) == snap, 'the result depends on the attribute policy')
    again = attempt(B.CoseMessage.decode, data)
    expect(not isinstance(again, Raised) and snapshot(again) == snap, 'the second decoding differs from the first')
    rec.nt()
    return got

# ------------------------------------------------------------------------------------------- structured messages


def tree(shape, layers, wild):
    it = iter(layers)
    w = wild_from(wild)

    def ph(p):
        return enc(p, w) if p else b''

    def node(s):
        p, u = next(it)[:2]
        if s['t'] == 'signer':
            return [ph(p), u, b'sig']
        r = [ph(p), u, b'' if s['t'] in ('direct', 'dka', 'ss') else b'c' * 24]
        if s['n']:
            r.append([node(n) for n in s['n']])
        return r
    p, u = next(it)[:2]
    body = [ph(p), u, b'payload']
    k = shape['k']
    if k in ('sign1', 'mac0', 'mac'):
        body.append(b'tag')
    if shape['subs']:
        body.append([node(s) for s in shape['subs']])
    return body


def nodes(shape, body):
    """(kind, structure) of all layers: 'body', 'signer', 'recipient'"""
    out = [('body', body)]

    def rc(r):
        out.append(('recipient', r))
        for x in r[3] if len(r) > 3 else []:
            rc(x)
    if shape['subs']:
        for s in body[-1]:
            if shape['k'] == 'sign':
                out.append(('signer', s))
            else:
                rc(s)
    return out


NOT_BYTES = [None, '', 'a0', 0, 1, -1, [], {}, 1.5, True, [b''], {1: b''}]
NOT_MAP = [None, '', b'', b'\xa0', 0, [], [1, 5], 1.5, True]
BAD_PROT = [b'\x00', b'\x40', b'\x80', b'\x60', b'\xf6', b'\xa1', b'\xff', b'\x41\xa0', b'\xa1\x01', b'\x82\x01\x26', b'\xf7', b'\x20',
            b'\xc1\x00', b'\xa1\x04\x60']
NOT_LIST = [None, '', b'', 'ab', {}, 0, 1, True, b'\x80', {0: b''}]
DEFECTS = ['none', 'none', 'none', 'untagged', 'unknown tag', 'other tag', 'value', 'tagged twice', 'missing', 'prot', 'prot bytes',
           'unprot', 'payload', 'sig', 'subs', 'sub', 'payload', 'truncated']


@st.composite
def structured(draw):
    c = draw(c14.case())
    d = draw(st.sampled_from(DEFECTS))
    c['kinds'] = [k for k in c['kinds'] if k[0] != 'illegal']
    return {'c': c, 'd': d, 'at': draw(st.integers(0, 99)), 'v': draw(st.integers(0, 40)),
            'pay': draw(st.sampled_from(['keep', 'keep', 'null', 'empty', 'big'])),
            'tag': draw(st.one_of(st.integers(0, 300), st.sampled_from([0, 1, 2, 3, 4, 5, 15, 19, 30, 61, 95, 99, 100, 258, 1000, 2**32,
                                                                      2**64 - 1])).filter(lambda t: t not in CLASSES))}


def layers_of(case):
    shape = case['s']
    layers = c14.flatten(shape)
    placed = []
    for kd, e, where, bucket in case['kinds']:
        lay = layers[where % len(layers)]
        at = (where % len(layers), type(e[0]), e[0])
        if e[0] in lay[2] or at in placed:
            continue
        placed.append(at)
        b = 1 if lay[3] else bucket
        if any(e[0] == x and type(e[0]) is type(x) for x in lay[1 - b]):
            b = 1 - b
        lay[b][e[0]] = e[1]
    return layers


def check_structured(case, rec):
    c = case['c']
    shape = c['s']
    body = tree(shape, layers_of(c), c['w'])
    tag = M.TAG[shape['k']]
    k = shape['k']
    if case['pay'] == 'null':
        body[2] = None
    elif case['pay'] == 'empty':
        body[2] = b''
    elif case['pay'] == 'big':
        body[2] = b'p' * 70000
    d, at, v = case['d'], case['at'], case['v']
    ns = nodes(shape, body)
    kind, node = ns[at % len(ns)]
    must = 'refuse'
    top = Tag(tag, body)
    if d == 'none':
        must = 'accept'
    elif d == 'untagged':
        top = body
    elif d == 'unknown tag':
        top = Tag(case['tag'], body)
    elif d == 'other tag':
        # legal for the other kind or not: only faithfulness counts
        top = Tag(sorted(CLASSES)[v % 6], body)
        must = 'accept' if top.tag == tag else None
    elif d == 'value':
        top = Tag(tag, [None, {}, b'', 'x', 5, {0: body[0], 1: body[1]}, enc(body), True, 1.5][v % 9])
    elif d == 'tagged twice':
        top = Tag(tag, Tag(sorted(CLASSES)[v % 6], body)) if v & 1 else Tag(case['tag'], Tag(tag, body))
        if v & 1 == 0 and (case['tag'] < 40 or case['tag'] in RESOLVED):
            return      # tags the CBOR library interprets
    elif d == 'missing':
        need = {'signer': 3, 'recipient': 3}.get(kind) or {'sign1': 4, 'sign': 4, 'mac0': 4, 'mac': 4, 'enc0': 3, 'enc': 3}[k]
        n = v % need
        del node[n:]
    elif d == 'prot':
        node[0] = NOT_BYTES[v % len(NOT_BYTES)]
    elif d == 'prot bytes':
        node[0] = BAD_PROT[v % len(BAD_PROT)]
    elif d == 'unprot':
        node[1] = NOT_MAP[v % len(NOT_MAP)]
    elif d == 'payload':
        x = NOT_BYTES[v % len(NOT_BYTES)]
        if x is None and kind == 'body':
            must = 'accept'
        elif x is None and kind == 'recipient':
            must = None
        node[2] = x
    elif d == 'sig':
        x = NOT_BYTES[v % len(NOT_BYTES)]
        if k in ('sign1', 'mac0', 'mac'):
            body[3] = x
        elif kind == 'signer':
            node[2] = x
        else:
            must = 'accept'
    elif d == 'subs':
        x = NOT_LIST[v % len(NOT_LIST)]
        if kind == 'recipient' and len(node) > 3:
            node[3] = x
        elif shape['subs']:
            body[-1] = x
        else:
            must = 'accept'
    elif d == 'sub':
        x = NOT_LIST[v % len(NOT_LIST)]
        if kind == 'recipient' and len(node) > 3:
            node[3][at % len(node[3])] = x
        elif shape['subs']:
            body[-1][at % len(body[-1])] = x
        else:
            must = 'accept'
    data = enc(top, wild_from(c['w'][::-1]))
    if d == 'truncated':
        data = data[:(v * 977) % len(data)]
    rec.label(d if must != 'accept' else 'valid')
    rec.label(k)
    judge(data, rec, must)
    if must == 'refuse':
        rec.nt()

# ------------------------------------------------------------------------------------------- bytes


edit = st.one_of(
    st.tuples(st.just('flip'), st.integers(0, 400), st.integers(1, 255)), st.tuples(st.just('flip'), st.integers(0, 40), st.integers(1, 255)),
    st.tuples(st.just('bit'), st.integers(0, 400), st.integers(0, 7)),
    st.tuples(st.just('del'), st.integers(0, 400), st.integers(1, 6)), st.tuples(st.just('ins'), st.integers(0, 400), st.one_of(
        st.binary(max_size=4), st.sampled_from([b'\xa0', b'\x80', b'\xf6', b'\x40', b'\x41\xa0', b'\xd2', b'\xd8\x62', b'\x9f', b'\xff', b'\x1b',
                                                 b'\x43\xa1\x01\x26', b'\xc2\x41', b'\x83\x40\xa0\xf6']))),
    st.tuples(st.just('copy'), st.integers(0, 400), st.integers(1, 60)), st.tuples(st.just('cut'), st.integers(0, 400), st.just(0)))


@st.composite
def mutated(draw):
    c = draw(c14.case())
    return {'c': c, 'e': draw(st.lists(edit, min_size=1, max_size=3))}


def apply(data, edits):
    for t, at, x in edits:
        n = len(data)
        if not n:
            break
        at %= n
        if t == 'flip':
            data = data[:at] + bytes([data[at] ^ x]) + data[at + 1:]
        elif t == 'bit':
            data = data[:at] + bytes([data[at] ^ 1 << x]) + data[at + 1:]
        elif t == 'del':
            data = data[:at] + data[at + x:]
        elif t == 'ins':
            data = data[:at] + x + data[at:]
        elif t == 'copy':
            data = data[:at] + data[at:at + x] + data[at:]
        else:
            data = data[:at]
    return data


def plain(data):
    """No sharing or self-description anywhere (by a coarse look at the bytes), and nothing that confuses the CBOR library."""
    return not odd_key(data) and not any(t in data for t in (b'\xd8\x1c', b'\xd8\x1d', b'\xd9\x01\x00', b'\xd9\xd9\xf7'))


def check_mutated(case, rec):
    c = case['c']
    data = apply(c14.wire(c['s'], layers_of(c), c['w']), case['e'])
    if not plain(data):
        return
    got = judge(data, rec)
    rec.label('returned' if got is not None else 'raised')


cbor_value = st.recursive(
    st.one_of(G.leaf, st.sampled_from([Undefined, Raw(b'\xfb\x7f\xf8' + b'\0' * 6), Raw(b'\xf8\x20'), Raw(b'\xc0\x60'), Raw(b'\xe0')]),
              st.sampled_from([b'\xa0', b'', b'\xa1\x01\x26', b'\xa1\x01\x01', b'\xa1\x01\x25', b'\xa1\x01\x38\x18', b'\xa1\x01\x38\x1c'])),
    lambda x: st.one_of(st.lists(x, max_size=5), st.dictionaries(st.one_of(st.integers(-30, 40), G.text), x, max_size=4),
                        st.tuples(st.sampled_from(sorted(CLASSES) + [0, 2, 24, 258]), x).map(lambda t: ['tag', *t])), max_leaves=12)


def detag(x):
    if isinstance(x, list):
        if len(x) == 3 and x[0] == 'tag' and isinstance(x[1], int):
            return Tag(x[1], detag(x[2]))
        return [detag(i) for i in x]
    if isinstance(x, dict):
        return {k: detag(v) for k, v in x.items()}
    return x


hdr_like = st.dictionaries(st.sampled_from([1, 1, 1, 2, 3, 4, 5, 6, 9, -1, -2, -20, 33, 'x', 77, 'alg']), st.one_of(
    G.leaf, st.sampled_from([-7, 1, 5, -6, -3, -25, -29, -40, -27, 'ES256', [1]]), st.just(c14.KEYMAP)), max_size=3)
recipient_like = st.recursive(
    st.lists(st.one_of(hdr_like.map(enc), hdr_like, st.sampled_from([b'', b'ct', None, {}, {1: -6}, {1: -3}, {1: -29}])), max_size=5),
    lambda r: st.tuples(st.one_of(hdr_like.map(enc), st.just(b'')), hdr_like, st.sampled_from([b'', b'ct' * 12]), st.lists(r, max_size=2)).map(
        list), max_leaves=4)
soup_body = st.tuples(st.one_of(hdr_like.map(enc), st.just(b'')), st.one_of(hdr_like, hdr_like, cbor_value), st.sampled_from([b'', b'p', None, 5]),
                      st.one_of(st.sampled_from([b'', b'tag', None]), st.lists(recipient_like, max_size=3)),
                      st.lists(recipient_like, max_size=2)).flatmap(lambda t: st.integers(0, 5).map(lambda n: list(t)[:n]))


@st.composite
def soup(draw):
    c = draw(st.integers(0, 5))
    w = draw(st.lists(st.sampled_from([0, 0, 1, 2, 12]), max_size=6))
    if c == 0:
        return {'raw': draw(st.binary(max_size=40))}
    if c == 1:
        return {'raw': bytes([0xd0 | draw(st.integers(0, 15))]) + draw(st.binary(max_size=40))}
    if c == 2:
        return {'v': draw(cbor_value), 'w': w}
    return {'v': ['tag', draw(st.sampled_from(sorted(CLASSES))), draw(soup_body)], 'w': w}


def check_soup(case, rec):
    if 'raw' in case:
        data = case['raw']
    else:
        data = enc(detag(case['v']), wild_from(case['w']))
    if not plain(data):
        return
    got = judge(data, rec)
    rec.label('returned' if got is not None else 'raised')


# ------------------------------------------------------------------------------------------- histories

@st.composite
def history(draw):
    inputs = []
    for _ in range(draw(st.integers(2, 4))):
        c = draw(c14.case())
        inputs.append({'c': c, 'e': draw(st.lists(edit, max_size=2)) if draw(st.integers(0, 2)) == 0 else []})
    steps = draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from(['generic', 'own', 'other', 'strict', 'generic']),
                                    st.sampled_from(['keep', 'keep', 'scribble', 'drop'])), min_size=4, max_size=14))
    return {'in': inputs, 'steps': steps}


def scribble(msg):
    """Change a decoded message in every way."""
    for o in [msg] + list(getattr(msg, 'signers', [])) + list(getattr(msg, 'recipients', [])):
        for b in (o.phdr, o.uhdr):
            for v in list(b.values()):
                if isinstance(v, list):
                    v.append('scribble')
                elif isinstance(v, dict):
                    v['scribble'] = 1
                elif isinstance(v, B.CoseKey):
                    v['scribble'] = 1
                    v.kid = b'scribble'
            b[H.KID] = b'scribble'
            b['scribble'] = [1]
        o.phdr_update({'s': 1})
        o.uhdr = {H.KID: b'scribble'}
        o.local_attrs = {H.SuppPubOther: b'scribble'}
        o.external_aad = b'scribble'
        o.payload = b'scribble'
        o.key = B.SymmetricKey(k=b'k' * 16)
        o.alg_tstr_encoding = True
    if hasattr(msg, 'signers'):
        msg.signers.append(None)
    if hasattr(msg, 'recipients'):
        msg.recipients.append(None)


def outcome(data, how, cls):
    fn = {'generic': B.CoseMessage, 'strict': B.CoseMessage, 'own': cls, 'other': B.Enc0Message if cls is not B.Enc0Message else
          B.SignMessage}[how].decode
    r = attempt(fn, data, **({'allow_unknown_attributes': False} if how == 'strict' else {}))
    return r, (type(r.exc).__name__, str(r.exc)[:200]) if isinstance(r, Raised) else snapshot(r)


def check_history(case, rec):
    datas = []
    for i in case['in']:
        d = apply(c14.wire(i['c']['s'], c14.flatten(i['c']['s']), i['c']['w']), i['e'])
        if not plain(d):
            return
        datas.append((d, M.CLASS[i['c']['s']['k']]))
    first, kept = {}, []
    for i, how, after in case['steps']:
        i %= len(datas)
        d, cls = datas[i]
        r, out = outcome(d, how, cls)
        if (i, how) in first:
            rec.nt()
            expect(first[i, how] == out, 'decoding the same input again (%s) gave %s, the first time it was %s', how, short(out),
                   short(first[i, how]))
        else:
            first[i, how] = out
        if isinstance(r, Raised):
            continue
        if after == 'scribble':
            scribble(r)
        elif after == 'keep':
            kept.append((r, out))
    for r, out in kept:
        expect(snapshot(r) == out, 'a decoded message was changed by decoding others: %s', short(out))


# ------------------------------------------------------------------------------------------- coverage-guided search


def seeds(rng):
    """Messages of every kind to start from."""
    out = [c14.wire(c['s'], layers_of(c), c['w']) for c in grey.draws(structured().map(lambda c: c['c']), rng, 40)]
    return [d for d in out if len(d) < 2000]


def check_grey(case, rec):
    data = case['data']
    if not plain(data):
        return
    got = judge(data, rec)
    rec.label('returned' if got is not None else 'raised')


FACETS = [
    Facet('structured', structured, check_structured, 3200),
    Facet('mutated', mutated, check_mutated, 2600),
    Facet('soup', soup, check_soup, 5000),
    Facet('history', history, check_history, 600),
    Facet('guided', None, check_grey, 16000, driver=grey.driver(seeds, lambda: [b'\xa1\x01\x26', b'\xa0', 16, 17, 18, 96, 97, 98])),
]
