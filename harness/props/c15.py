"""C15 Keys survive encoding, in every spelling."""
import base64
import copy

import hypothesis.strategies as st

import algs
import build as B
import fix
import gen as G
import msgs as M
import refcbor
from core import Facet, attempt, eq, expect, Raised, same, short
from refcbor import enc, wild_from

H = B.pycose.headers
KP = B.pycose.keys.keyparam
RULE = ('Keys of every type (public, private, compressed, symmetric, two- and multi-prime RSA) with optional and unknown '
        'parameters, built from dictionaries whose every label and value has its own spelling, through constructors and from '
        'CBOR in non-preferred encodings, alone and inside headers. Non-trivial: at least one optional or unknown parameter '
        'or a non-integer spelling is in play.')
ASSUMPTIONS = ['an empty list of key operations is no restriction and is not kept',
               'the key type is spelled as an integer, its exact name or a class in dictionaries; other parameters in any '
               'letter case']

IDS = {'ec': 2, 'okp': 1, 'rsa': 3, 'sym': 4, 'mrsa': 3}
ALL_ALGS = sorted(algs.ALG_CLASSES)


def known(kty):
    return {**algs.KP_COMMON, **algs.KP_BY_KTY[kty]}


def foreign(kty, lab):
    """The label is not one this key type knows."""
    if isinstance(lab, bool):
        return False
    if isinstance(lab, int):
        return lab not in known(kty)
    return lab.upper() not in {v[1] for v in known(kty).values()}


OPS = {2: [1, 2, 7, 8], 1: [1, 2, 7, 8], 3: list(range(1, 11)), 4: [3, 4, 5, 6, 9, 10]}


@st.composite
def params(draw, kty):
    p = {}
    if draw(st.booleans()):
        p[2] = draw(G.small)
    if draw(st.booleans()):
        p[3] = draw(st.sampled_from(ALL_ALGS))
    if draw(st.booleans()):
        p[4] = draw(st.lists(st.integers(1, 10), min_size=1, max_size=4))
    if draw(st.booleans()):
        p[5] = draw(G.small)
    for _ in range(draw(st.sampled_from([0, 0, 1, 2, 3]))):
        lab = draw(st.one_of(G.unknown_label, st.integers(-14, 8), st.sampled_from(['N', 'x', 'K', 'Y', 'd', 'r_i', 'curve'])))
        if foreign(kty, lab):
            p[lab] = draw(G.any_value)
    order = draw(st.permutations(list(p))) if len(p) > 1 else list(p)
    return {k: p[k] for k in order}


@st.composite
def spec(draw):
    kt = draw(st.sampled_from(['ec', 'ec', 'okp', 'okp', 'sym', 'rsa', 'mrsa']))
    if kt == 'mrsa':
        return {'kt': kt, 'f': [draw(G.blob(1, 130)) for _ in range(11)],
                'other': draw(st.lists(st.one_of(st.dictionaries(st.sampled_from([-10, -11, -12]), G.blob(1, 66), max_size=3),
                                                 G.any_value), min_size=1, max_size=3))}
    return draw({'ec': G.ec_key(), 'okp': G.okp_key(), 'sym': G.sym_key(), 'rsa': G.rsa_key()}[kt])


@st.composite
def case(draw):
    k = draw(spec())
    kty = IDS[k['kt']]
    return {'k': k, 'form': draw(st.sampled_from(['full', 'full', 'public', 'private only', 'compressed'])),
            'p': draw(params(kty)), 'sl': draw(st.lists(st.integers(0, 4), min_size=1, max_size=6)),
            'sv': draw(st.lists(st.integers(0, 4), min_size=1, max_size=6)),
            'sl2': draw(st.lists(st.integers(0, 4), min_size=1, max_size=6)),
            'w': draw(st.lists(st.sampled_from([0, 0, 1, 2, 3, 12]), max_size=8)), 'rot': draw(st.integers(0, 20)),
            'kts': draw(st.booleans()), 'cf': draw(G.key_form)}


MRSA = [-1, -2, -3, -4, -5, -6, -7, -8, -10, -11, -12]


def maps(case):
    """(map given, map expected)"""
    k, form = case['k'], case['form']
    if k['kt'] == 'mrsa':
        m = {1: 3, **case['p'], **dict(zip(MRSA, k['f'])), -9: k['other']}
        return m, m
    full = B.wire_key(k, True, case['p'])
    given, want = dict(full), dict(full)
    if k['kt'] in ('ec', 'okp', 'rsa') and form == 'public':
        for lab in [x for x in full if isinstance(x, int) and x in ([-4] if k['kt'] != 'rsa' else range(-8, -2)) and
                    x not in case['p']]:
            del given[lab], want[lab]
    elif k['kt'] == 'ec' and form == 'private only':
        del given[-2], given[-3]
    elif k['kt'] == 'okp' and form == 'private only':
        del given[-2], want[-2]
    elif k['kt'] == 'ec' and form == 'compressed':
        given[-3] = bool(full[-3][-1] & 1)
        if case['kts']:
            del given[-4], want[-4]
    return given, want


def specific(kty, lab):
    return lab == 1 or lab in algs.KP_BY_KTY[kty]


def cased(name, s):
    return name if s == 2 else name.lower() if s == 3 else name.title()


def spelled(m, sl, sv, rot=0):
    """The dictionary with per-entry spelling; the specific parameters may come in any order."""
    kty = m[1]
    items = list(m.items())
    spec_part = [i for i in items if isinstance(i[0], int) and specific(kty, i[0])]
    rest = [i for i in items if i not in spec_part]
    r = rot % len(spec_part)
    items = rest + spec_part[r:] + spec_part[:r] if rot & 1 else spec_part[r:] + spec_part[:r] + rest
    out = {}
    for i, (lab, v) in enumerate(items):
        s, t = sl[i % len(sl)], sv[i % len(sv)]
        kn = known(kty) if isinstance(lab, int) else {}
        if lab in kn:
            if lab == 1:
                v = (B.kty_class(v), v, algs.KTYS[v][1])[t % 3]
            elif lab == 3:
                v = B.alg_class(v) if t == 0 else v if t == 1 else cased(algs.ALG_NAMES[v], t)
            elif lab == 4:
                v = [B.op_class(o) if (t + j) % 3 == 0 else o if (t + j) % 3 == 1 else cased(algs.KEYOPS[o][1], t)
                     for j, o in enumerate(v)]
            elif lab == -1 and kty in (1, 2):
                v = B.curve_class(v) if t == 0 else v if t == 1 else cased(algs.CURVES[v][1], t)
            name = kn[lab][1]
            lab = (B.kp_class(kty, lab), lab, name)[s % 3] if lab == 1 else \
                (B.kp_class(kty, lab) if s == 0 else lab if s == 1 else cased(name, s))
        out[lab] = v
    return out


def has_attrs(key, want):
    """The attribute interface shows the same values."""
    kty = want[1]
    expect(key.kty is B.kty_class(kty), 'kty is %s', short(key.kty))
    expect(key.alg is (B.alg_class(want[3]) if 3 in want else None), 'alg is %s', short(key.alg))
    eq(key.kid, want.get(2, b''), 'kid')
    eq(key.base_iv, want.get(5, b''), 'base_iv')
    ops = key.key_ops
    expect(len(ops) == len(want.get(4, [])) and all(o is B.op_class(w) for o, w in zip(ops, want.get(4, []))),
           'key_ops are %s', short(ops))
    for lab, (_, name) in algs.KP_BY_KTY[kty].items():
        if name == 'CURVE':
            expect(key.crv is B.curve_class(want[-1]), 'crv is %s', short(key.crv))
        else:
            eq(getattr(key, name.lower()), want.get(lab, [] if name == 'OTHER' else b''), name)


def check(case, rec):
    given, want = maps(case)
    kty = want[1]
    d1 = spelled(given, case['sl'], case['sv'], case['rot'])
    before = B.frozen(d1)
    k1 = attempt(B.CoseKey.from_dict, d1)
    expect(not isinstance(k1, Raised), 'from_dict refused %s: %s', short(d1), k1)
    expect(B.frozen(d1) == before, "from_dict changed the caller's dictionary: %s", short(d1))
    B.is_key(k1, want, 'from_dict')
    has_attrs(k1, want)
    e1 = k1.encode()
    expect(type(e1) is bytes and refcbor.item_end(e1) == len(e1), 'encode: %s', short(e1))
    eq(k1.encode(), e1, 'second encoding')
    # other spellings of the same dictionary
    d2 = spelled(given, case['sl2'], case['sl'], case['rot'])
    eq(B.CoseKey.from_dict(d2).encode(), e1, 'another spelling of the same dictionary')
    k3 = getattr(B.pycose.keys, algs.KEYCLS_BY_KTY[kty]).from_dict(d2)
    eq(k3.encode(), e1, 'from_dict of the key class')
    # after transport
    for what, data in (('its own encoding', e1), ('a foreign encoding', enc(given, wild_from(case['w'])))):
        for cls in (B.CoseKey, type(k1)):
            k = attempt(cls.decode, data)
            expect(not isinstance(k, Raised), 'decoding %s: %s', what, k)
            B.is_key(k, want, 'decoded from ' + what)
            has_attrs(k, want)
            expect(k == k1 and k1 == k and not k != k1, 'the decoded key is not equal to the original one')
    # through the constructor
    if case['k']['kt'] != 'mrsa':
        pub = case['form'] == 'public' or (case['form'] == 'compressed' and case['kts'] and case['k']['kt'] == 'ec')
        k = B.key(case['k'], not pub, case['p'], case['cf'])
        if case['k']['kt'] == 'okp' and case['form'] == 'private only':
            return rec.nt()
        B.is_key(k, want, 'constructed')
        expect(k == k1, 'the constructed key is not equal to the one from the dictionary')
    else:
        opt = {x: v for x, v in d1.items() if x not in (1, 'KTY', KP.KpKty) and
               not (x in algs.KP_RSA if type(x) is int else (x.upper() in [v_[1] for v_ in algs.KP_RSA.values()] if isinstance(x, str)
                                        else isinstance(x, type) and x.identifier < 0))}
        names = [algs.KP_RSA[x][1].lower() for x in MRSA]
        k = B.RSAKey(other=copy.deepcopy(case['k']['other']), optional_params=opt, **dict(zip(names, case['k']['f'])))
        B.is_key(k, want, 'constructed')
    if case['p'] or set(case['sl']) != {1}:
        rec.nt()
    rec.label('%s, %s' % (case['k']['kt'], case['form']))
    if any(foreign(kty, x) for x in case['p']):
        rec.label('unknown parameters')


# ------------------------------------------------------------------------------------------- inside headers

@st.composite
def header_case(draw):
    c = draw(case())
    c['lab'] = draw(st.sampled_from([-1, -2]))
    c['b'] = draw(st.integers(0, 1))
    c['obj'] = draw(st.booleans())
    c['ls'] = draw(st.integers(0, 4))
    c['where'] = draw(st.sampled_from(['sign1', 'enc0', 'mac0', 'signer', 'recipient']))
    return c


ED = B.key({'kt': 'okp', 'crv': 'ED25519', 'd': b'd' * 32})
SYM = B.key({'kt': 'sym', 'k': b'k' * 16})


def check_header(case, rec):
    given, want = maps(case)
    d = spelled(given, case['sl'], case['sv'], case['rot'])
    v = B.CoseKey.from_dict(d) if case['obj'] else d
    before = B.frozen(v)
    h = {B.spell_label(case['lab'], case['ls']): v}
    b, where = case['b'], case['where']
    alg = {'sign1': -8, 'signer': -8, 'enc0': 1, 'mac0': 5, 'recipient': -6}[where]
    if where == 'recipient':
        b = 1           # direct recipients have no protected header
    h[B.spell_label(1, case['ls'])] = B.spell_alg(alg, case['ls'])
    if where == 'enc0':
        h[H.IV] = b'i' * 12
    kw = {'uhdr' if b else 'phdr': h}
    if where == 'signer':
        o = B.SignMessage(payload=b'x', signers=[B.CoseSignature(key=ED, **kw)])
        got = lambda m: m.signers[0]     # noqa: E731
    elif where == 'recipient':
        o = B.MacMessage(phdr={1: 5}, payload=b'x', key=SYM,
                         recipients=[B.pycose.messages.recipient.DirectEncryption(**kw)])
        got = lambda m: m.recipients[0]     # noqa: E731
    else:
        o = M.CLASS[where](payload=b'x', key=ED if where == 'sign1' else SYM, **kw)
        got = lambda m: m     # noqa: E731
    data = o.encode()
    expect(B.frozen(v) == before, 'the key put in the header was changed')
    msg = attempt(B.CoseMessage.decode, data)
    expect(not isinstance(msg, Raised), 'decoding a message with a key in a header: %s', msg)
    m = got(msg)
    bucket = (m.phdr, m.uhdr)[b]
    k = bucket[B.hdr_class(case['lab'])]
    B.is_key(k, want, 'key from the header')
    has_attrs(k, want)
    is_obj = got(msg).get_attr(B.hdr_class(case['lab']))
    expect(is_obj is k, 'get_attr returns another key')
    rec.nt()
    rec.label('in the %s bucket of %s' % ('pu'[b], where))


@st.composite
def text_case(draw):
    return {'b': draw(st.binary(max_size=80)), 'url': draw(st.booleans()), 'pad': draw(st.booleans())}


def check_text(case, rec):
    """Parts of keys written in base64, in either alphabet, with or without padding."""
    b = case['b']
    t = B.CoseKey.base64encode(b)
    expect(t == base64.b64encode(b).decode(), 'base64encode of %s: %r', b.hex(), t)
    if case['url']:
        t = t.replace('+', '-').replace('/', '_')
    if not case['pad']:
        t = t.rstrip('=')
    got = attempt(B.CoseKey.base64decode, t)
    eq(got, b, 'base64decode of %r' % t)
    rec.label('url' if case['url'] else 'standard')
    if len(b) > 2:
        rec.nt()


FACETS = [
    Facet('text', text_case, check_text, 2000),
    Facet('keys', case, check, 5000, shards=6),
    Facet('headers', header_case, check_header, 2000, shards=2),
]
