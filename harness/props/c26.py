"""C26 Printing works on every object and never leaks a secret."""
import base64
import re
from collections.abc import Mapping

import cbor2
import hypothesis.strategies as st

import algs
import build as B
import fix
import gen as G
import grey
import msgs as M
from core import attempt, eq, expect, Facet, fail, Raised, short
from props import c14, c15, c19, c20, c25
from refcbor import Tag, enc

H = B.pycose.headers
RULE = ('repr(), str() and format() of keys of every type, form and content (also after deletions, and with labels and values '
        'that resemble the printed ones), of messages of every kind in every state (built, encoded, decoded, opened) with '
        'their signers, recipients and keys, of messages decoded from generated structures, mutated bytes and random CBOR, and '
        'of every attribute class and context. The errors of keys which are refused (damaged, of odd length or type) and of operations with keys that do not fit. The text is searched for every private value and symmetric key of at least 8 '
        'bytes involved, as bytes literal, hexadecimal, base64, decimal and list of integers; the object is compared with its '
        'snapshot. Non-trivial: a secret was searched for, or a decoded object was printed.')
ASSUMPTIONS = ['a secret which also occurs in what is public about the case is not searched for', 'secrets of at least 8 bytes']

CLASS_NAMES = ['KpKty', 'KpKid', 'KpAlg', 'KpKeyOps', 'KpBaseIV', 'EC2KpCurve', 'EC2KpX', 'EC2KpY', 'EC2KpD', 'OKPKpCurve', 'OKPKpX',
               'OKPKpD', 'SymKpK', 'RSAKpN', 'RSAKpE', 'RSAKpD', 'RSAKpP', 'RSAKpQ', 'RSAKpDP', 'RSAKpDQ', 'RSAKpQInv', 'RSAKpOther',
               'RSAKpRi', 'RSAKpDi', 'RSAKpTi', 'OKPKpY', 'PartialIV', 'Algorithm', 'StaticKey', 'EphemeralKey', '__name__', 'None', '%s',
               '{}', '{0}', 'IV ']


WORDS, NUMBER = re.compile(rb'[A-Za-z0-9_ .,:-]*'), re.compile(rb'[0-9A-Fa-f]*')


def leaves(x):
    """All byte strings in a value."""
    if isinstance(x, bytes):
        yield x
    elif isinstance(x, Mapping):
        for k, v in x.items():
            yield from leaves(k)
            yield from leaves(v)
    elif isinstance(x, (list, tuple, set, frozenset)):
        for v in x:
            yield from leaves(v)
    elif isinstance(x, cbor2.CBORTag):
        yield from leaves(x.value)
    elif isinstance(x, str):
        yield x.encode('utf-8', 'replace')


def renderings(s):
    n = int.from_bytes(s, 'big')
    out = [s.hex(), s.hex().upper(), base64.b64encode(s).decode().rstrip('='),
           base64.urlsafe_b64encode(s).decode().rstrip('='), str(list(s))[1:-1]]
    if not WORDS.fullmatch(s) or len(set(s)) == 1 and not NUMBER.fullmatch(s):
        # not a piece of text which is printed anyway, as the name of a parameter
        out.append(repr(s)[2:-1])
    if n > 2**63:
        out += [str(n), '%x' % n]
    return out


def secrets_of(spec):
    """Private values of a key spec."""
    if spec['kt'] == 'sym':
        return [spec['k']]
    if spec['kt'] == 'okp':
        return [spec['d']]
    if spec['kt'] == 'ec':
        return [B.wire_key(spec)[-4]]
    k = fix.RSA[spec['i']]
    return [B.i2b(k[f]) for f in ('d', 'p', 'q', 'dp', 'dq', 'qinv')]


def show(obj, what, secrets=(), public=()):
    """The printable forms of an object."""
    for f in (repr, str, '{}'.format, lambda o: '%s' % (o,), lambda o: '%r' % ([o],)):
        r = attempt(f, obj)
        expect(not isinstance(r, Raised), 'printing a %s: %s', what, r)
        expect(type(r) is str, 'printing a %s gave %s', what, short(r))
        for s in secrets:
            if len(s) < 8:
                continue
            if any(s in p or s.strip(b'\0') in p for p in public):
                continue
            for t in renderings(s):
                expect(t not in r, 'printing a %s shows the secret %s: %s', what, s.hex(), short(r))


def searched(secrets, public):
    return any(len(s) >= 8 and not any(s in p or s.strip(b'\0') in p for p in public) for s in secrets)

# ------------------------------------------------------------------------------------------- keys


@st.composite
def key_case(draw):
    c = draw(c15.case())
    kind = draw(st.sampled_from(['plain', 'plain', 'resemble', 'resemble', 'any']))
    extra = []
    if kind == 'resemble':
        extra = draw(st.lists(st.tuples(st.sampled_from(CLASS_NAMES), draw_value), min_size=1, max_size=3))
    elif kind == 'any':
        extra = draw(st.lists(st.tuples(G.unknown_label.filter(lambda x: not G.is_key_label(x)), G.any_value), max_size=3))
    return {'k': c, 'x': [list(e) for e in extra], 'how': draw(st.integers(0, 3)), 'del': draw(st.lists(st.integers(0, 12), max_size=4)),
            'alg': draw(st.one_of(st.none(), st.sampled_from(sorted(algs.ALG_CLASSES))))}


draw_value = st.one_of(G.any_value, st.sampled_from([None, 0, 5, True, 1.5, [], [[]], {}, '', 'x', b'', b'x' * 40]))


def check_key(case, rec):
    c = case['k']
    m = dict(c15.maps(c)[0])
    for lab, v in case['x']:
        m[lab] = v
    if case['alg'] is not None:
        m[3] = case['alg']
    if case['how'] == 0:
        key = B.CoseKey.decode(enc(m))
    elif case['how'] == 1:
        key = B.CoseKey.from_dict(B.spell_key_map(m, 0, 0))
    elif case['how'] == 2:
        key = B.CoseKey.from_dict(B.spell_key_map(m, 2, 1))
    else:
        key = B.CoseKey.from_dict(m)
    hidden = SECRET[c15.IDS[c['k']['kt']]]
    secrets = [s for lab in hidden if lab in m for s in leaves(m[lab])]
    public = list(leaves({k: v for k, v in m.items() if k not in hidden}))
    once(key, secrets, public)
    if case['del']:
        for i in case['del']:
            labs = sorted(key, key=repr)
            if not labs:
                break       # everything may be deleted from an RSA key
            attempt(key.__delitem__, labs[i % len(labs)])
            once(key, secrets, public)
    if secrets and searched(secrets, public):
        rec.nt()
        rec.label('secret searched for')
    rec.label(c['k']['kt'])


def once(key, secrets, public):
    before = B.frozen(key)
    wire = attempt(key.encode)
    show(key, type(key).__name__, secrets, public)
    eq(B.frozen(key), before, 'the key after printing it')
    if isinstance(wire, bytes):
        eq(key.encode(), wire, 'the encoding of the key after printing it')
    if isinstance(attempt(B.CoseKey.from_dict, key), Raised):
        return      # no longer a key which can be put anywhere
    # inside other objects
    m = B.Sign1Message(phdr={H.EphemeralKey: key}, uhdr={H.StaticKey: key, 'k': [1]}, payload=b'p', key=key)
    show(m, 'message with a key in its headers', secrets, public)
    r = B.pycose.messages.recipient.KeyWrap(uhdr={H.StaticKey: key}, key=key)
    r.local_attrs = {H.StaticKey: key}
    show(B.EncMessage(recipients=[r]), 'message with a recipient with a key', secrets, public)
    show(B.SignMessage(signers=[B.CoseSignature(phdr={-1: key}, key=key)]), 'message with a signer with a key', secrets, public)
    s = B.CoseSignature(phdr={-1: key}, uhdr={'STATIC_KEY': key}, key=key)
    show(s, 'signer with a key', secrets, public)
    eq(B.frozen(key), before, 'the key after printing messages')


SECRET = {4: [-1], 2: [-4], 1: [-4], 3: [-3, -4, -5, -6, -7, -8, -9, -10, -11, -12]}
# ------------------------------------------------------------------------------------------- messages


@st.composite
def message_case(draw):
    c = draw(c25.any_message())
    return {'c': c, 'x': draw(st.lists(st.tuples(st.sampled_from(CLASS_NAMES), draw_value), max_size=2)), 'n': draw(st.integers(0, 5)),
            'null': draw(st.booleans())}


def case_secrets(c):
    out, pub = [], []
    specs = [c.get('key')] + [s['key'] for s in c.get('signers', [])]
    for r in c.get('rcpts', []):
        specs += [r.get('key'), r.get('rk'), r.get('sk')]
        pub.append(r['h'])
        pub += [r.get(k) for k in ('pub', 'priv', 'kp', 'vp', 'rp', 'pp', 'sp')]
    for s in c.get('signers', []):
        pub += [s['h'], s['aad'], s['kp'], s['vp']]
    for s in specs:
        if s:
            out += secrets_of(s)
    if 'cek' in c:
        out.append(c['cek'])
    pub += [c['h'], c['payload'], c.get('aad'), c.get('iv'), c.get('kp'), c.get('vp'), c.get('part')]
    return out, pub


def all_objects(msg, local=True):
    out = [msg]
    for o in c25.layers(msg)[1:]:
        out.append(o)
        if local:
            out += [v for v in o.local_attrs.values() if isinstance(v, B.CoseKey)]
        out += [v for v in list(o.phdr.values()) + list(o.uhdr.values()) if isinstance(v, B.CoseKey)]
    out += [o.key for o in list(out) if hasattr(o, 'external_aad') and o.key is not None]
    return out


def public_leaves(vals):
    """Leaves of header data, without the private parts of key specs."""
    for x in vals:
        yield from leaves([strip_specs(x)])


def strip_specs(x):
    if isinstance(x, dict):
        if 'kt' in x:
            return None
        return {k: strip_specs(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [strip_specs(v) for v in x]
    return x


def check_message(case, rec):
    c = case['c']
    secrets, pub = case_secrets(c)
    public = list(public_leaves(pub + [case['x']]))
    msg = M.build(c)

    def state(m):
        def layer(o):
            return [type(o).__name__, id(o), B.frozen(o.phdr), B.frozen(o.uhdr), o.phdr_encoded, o.payload, o.external_aad,
                    B.frozen(dict(o.local_attrs)), B.frozen(o.key), getattr(o, 'auth_tag', None), getattr(o, 'signature', None)] + [
                layer(x) for x in c25.layers(o)[1:]]
        return layer(m)

    def look(m, when):
        before = state(m)
        for o in all_objects(m):
            show(o, '%s %s' % (type(o).__name__, when), secrets, public)
        eq(state(m), before, 'the message after printing it (%s)' % when)
    look(msg, 'before encoding')
    data = M.encode(c, msg)
    look(msg, 'after encoding')
    got = M.receive(c, data)
    look(got, 'after decoding')
    obj = M.arm(c, got)
    if c['k'] in ('enc', 'mac') and got.key is not None:
        secrets = secrets + [got.key.k]
    look(got, 'with its key')
    c25.open_message(c, got, obj)
    if c['k'] == 'enc':
        secrets = secrets + [got.key.k]
    look(got, 'after opening it')
    t = c25.layers(got)[case['n'] % len(c25.layers(got))]
    for lab, v in case['x']:
        t.uhdr_update({lab: v})
        t.phdr_update({lab: v})
    if case['null']:
        t.payload = None
    t.phdr_update({H.KID: b''})
    look(got, 'after changing it')
    if searched(secrets, public):
        rec.nt()
        rec.label('secret searched for')
    rec.label(c['k'])

# ------------------------------------------------------------------------------------------- what can be decoded


@st.composite
def decoded(draw):
    c = draw(st.one_of(c20.structured().map(lambda x: ('structured', x)), c20.mutated().map(lambda x: ('mutated', x)),
                       c20.soup().map(lambda x: ('soup', x)), resembling().map(lambda x: ('resembling', x))))
    return {'t': c[0], 'c': c[1]}


@st.composite
def resembling(draw):
    """Headers and keys in headers with labels which are the names of classes, and any values."""
    def d():
        return draw(st.dictionaries(st.one_of(st.sampled_from(CLASS_NAMES), st.integers(40, 60)), draw_value, max_size=2))
    k = B.wire_key(draw(st.one_of(G.ec_key(), G.okp_key(), G.sym_key())), draw(st.booleans()), d())
    bs = [{**d(), **({-1: k} if draw(st.booleans()) else {}), **({5: draw(G.small)} if draw(st.booleans()) else {}),
           **({6: draw(G.small)} if draw(st.booleans()) else {})} for _ in range(4)]
    kind = draw(st.sampled_from(sorted(M.TAG)))
    p = draw(st.one_of(st.none(), G.small))
    body = [enc(bs[0]) if bs[0] else b'', bs[1], p]
    if kind in ('sign1', 'mac0', 'mac'):
        body.append(draw(G.small))
    if kind == 'sign':
        body.append([[enc(bs[2]), bs[3], b'sig']])
    if kind in ('mac', 'enc'):
        al = draw(st.sampled_from([-6, -3, -29, -27]))
        bs[3][1] = al
        body.append([[enc(bs[2]) if al < -6 and bs[2] else b'', bs[3], b'' if al in (-6, -27) else b'c' * 24]])
    return enc(Tag(M.TAG[kind], body))


def check_decoded(case, rec):
    if case['t'] == 'resembling':
        data = [case['c']]
    else:
        data = inputs_of(case)
    for d in data:
        print_decoded(d, rec)


def print_decoded(d, rec):
    got = attempt(B.CoseMessage.decode, d)
    if isinstance(got, Raised):
        return
    before = c20.snapshot(got)
    for o in all_objects(got):
        show(o, 'decoded %s' % type(o).__name__)
    keys = [k for x in c25.layers(got) for k in list(x.phdr.values()) + list(x.uhdr.values()) if isinstance(k, B.CoseKey)]
    pub = list(leaves(detag_all(cbor2.loads(d))))
    for k in keys:
        sec = [v for a in ('d', 'k', 'p', 'q', 'dp', 'dq', 'qinv') for v in [attempt(getattr, k, a, b'')] if isinstance(v, bytes)]
        for s in sec:
            if len(s) >= 8 and len(set(s)) > 4 and sum(x.count(s.strip(b'\0')) for x in pub) <= 1:
                for o in all_objects(got):
                    show(o, 'decoded %s' % type(o).__name__, [s])
    eq(c20.snapshot(got), before, 'the decoded message after printing it')
    rec.nt()
    rec.label(type(got).__name__)


def detag_all(x):
    """The parsed message with its protected headers parsed as well (in addition)."""
    v = x.value
    out = [v]

    def walk(n):
        if isinstance(n, list):
            if n and isinstance(n[0], bytes) and n[0]:
                p = attempt(cbor2.loads, n[0])
                if not isinstance(p, Raised):
                    n[0] = p
            for y in n:
                walk(y)
    walk(v)
    return out


def grey_seeds(rng):
    return [d for d in grey.draws(resembling(), rng, 40) if len(d) < 2000] + c20.seeds(rng)[:20]


def check_guided(case, rec):
    if c20.plain(case['data']):
        print_decoded(case['data'], rec)


def inputs_of(case):
    """The byte strings a C20 case decodes."""
    taken = []
    judge = c20.judge

    def spy(data, rec, must=None):
        taken.append(data)
    c20.judge = spy
    try:
        from core import Rec
        attempt({'structured': c20.check_structured, 'mutated': c20.check_mutated, 'soup': c20.check_soup}[case['t']], case['c'], Rec())
    finally:
        c20.judge = judge
    return taken

# ------------------------------------------------------------------------------------------- attributes


def attributes():
    import inspect
    out = []
    for mod in ('headers', 'algorithms', 'keys.keyparam', 'keys.keyops', 'keys.keytype', 'keys.curves'):
        m = __import__('pycose.' + mod, fromlist=['x'])
        for n, c in sorted(vars(m).items()):
            if inspect.isclass(c) and c.__module__ == m.__name__ and hasattr(c, 'identifier') and not n.startswith('_'):
                out.append([m.__name__, n])
    return out


def check_attribute(case, rec):
    mod = __import__(case[0], fromlist=['x'])
    c = getattr(mod, case[1])
    before = {k: v for k, v in vars(c).items()}
    show(c, 'class %s' % case[1])
    inst = attempt(c)
    if not isinstance(inst, Raised):
        show(inst, 'attribute %s' % case[1])
    expect(dict(vars(c)) == before, 'printing changed %s', case[1])
    rec.nt()


# ------------------------------------------------------------------------------------------- headers of every kind

HEADER_NAMES = sorted({n for v in algs.HEADERS.values() for n in v} | {'PartialIV', 'ALGORITHM', 'phdr', 'len'})


@st.composite
def headers_case(draw):
    def entry(draw):
        lab = draw(st.one_of(st.sampled_from(sorted(algs.HEADERS)), st.sampled_from(sorted(algs.HEADERS)), st.sampled_from(HEADER_NAMES),
                             G.unknown_label))
        if lab == 1:
            return [lab, draw(st.sampled_from(sorted(algs.ALG_CLASSES)))]
        if lab in algs.HEADERS and type(lab) is int and draw(st.integers(0, 3)):
            return [lab, draw(G.value_for(lab))]
        return [lab, draw(draw_value)]
    return {'k': draw(st.sampled_from(sorted(M.CLASS) + ['signer', 'kw', 'dka'])),
            'how': draw(st.integers(0, 2)), 'p': [entry(draw) for _ in range(draw(st.integers(0, 4)))],
            'u': [entry(draw) for _ in range(draw(st.integers(0, 4)))]}


def check_headers(case, rec):
    """Headers set afterwards, with labels and values of every kind, known ones in either bucket."""
    cls = {'signer': B.CoseSignature, 'kw': B.pycose.messages.recipient.KeyWrap,
           'dka': B.pycose.messages.recipient.DirectKeyAgreement}.get(case['k']) or M.CLASS[case['k']]

    def value(l, v):
        if l == 1:
            return B.alg_class(v)
        return B.key(v['key'], True) if B.is_spec(v) else v
    p, u = ({B.hdr_class(l) if l in algs.HEADERS else l: value(l, v) for l, v in case[b]} for b in 'pu')
    if case['how'] == 0:
        o = attempt(cls, p, u)
        if isinstance(o, Raised):
            rec.label('refused by the constructor')
            return
    else:
        o = cls()
        if case['how'] == 1:
            o.phdr, o.uhdr = p, u
        else:
            o.phdr_update(p)
            o.uhdr_update(u)
    before = [B.frozen(o.phdr), B.frozen(o.uhdr)]
    public = list(public_leaves([case]))
    secrets = [x for b in 'pu' for _, v in case[b] if B.is_spec(v) for x in secrets_of(v['key'])]
    show(o, case['k'], secrets, public)
    if case['k'] == 'signer':
        show(B.SignMessage(signers=[o]), 'message with this signer', secrets, public)
    if case['k'] in ('kw', 'dka'):
        show(B.MacMessage(recipients=[o]), 'message with this recipient', secrets, public)
    eq([B.frozen(o.phdr), B.frozen(o.uhdr)], before, 'the headers after printing them')
    rec.label('headers of a ' + case['k'])
    if p or u:
        rec.nt()


@st.composite
def context_case(draw):
    o = st.one_of(st.none(), G.small)
    return {'p': [draw(o) for _ in range(6)], 'alg': draw(st.sampled_from(sorted(algs.KW) + sorted(algs.ENC))), 'len': draw(st.sampled_from([16, 24, 32])),
            'prot': draw(st.one_of(G.small, st.just(None))), 'o': draw(G.small), 's': draw(G.small), 'd': draw(st.booleans())}


def check_context(case, rec):
    ctx = B.pycose.messages.context
    pub = ctx.SuppPubInfo(case['len'], *([] if case['prot'] is None else [case['prot'], case['o']]))
    kw = {} if case['d'] else {'party_u_info': ctx.PartyInfo(*case['p'][:3]), 'party_v_info': ctx.PartyInfo(*case['p'][3:]),
                               'supp_priv_info': case['s']}
    c = ctx.CoseKDFContext(B.alg_class(case['alg']), pub, **kw)
    wire = c.encode()
    for o in (c, pub, c.party_u_info, c.party_v_info):
        show(o, type(o).__name__)
    eq(c.encode(), wire, 'the context after printing it')
    rec.nt()


# ------------------------------------------------------------------------------------------- error messages


def said(f, *args, **kw):
    """What an exception says, with the ones behind it; '' when there is none."""
    try:
        f(*args, **kw)
    except Exception as e:
        out = []
        while e is not None and len(out) < 12:
            out += [str(e), repr(e), repr(e.args)]
            e = e.__cause__ or e.__context__
        return ' | '.join(out)
    return ''


@st.composite
def failing(draw):
    out = {'m': draw(c19.malformed()), 'alg': draw(st.sampled_from(sorted(algs.ALG_CLASSES))), 'n': draw(st.integers(8, 70)),
           'k': draw(st.sampled_from(['sign1', 'mac0', 'enc0', 'kw', 'dka', 'kakw', 'oaep'])), 'seed': draw(st.integers(0, 10**6)),
           'ops': draw(st.lists(st.integers(1, 10), max_size=2, unique=True)), 'key': draw(st.one_of(
               G.ec_key(), G.okp_key(), G.rsa_key([0, 1, 2]), G.sym_key(), st.just({'kt': 'sym', 'k': G.expand(3, 24)})))}
    out['kalg'] = draw(st.one_of(st.none(), st.sampled_from(sorted(algs.ALG_CLASSES))))
    return out


def check_errors(case, rec):
    c = case['m']
    secrets, texts = [], []
    # keys that cannot be made
    if c['k']['kt'] != 'mrsa':
        good = c19.wire(c)
        m = c19.damage(good, c)
        if m is not None and c['mut'][0] != 'other kty':
            # (in a key of another type the same bytes may stand for a curve)
            secrets += secrets_of(c['k'])
            texts.append(('making a malformed key (%s by %s)' % (c['mut'], c['path']), said(c19.construct, m, good[1], c['path'], c['s'])))
    k = G.expand(case['seed'], case['n'])
    secrets.append(k)
    texts.append(('making a symmetric key of %d bytes' % len(k), said(B.SymmetricKey, k=k)))
    texts.append(('decoding a symmetric key of %d bytes' % len(k), said(B.CoseKey.decode, enc({1: 4, -1: k}))))
    sk = B.SymmetricKey(k=b's' * 16)
    for v in (k, list(k), bytearray(k), k.hex(), int.from_bytes(k, 'big')):
        texts.append(('setting a symmetric key', said(setattr, sk, 'k', v)))
        for cls in (B.SymmetricKey, B.EC2Key, B.OKPKey):
            texts.append(('making a key of a %s' % type(v).__name__, said(cls.from_dict, {
                'KTY': {B.SymmetricKey: 4, B.EC2Key: 2, B.OKPKey: 1}[cls], 'CURVE': 1, 'D': v, 'K': v})))
    # keys that do not fit their use
    spec = case['key']
    secrets += secrets_of(spec)
    key = B.key(spec)
    if case['kalg']:
        key.alg = case['kalg']
    texts.append(('restricting a key', said(setattr, key, 'key_ops', case['ops'])))
    kind = case['k']
    a = B.alg_class(case['alg'])
    for o in (1, 2):
        if kind in ('sign1', 'mac0', 'enc0'):
            obj = M.CLASS[kind](phdr={H.Algorithm: a}, uhdr={H.IV: b'i' * 12}, payload=b'p', key=key)
            if o == 1:
                texts.append(('sending %s' % kind, said(obj.encode)))
            else:
                wire = [enc({1: case['alg']}), {5: b'i' * 12}, b'p' * 32] + ([] if kind == 'enc0' else [b's' * 32])
                try:
                    obj = B.CoseMessage.decode(enc(Tag(M.TAG[kind], wire)))
                except Exception:
                    continue
                obj.key = key
                texts.append(('receiving %s' % kind, said(getattr(obj, {
                    'sign1': 'verify_signature', 'mac0': 'verify_tag', 'enc0': 'decrypt'}[kind]))))
        else:
            RC = B.pycose.messages.recipient
            cls = {'kw': RC.KeyWrap, 'oaep': RC.KeyWrap, 'dka': RC.DirectKeyAgreement, 'kakw': RC.KeyAgreementWithKeyWrap}[kind]
            r = cls(uhdr={H.Algorithm: a}, payload=b'c' * (16 if o == 1 else 24), key=key)
            r.local_attrs = {H.StaticKey: key}
            if o == 2:
                r.uhdr_update({H.EphemeralKey: key, H.StaticKey: key})
            msg = B.EncMessage(phdr={H.Algorithm: B.alg_class(1)}, uhdr={H.IV: b'i' * 12}, payload=b'p', recipients=[r])
            texts.append(('sending to a %s recipient' % kind, said(msg.encode)))
            msg.payload = b'p' * 32
            texts.append(('receiving from a %s recipient' % kind, said(msg.decrypt, r)))
    for lab in sorted(key, key=repr):
        texts.append(('deleting a key parameter', said(key.__delitem__, lab)))
    n = 0
    for what, t in texts:
        n += bool(t)
        for s in secrets:
            if len(s) >= 8 and len(set(s)) > 4:
                for x in renderings(s):
                    expect(x not in t, 'the error of %s shows the secret %s: %s', what, s.hex(), short(t))
    rec.label('%d errors' % min(n, 30))
    if n > 3:
        rec.nt()


FACETS = [
    Facet('errors', failing, check_errors, 1500),
    Facet('keys', key_case, check_key, 2500),
    Facet('messages', message_case, check_message, 1200, shards=8),
    Facet('decoded', decoded, check_decoded, 4000),
    Facet('guided', None, check_guided, 8000, driver=grey.driver(grey_seeds, lambda: CLASS_NAMES + [16, 17, 18, 96, 97, 98])),
    Facet('headers', headers_case, check_headers, 1500, shards=2),
    Facet('contexts', context_case, check_context, 300, shards=1),
    Facet('attributes', None, check_attribute, 1, enum=attributes, shards=1),
]
