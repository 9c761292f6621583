"""C23 Identifiers and names map to the standard values, both ways."""
import hypothesis.strategies as st

import algs
import build as B
import gen as G
import msgs as M
from core import Facet, attempt, eq, expect, Raised, same, short
from props import c14
from refcbor import enc

KPM = B.pycose.keys.keyparam
RULE = ('Every entry of every registry (headers, algorithms, key types, key operations, curves, key parameters per key type) '
        'in every spelling and random letter cases against independent tables; arbitrary other integers, names and values '
        'alone and in lists; before and after generated histories of library use (decoding with unknown labels and values, key '
        'building, signing, failing look-ups). Non-trivial: a name in a mixed letter case, a near miss that is unknown, or a '
        'history after which all entries were looked up again.')
ASSUMPTIONS = ['classes of another registry are not looked up']


def kp(kty):
    return {**algs.KP_COMMON, **algs.KP_BY_KTY[kty]}


def registries():
    """name -> (look-up class, module of the entries, {identifier: (class name, full name)})"""
    return {
        'headers': (B.pycose.headers.CoseHeaderAttribute, B.pycose.headers, {i: v[:2] for i, v in algs.HEADERS.items()}),
        'algorithms': (B.pycose.algorithms.CoseAlgorithm, B.pycose.algorithms,
                       {i: (c, algs.ALG_NAMES[i]) for i, c in algs.ALG_CLASSES.items()}),
        'key types': (B.pycose.keys.keytype.KTY, B.pycose.keys.keytype, algs.KTYS),
        'key operations': (B.pycose.keys.keyops.KeyOps, B.pycose.keys.keyops, algs.KEYOPS),
        'curves': (B.pycose.keys.curves.CoseCurve, B.pycose.keys.curves, {i: v[:2] for i, v in algs.CURVES.items()}),
        'common key parameters': (KPM.KeyParam, KPM, algs.KP_COMMON),
        'EC2 key parameters': (KPM.EC2KeyParam, KPM, kp(2)), 'OKP key parameters': (KPM.OKPKeyParam, KPM, kp(1)),
        'RSA key parameters': (KPM.RSAKeyParam, KPM, kp(3)), 'symmetric key parameters': (KPM.SymmetricKeyParam, KPM, kp(4)),
    }


REG = registries()


def is_entry(got, name, i):
    look, mod, table = REG[name]
    want = getattr(mod, table[i][0])
    expect(got is want, '%s %r gave %s instead of %s', name, i, short(got), table[i][1])
    expect(type(got.identifier) is int and got.identifier == i, '%s %s carries the identifier %r instead of %r', name, table[i][1], got.identifier, i)
    expect(got.fullname == table[i][1], '%s %r carries the name %r instead of %r', name, i, got.fullname, table[i][1])


# the lengths in bytes that go with an algorithm
KEY_LEN = {**{i: v[2] for i, v in algs.ENC.items()}, **{i: v[3] for i, v in algs.MAC.items()}, **{i: v[1] for i, v in algs.KW.items()},
           **{i: algs.KW[v[3]][1] for i, v in algs.ECDH.items() if v[3]}}
TAG_LEN = {i: v[3] for i, v in algs.ENC.items() if v[1] == 'ccm'}
DIGEST_LEN = {i: v[4] for i, v in algs.MAC.items()}


def values_of(name):
    """The values that are registered with the entries."""
    look, mod, table = REG[name]
    if name == 'algorithms':
        for what, lens in (('get_key_length', KEY_LEN), ('get_tag_length', TAG_LEN), ('get_digest_length', DIGEST_LEN)):
            for i, n in lens.items():
                eq(attempt(getattr(look.from_id(i), what)), n, '%s of %s' % (what, table[i][1]))
    elif name == 'curves':
        for i, (_, full, kty, size) in algs.CURVES.items():
            c = look.from_id(i)
            eq(c.size, size, 'size of %s' % full)
            expect((c.key_type is None) if kty is None else c.key_type is REG['key types'][0].from_id(kty),
                   'key type of %s: %s', full, c.key_type)


def look_all(name):
    look, mod, table = REG[name]
    values_of(name)
    for i, (cls, full) in table.items():
        for s in (i, full, full.lower(), getattr(mod, cls)):
            is_entry(look.from_id(s), name, i)
    seen = {}
    for k, c in look.get_registered_classes().items():
        expect(k in (c.identifier, c.fullname.upper()), '%s: %r is registered for %s (%r)', name, k, c.fullname, c.identifier)
        for key in (c.identifier, c.fullname.upper()):
            expect(seen.setdefault(key, c) is c, '%s: %s and %s share %r', name, seen[key].__name__, c.__name__, key)


class Foreign:
    identifier = 99999
    fullname = 'FOREIGN'


def check_all(case, rec):
    look_all(case)
    look = REG[case][0]
    for v in (Foreign, Foreign(), object, {}, b'', None, 1.5, (), True, False):
        r = attempt(look.from_id, v)
        expect(isinstance(r, Raised), '%s: unknown value %s gave %s', case, short(v), short(r))
        r = attempt(look.from_id, v, True)
        expect(r is v, '%s: unknown value %s, allowed, gave %s', case, short(v), short(r))
    rec.nt()
    rec.label(case)


# ------------------------------------------------------------------------------------------- spellings and unknown values

@st.composite
def lookup(draw):
    name = draw(st.sampled_from(sorted(REG)))
    i = draw(st.sampled_from(sorted(REG[name][2])))
    n = len(REG[name][2][i][1])
    c = draw(st.sampled_from(['case', 'case', 'list', 'int', 'str', 'near', 'near', 'value', 'other']))
    out = {'r': name, 'i': i, 'c': c}
    if c == 'case':
        out['m'] = draw(st.integers(0, 2**n - 1))
    elif c == 'list':
        out['l'] = draw(st.lists(st.tuples(st.sampled_from(sorted(REG[name][2])), st.integers(0, 4)), max_size=5))
    elif c == 'int':
        out['v'] = draw(st.one_of(G.ints, st.integers(-300, 300), st.sampled_from([-65535, -65536, -65534, 65535, 1 << 40])))
    elif c == 'str':
        out['v'] = draw(st.one_of(G.text, st.sampled_from(G.DICT_STRS), st.sampled_from(G.NEW_STRS or ['x'])))
    elif c == 'near':
        out['e'] = [draw(st.sampled_from(['pre', 'post', 'drop', 'swap', 'sep', 'class', 'num', 'space', 'bytes', 'float', 'nosep', 'repr'])),
                    draw(st.integers(0, 30)), draw(st.sampled_from(' _-x0S'))]
    elif c == 'value':
        out['v'] = draw(st.one_of(st.none(), st.binary(max_size=5), st.floats(allow_nan=False), st.just({}), st.dictionaries(
            st.integers(), st.integers(), max_size=2), st.sampled_from([b'ES256', 1.0, -7.0, 4.0, (1,), (1, 2), b'\x01', True, False])))
    else:
        out['v'] = draw(st.sampled_from(sorted(REG)))
        out['j'] = draw(st.integers(0, 50))
    return out


def nearmiss(name, i, e):
    cls, full = REG[name][2][i]
    t, at, ch = e
    at %= len(full)
    if t == 'pre':
        return ch + full
    if t == 'post':
        return full + ch
    if t == 'drop':
        return full[:at] + full[at + 1:]
    if t == 'swap':
        return full[:at] + full[at:at + 2][::-1] + full[at + 2:]
    if t == 'sep':
        return full.replace('_', ch)
    if t == 'nosep':
        return full.replace('_', '').replace('-', '')
    if t == 'class':
        return cls
    if t == 'num':
        return str(i)
    if t == 'space':
        return ' %s ' % full
    if t == 'bytes':
        return full.encode()
    if t == 'float':
        return float(i)
    return repr(full)


def check_lookup(case, rec):
    name, i, c = case['r'], case['i'], case['c']
    look, mod, table = REG[name]
    cls, full = table[i]
    rec.label(c)
    if c == 'case':
        s = ''.join(ch.lower() if case['m'] >> n & 1 else ch for n, ch in enumerate(full))
        for allow in (False, True):
            is_entry(look.from_id(s, allow), name, i)
            is_entry(look.from_id(i, allow), name, i)
            is_entry(look.from_id(getattr(mod, cls), allow), name, i)
        if s not in (full, full.lower()):
            rec.nt()
        return
    if c == 'list':
        if name == 'algorithms':
            return      # a single value
        items = [B.respell(table[j][1], j, getattr(mod, table[j][0]), s) for j, s in case['l']]
        given = list(items)
        got = look.from_id(items)
        expect(type(got) is list and len(got) == len(items), '%s: %s for a list of %d', name, short(got), len(items))
        for g, (j, _) in zip(got, case['l']):
            is_entry(g, name, j)
        eq(items, given, 'the list given')
        return
    if c == 'near':
        v = nearmiss(name, i, case['e'])
    elif c == 'other':
        # an entry of another registry
        t = REG[case['v']][2]
        j = sorted(t)[case['j'] % len(t)]
        v = j if case['j'] & 1 else t[j][1]
    else:
        v = case['v']
    if type(v) is int and v in table:
        is_entry(look.from_id(v), name, v)
        return
    if isinstance(v, str) and v.upper() in {x[1].upper() for x in table.values()}:
        is_entry(look.from_id(v), name, [k for k, x in table.items() if x[1].upper() == v.upper()][0])
        return
    r = attempt(look.from_id, v)
    if isinstance(r, type) and isinstance(v, (int, str)) and r.__name__ not in {x[0] for x in table.values()} and \
            (r.identifier == v or isinstance(v, str) and r.fullname.upper() == v.upper()):
        return      # an additional entry
    expect(isinstance(r, Raised), '%s: unknown value %s gave %s', name, short(v), short(r))
    r = attempt(look.from_id, v, True)
    expect(not isinstance(r, Raised) and same(r, v), '%s: unknown value %s, allowed, gave %s', name, short(v), short(r))
    rec.nt()


# ------------------------------------------------------------------------------------------- histories

op = st.one_of(
    st.tuples(st.just('decode'), c14.case(), st.booleans()), st.tuples(st.just('build'), c14.case(), st.booleans()),
    st.tuples(st.just('key'), st.one_of(G.ec_key(), G.okp_key(), G.sym_key(), G.rsa_key([0])),
              st.dictionaries(st.one_of(G.unknown_label, st.sampled_from([2, 3, 4, 5, 'kid', 'Alg'])), st.one_of(
                  G.leaf, st.sampled_from([[1], [99], ['SIGN'], -7, 'ES256', 'nope'])), max_size=3)),
    st.tuples(st.just('look'), lookup(), st.just(0)),
    st.tuples(st.just('spell'), st.sampled_from(sorted(REG)), st.integers(0, 1000)),
    st.tuples(st.just('gen'), st.sampled_from(['P_256', 'p_256', 1, 'ED25519', 6, 'nope', 99, 4, 'x448']), st.just(0)),
    st.tuples(st.just('msg'), st.one_of(M.mac0(), M.enc0(), M.sign1(alg=-8)), st.booleans()))
history = st.lists(op, min_size=1, max_size=6)


def perform(o):
    kind, a, b = o
    if kind in ('decode', 'build'):
        layers = c14.flatten(a['s'])
        for kd, e, where, bucket in a['kinds']:
            layers[where % len(layers)][bucket][e[0]] = e[1]
        if kind == 'decode':
            m = B.CoseMessage.decode(c14.wire(a['s'], layers, a['w']), allow_unknown_attributes=b)
            repr(m)
            m.phdr_update({'history': 1, B.pycose.headers.KID: b'x'})
            m.encode()
        else:
            M.CLASS[a['s']['k']](phdr=layers[0][0], uhdr=layers[0][1], allow_unknown_attributes=b)
    elif kind == 'key':
        k = B.key(a, True, None, 1)
        for l, v in b.items():
            attempt(k.__setitem__, l, v)
        repr(k)
        attempt(B.CoseKey.from_dict, {**B.wire_key(a), **b})
        attempt(B.CoseKey.decode, k.encode())
        k.clear() if a['kt'] == 'rsa' else attempt(k.clear)
    elif kind == 'look':
        check_lookup(a, __import__('core').Rec())
    elif kind == 'spell':
        look = REG[a][0]
        for v in ('S%d' % b, b, -b, Foreign, Foreign()):
            attempt(look.from_id, v, True)
            attempt(look.from_id, v, False)
            attempt(look.from_id, [v])
    elif kind == 'gen':
        attempt(B.EC2Key.generate_key, a)
        attempt(B.OKPKey.generate_key, a)
        attempt(B.SymmetricKey.generate_key, 16)
    else:
        d = M.send(a)
        got = M.receive(a, d)
        M.arm(a, got)
        M.verify_all(a, got)


def check_history(case, rec):
    for o in case:
        attempt(perform, o)
        rec.label(o[0])
        for name in REG:
            look_all(name)
    rec.nt()


FACETS = [
    Facet('all', None, check_all, 1, enum=lambda: sorted(REG), shards=1),
    Facet('lookup', lookup, check_lookup, 12000),
    Facet('history', lambda: history, check_history, 1200),
]
