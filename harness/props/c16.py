"""C16 A key stays a valid key under any manipulation."""
import copy

import hypothesis.strategies as st

import algs
import build as B
import gen as G
import refcose as R
from core import Facet, attempt, eq, expect, fail, refused, Raised, same, short
from props.c15 import foreign, known, cased
from refcbor import enc

RULE = ('Histories of up to 25 dictionary-style and attribute-style operations on EC2, OKP and symmetric keys with random '
        'parameters, against a reference map; after every step the whole map and the attribute view are compared, and the key '
        'is encoded and decoded. Non-trivial: at least one write or deletion succeeded and at least one was refused, or the '
        'history has three effective changes.')
ASSUMPTIONS = ['values stored through the dictionary interface are well-typed ones; the coordinates and private value of an '
               'EC2 key are only overwritten by the same values',
               'a deleted coordinate of an EC2 key is recomputed when the key is decoded',
               'operations in key_ops are spelled as integers, exact names or classes']

LABELS = {'ec': [1, 2, 3, 4, 5, -1, -2, -3, -4], 'okp': [1, 2, 3, 4, 5, -1, -2, -4], 'sym': [1, 2, 3, 4, 5, -1],
          'rsa': [1, 2, 3, 4, 5] + list(range(-1, -13, -1))}
KTYS = {'ec': 2, 'okp': 1, 'sym': 4, 'rsa': 3}
OPS = {'ec': [1, 2, 7, 8], 'okp': [1, 2, 7, 8], 'rsa': [1, 2, 7, 8], 'sym': [3, 4, 5, 6, 9, 10]}
ATTR = {1: 'kty', 2: 'kid', 3: 'alg', 4: 'key_ops', 5: 'base_iv'}
ATTRS = {'ec': {**ATTR, -1: 'crv', -2: 'x', -3: 'y', -4: 'd'}, 'okp': {**ATTR, -1: 'crv', -2: 'x', -4: 'd'},
         'sym': {**ATTR, -1: 'k'},
         'rsa': {**ATTR, **{i: n[1].lower() for i, n in algs.KP_RSA.items()}}}
OWN = {'ec': (-1, -2, -3, -4), 'rsa': tuple(range(-12, 0)), 'okp': (), 'sym': ()}     # only ever get their own value
NOT_BYTES = [None, '', 'x', 0, 1, 1.5, [], [b'x'], {}, True, 'k' * 16, 'x' * 32]
OKP_CURVES = [4, 5, 6, 7]


def unknown(kty):
    return st.one_of(G.unknown_label, st.integers(-14, 8), st.sampled_from(['N', 'x2', 'E', 'kid ', 'Reserved', -998])).filter(
        lambda x: foreign(kty, x))


def good(kt, lab, pub=None):
    """Canonical values (wire form) which may be stored under the label; None: the present one only."""
    if lab == 1:
        return st.just(KTYS[kt])
    if lab in (2, 5):
        return G.small
    if lab == 3:
        return st.sampled_from(sorted(algs.ALG_CLASSES))
    if lab == 4:
        return st.lists(st.sampled_from(OPS[kt]), min_size=1, max_size=3)
    if kt == 'sym':
        return st.sampled_from([16, 24, 32]).flatmap(G.exact)
    if kt == 'okp':
        return st.sampled_from(OKP_CURVES) if lab == -1 else G.blob(1, 60)
    return st.just(None)     # see OWN


def bad(kt, lab):
    """Values an attribute refuses."""
    if kt == 'rsa' and lab < 0:
        return st.sampled_from([None, '', 'x', 0, 1, 1.5, b'', (), {}, True] if lab == -9 else NOT_BYTES)
    if lab == 1:
        return st.sampled_from([i for i in range(0, 5) if i != KTYS[kt]] + [9, 'OKEY', None, b'', [KTYS[kt]], -1])
    if lab in (2, 5) or (lab in (-2, -3, -4)):
        return st.sampled_from(NOT_BYTES)
    if lab == 3:
        return st.sampled_from([9999, 'nope', None, b'', b'ES256', [], [1], {}, 1.5, 0, -1])
    if lab == 4:
        legal = OPS[kt]
        return st.one_of(
            st.sampled_from([None, 'x', 5, (), {}, b'', 1.5, [99], ['nope'], [None], [[]], [1.5], [b'x'], [0], [-1]]),
            st.tuples(st.lists(st.sampled_from(legal), max_size=2),
                      st.sampled_from([o for o in range(1, 11) if o not in legal] + [11, 0, 'nope', None])).map(
                lambda t: t[0] + [t[1]]))
    if kt == 'sym':
        return st.one_of(st.sampled_from(NOT_BYTES + ['k' * 16]), st.integers(0, 80).filter(
            lambda n: n not in (16, 24, 32)).flatmap(G.exact))
    own = {'ec': [1, 2, 3, 8], 'okp': OKP_CURVES}[kt]
    return st.sampled_from([c for c in range(0, 9) if c not in own] + [99, 'nope', None, b'', []])


@st.composite
def step(draw, kt, hot):
    kty = KTYS[kt]
    o = draw(st.sampled_from(['del', 'del', 'del', 'pop', 'pop', 'popd', 'set', 'set', 'setdefault', 'update', 'popitem',
                              'clear', 'get', 'getd', 'in', 'attr=', 'attr=', 'attr=', 'attr!', 'attr!', 'codec']))
    if kt == 'ec' and o in ('set', 'attr=') and draw(st.integers(0, 3)) == 0:
        # the key becomes another one, part by part
        return {'o': 'become', 's': draw(st.integers(0, 4)), 'crv': draw(st.sampled_from(G.ALL_EC)), 'd': draw(st.integers(2, 10**9)),
                'same': draw(st.integers(0, 3)) > 0, 'order': draw(st.permutations([-1, -2, -3, -4])), 'w': draw(st.integers(0, 15))}
    r = {'o': o, 's': draw(st.integers(0, 4))}
    pick = st.one_of(st.sampled_from(hot), st.sampled_from(hot), st.sampled_from(LABELS[kt]), unknown(kty))
    if o == 'update':
        r['m'] = []
        for _ in range(draw(st.integers(0, 4))):
            lab = draw(pick)
            r['m'].append([lab, draw(good(kt, lab) if lab in LABELS[kt] and not isinstance(lab, str) else G.any_value)])
        r['kw'] = draw(st.integers(0, 2))
    elif o in ('attr=', 'attr!'):
        lab = draw(st.one_of(st.sampled_from(LABELS[kt]), st.sampled_from([h for h in hot if h in LABELS[kt]] or LABELS[kt])))
        r['l'] = lab
        if o == 'attr=':
            r['v'] = draw(st.one_of(good(kt, lab), st.just([]))) if lab == 4 else draw(good(kt, lab))
        else:
            r['v'] = draw(bad(kt, lab))
    elif o not in ('popitem', 'clear', 'codec'):
        lab = draw(pick)
        r['l'] = lab
        if o in ('set', 'setdefault'):
            r['v'] = draw(good(kt, lab) if lab in LABELS[kt] and not isinstance(lab, str) else G.any_value)
        elif o in ('popd', 'getd'):
            r['v'] = draw(st.sampled_from([None, 0, b'', 'default', []]))
    return r


@st.composite
def case(draw):
    kt = draw(st.sampled_from(['ec', 'ec', 'ec', 'ec', 'okp', 'okp', 'sym', 'sym', 'rsa']))
    k = draw({'ec': G.ec_key(), 'okp': G.okp_key(), 'sym': G.sym_key(), 'rsa': G.rsa_key()}[kt])
    p = {}
    for lab in (2, 3, 4, 5):
        if draw(st.booleans()):
            p[lab] = draw(good(kt, lab))
    for _ in range(draw(st.integers(0, 2))):
        p[draw(unknown(KTYS[kt]))] = draw(G.any_value)
    # some labels are used again and again
    hot = draw(st.one_of(st.just([x for x in LABELS[kt] if x < -1] or LABELS[kt]), st.lists(
        st.one_of(st.sampled_from(LABELS[kt]), unknown(KTYS[kt])), min_size=1, max_size=3)))
    return {'k': k, 'p': p, 'priv': draw(st.booleans()), 'f': draw(G.key_form),
            'steps': draw(st.sampled_from([3, 8, 16, 16, 30]).flatmap(lambda n: st.lists(step(kt, hot), min_size=n // 2, max_size=n)))}


def sp_label(kty, lab, s):
    """A spelling of a label: class, integer, name in some case."""
    kn = known(kty)
    if isinstance(lab, str) or lab not in kn:
        return lab
    return B.kp_class(kty, lab) if s == 0 else lab if s == 1 else cased(kn[lab][1], s)


def canon(kty, lab, v):
    """A wire value as it is stored."""
    if isinstance(lab, str):
        return v
    if lab == 1:
        return B.kty_class(v)
    if lab == 3:
        return B.alg_class(v)
    if lab == 4:
        return [B.op_class(o) for o in v]
    if lab == -1 and kty in (1, 2):
        return B.curve_class(v)
    return v


def spv(kty, lab, v, s):
    """A spelling of a value for the attribute interface."""
    if lab == 1:
        return (B.kty_class(v), v, algs.KTYS[v][1], algs.KTYS[v][1].lower(), algs.KTYS[v][1].title())[s]
    if lab == 3:
        return B.spell_alg(v, s)
    if lab == 4:
        return [(B.op_class(o), o, algs.KEYOPS[o][1])[(s + i) % 3] for i, o in enumerate(v)]
    if lab == -1 and kty in (1, 2):
        return B.respell(algs.CURVES[v][1], v, B.curve_class(v), s)
    return v


class Model:
    def __init__(self, kt, m):
        self.kt, self.kty = kt, KTYS[kt]
        self.m = [[k, v] for k, v in m.items()]     # labels compared with their types

    def find(self, lab):
        for e in self.m:
            if type(e[0]) is type(lab) and e[0] == lab:
                return e
        return None

    def has(self, lab):
        return self.find(lab) is not None

    def put(self, lab, v):
        e = self.find(lab)
        if e:
            e[1] = v
        else:
            self.m.append([lab, v])

    def remove(self, lab):
        self.m = [e for e in self.m if not (type(e[0]) is type(lab) and e[0] == lab)]

    def may_delete(self, lab):
        """'refuse', 'missing', or the list of labels which go."""
        if not isinstance(lab, str):
            if self.kt == 'rsa' and (lab == 1 or lab < 0 and self.has(lab)):
                return 'skip'
            if lab == 1 or lab == -1:
                return 'refuse'
            if self.kt == 'ec':
                x, y, d = self.has(-2), self.has(-3), self.has(-4)
                if lab == -4 and not (x and y):
                    return 'refuse'
                if lab == -2 and not d:
                    return 'refuse'
                if lab in (-2, -3) and d:
                    return [-2, -3] if self.has(lab) else 'missing'
            if self.kt == 'okp':
                if lab == -4 and not self.has(-2) or lab == -2 and not self.has(-4):
                    return 'refuse'
        return [lab] if self.has(lab) else 'missing'


def shown(key, model):
    """The key's whole map is the model's."""
    kty = model.kty
    got = list(key.items())
    eq(len(key), len(model.m), 'len')
    eq(len(got), len(model.m), 'number of items')
    expect([k for k, _ in got] == list(key) == list(key.keys()), 'keys and items differ')
    for k, v in got:
        lab = k.identifier if isinstance(k, type) else k
        if isinstance(k, type):
            expect(lab in known(kty) and k is B.kp_class(kty, lab), 'stored under %s', short(k))
        e = model.find(lab)
        expect(e is not None, 'unexpected entry %s', short(k))
        eq(v, canon(kty, lab, e[1]), 'value of %r' % (lab,))
    for lab, attr in ATTRS[model.kt].items():
        e = model.find(lab)
        want = canon(kty, lab, e[1]) if e else (None if lab == 3 else [] if lab == 4 or (kty, lab) == (3, -9) else b'')
        eq(getattr(key, attr), want, 'attribute ' + attr)


def codec(key, model):
    """Encoding gives the model's wire map, and decoding that gives the same key."""
    before = B.frozen(key)
    data = key.encode()
    w = {e[0]: e[1] for e in model.m}
    eq(B.cbor2.loads(data), w, 'encoding')
    got = attempt(B.CoseKey.decode, data)
    expect(not isinstance(got, Raised), 'the key cannot be decoded again: %s', got)
    expect(type(got) is type(key), 'decoded as %s', type(got).__name__)
    expect(B.frozen(key) == before, 'encoding changed the key')
    want = dict(w)
    gm = B.key_map(got)
    if model.kt == 'ec':
        if -2 not in want:
            want[-2] = model.xy[0]
        if -3 not in want:
            # from x alone either of the two points will do
            if -4 in want:
                want[-3] = model.xy[1]
            else:
                R.ec_public(model.crv, gm[-2], gm[-3])
                want[-3] = gm[-3]
    eq(gm, want, 'decoded key')
    if not (model.kt == 'ec' and (-2 not in w or -3 not in w)):
        expect(got == key and key == got, 'the decoded key is not equal to the key')


def check(case, rec):
    k, p = case['k'], copy.deepcopy(case['p'])
    kt = k['kt']
    kty = KTYS[kt]
    key = B.key(k, case['priv'], copy.deepcopy(p), case['f'])
    m = B.wire_key(k, case['priv'], p)
    model = Model(kt, m)
    if kt == 'ec':
        model.xy, model.crv = (m[-2], m[-3]), k['crv']
    orig = {x: m[x] for x in OWN[kt] if x in m}
    shown(key, model)
    effective = refusals = 0

    def present(lab, v):
        # EC2 coordinates, curve and private value only ever get their own value
        if not isinstance(lab, str) and lab in OWN[kt]:
            return orig.get(lab)
        return v

    def delete(lab, fn, what, default=None):
        nonlocal effective, refusals
        r = model.may_delete(lab)
        if what == 'pop' and not model.has(lab):
            r = 'missing'
        if r == 'skip':
            return      # nothing is said about that
        got = attempt(fn)
        if r == 'refuse':
            expect(isinstance(got, Raised), '%s %r was not refused', what, lab)
            refusals += 1
        elif r == 'missing':
            if default is not None:
                eq(got, default[0], '%s %r, which is absent' % (what, lab))
            else:
                expect(isinstance(got, Raised) and isinstance(got.exc, KeyError), '%s %r, which is absent: %s', what, lab,
                       short(got))
        else:
            expect(not isinstance(got, Raised), '%s %r: %s', what, lab, got)
            if what == 'pop':
                eq(got, canon(kty, lab, model.find(lab)[1]), 'pop %r' % (lab,))
            for x in r:
                model.remove(x)
            effective += 1

    for s in case['steps']:
        o, sp = s['o'], s['s']
        lab = s.get('l')
        spell = sp_label(kty, lab, sp) if lab is not None else None
        if o == 'del':
            delete(lab, lambda: key.__delitem__(spell), 'del')
        elif o == 'pop':
            delete(lab, lambda: key.pop(spell), 'pop')
        elif o == 'popd':
            delete(lab, lambda: key.pop(spell, s['v']), 'pop', [s['v']])
        elif o in ('popitem', 'clear'):
            if kt == 'rsa':
                continue
            # both start with an entry that the key needs
            refused(o, getattr(key, o))
            # every entry which is gone must have been deletable
            gone = [e[0] for e in model.m if not any(
                (x.identifier if isinstance(x, type) else x) == e[0] and type(e[0]) is type(
                    x.identifier if isinstance(x, type) else x) for x in key)]
            eq(gone, [], 'entries removed by a refused ' + o)
            refusals += 1
        elif o in ('set', 'setdefault'):
            v = present(lab, s['v'])
            if v is None and not isinstance(lab, str) and lab in OWN[kt]:
                continue
            cv = canon(kty, lab, copy.deepcopy(v))
            if o == 'set':
                key[spell] = cv
                model.put(lab, v)
                effective += 1
            else:
                got = key.setdefault(spell, cv)
                if not model.has(lab):
                    model.put(lab, v)
                    effective += 1
                eq(got, canon(kty, lab, model.find(lab)[1]), 'setdefault')
        elif o == 'update':
            pairs = []
            for i, (l2, v) in enumerate(s['m']):
                v = present(l2, v)
                if v is None and not isinstance(l2, str) and l2 in OWN[kt]:
                    continue
                pairs.append((sp_label(kty, l2, (sp + i) % 5), canon(kty, l2, copy.deepcopy(v))))
                model.put(l2, v)
                effective += 1
            key.update(pairs if s['kw'] == 0 else dict(pairs) if len({(type(a), a) for a, _ in pairs}) == len(pairs) and
                       len(dict(pairs)) == len(pairs) else pairs)
        elif o == 'get':
            got = attempt(key.__getitem__, spell)
            if model.has(lab):
                eq(got, canon(kty, lab, model.find(lab)[1]), 'item %r' % (lab,))
            else:
                expect(isinstance(got, Raised) and isinstance(got.exc, KeyError), 'item %r, which is absent: %s', lab, short(got))
        elif o == 'getd':
            eq(key.get(spell, s['v']), canon(kty, lab, model.find(lab)[1]) if model.has(lab) else s['v'], 'get')
        elif o == 'in':
            expect((spell in key) is model.has(lab), '%r in key', spell)
        elif o == 'attr=':
            v = present(lab, s['v'])
            if v is None:
                continue
            given = spv(kty, lab, copy.deepcopy(v), sp)
            before = copy.copy(given) if isinstance(given, list) else given
            got = attempt(setattr, key, ATTRS[kt][lab], given)
            expect(not isinstance(got, Raised), '%s = %s: %s', ATTRS[kt][lab], short(given), got)
            eq(given, before, 'the assigned value')
            if lab == 4 and not v:
                model.remove(4)
            else:
                model.put(lab, v)
            effective += 1
        elif o == 'become':
            crv = model.crv if s['same'] else s['crv']
            new = B.wire_key({'kt': 'ec', 'crv': crv, 'd': s['d']}, True)
            for i, part in enumerate(s['order']):
                if not model.has(part):
                    continue
                given = spv(kty, part, new[part], sp)
                if s['w'] >> i & 1:
                    setattr(key, ATTRS[kt][part], given)
                else:
                    key[sp_label(kty, part, (sp + i) % 5)] = canon(kty, part, new[part])
                model.put(part, new[part])
                # the other parts are still the old ones
                shown(key, model)
            model.xy, model.crv = (new[-2], new[-3]), crv
            orig = new
            effective += 1
        elif o == 'attr!':
            before = B.frozen(key)
            refused('%s = %s' % (ATTRS[kt][lab], short(s['v'])), setattr, key, ATTRS[kt][lab], copy.deepcopy(s['v']))
            expect(B.frozen(key) == before, 'a refused write of %s changed the key', ATTRS[kt][lab])
            refusals += 1
        rec.label(o)
        shown(key, model)
        codec(key, model)
    # all spellings of every label are the same entry
    for lab in LABELS[kt]:
        for sp in range(5):
            x = sp_label(kty, lab, sp)
            expect((x in key) is model.has(lab), '%r in key', x)
            if model.has(lab):
                eq(key[x], canon(kty, lab, model.find(lab)[1]), 'key[%r]' % (x,))
    if (effective and refusals) or effective > 2:
        rec.nt()


FACETS = [Facet('histories', case, check, 3500, shards=8)]
