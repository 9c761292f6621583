"""C18 Key restrictions are always enforced."""
import copy

import hypothesis.strategies as st

import algs
import build as B
import fix
import gen as G
import msgs as M
from core import Facet, attempt, eq, expect, fail, Raised, short
from refcbor import Tag, enc

H = B.pycose.headers
KP = B.pycose.keys.keyparam
RULE = ('One key of a message (content key, a signer, a recipient\'s own key or its peer key; on the sending or the receiving '
        'side) gets a generated restriction - bound algorithm, permitted operations, or a key of another type - by way of the '
        'constructor, a dictionary, a decoded key, an attribute or item assignment before or after it is attached; all other '
        'keys are unrestricted. The operation must be refused exactly when the restriction does not permit it, and be correct '
        'otherwise. All single operations x {no, matching, other} algorithm, and all algorithms a key can be bound to, are '
        'enumerated for every position, and all pairs of algorithms and of operations for every type of key. Non-trivial: '
        'the key carries a restriction or has another type.')
ASSUMPTIONS = ['operations in a key are stored as classes (as every documented way of setting them does)']

FIT = {('sign', 0): {1}, ('sign', 1): {2}, ('mac', 0): {9}, ('mac', 1): {10}, ('enc', 0): {3}, ('enc', 1): {4},
       ('wrap', 0): {5, 3}, ('wrap', 1): {6, 4}, ('ecdh', 0): {7, 8}, ('ecdh', 1): {7, 8}}
LEGAL = {'ec': {1, 2, 7, 8}, 'okp': {1, 2, 7, 8}, 'rsa': {1, 2, 7, 8}, 'sym': {3, 4, 5, 6, 9, 10}}


def bare(c):
    """The case without any restrictions."""
    for k in ('kp', 'vp'):
        if k in c:
            c[k] = {x: v for x, v in c[k].items() if x == 5}
    for s in c.get('signers', []):
        s['kp'] = s['vp'] = {}
    for r in c.get('rcpts', []):
        for k in ('kp', 'vp', 'sp', 'pp', 'rp'):
            if k in r:
                r[k] = {}
    return c


def slots(c):
    """Positions of keys: (name, index or None, kind of operation, side, algorithm in the headers, key spec)."""
    k = c['k']
    kind = 'sign' if k.startswith('sign') else k[:3]
    if k == 'sign':
        return [(n, i, 'sign', side, s['alg'], s['key']) for i, s in enumerate(c['signers'])
                for n, side in (('kp', 0), ('vp', 1))]
    out = []
    if 'key' in c:
        out += [('kp', None, kind, 0, c['alg'], c['key']), ('vp', None, kind, 1, c['alg'], c['key'])]
    for i, r in enumerate(c.get('rcpts', [])):
        if r['t'] in ('kw', 'oaep'):
            out.append(('kp', i, 'wrap', 0, r['alg'], r['key']))
            if i == c['who']:
                out.append(('vp', i, 'wrap', 1, r['alg'], r['key']))
        elif r['t'] in ('dka', 'kakw'):
            if not r['gen']:
                out.append(('sp', i, 'ecdh', 0, r['alg'], r['sk']))
            out.append(('pp', i, 'ecdh', 0, r['alg'], r['rk']))
            if i == c['who']:
                out.append(('rp', i, 'ecdh', 1, r['alg'], r['rk']))
                if r['gen'] or any(x[0] in (-1, -2) and type(x[0]) is int for x in r['h']['u']):
                    out.append(('header', i, 'ecdh', 1, r['alg'], r['sk']))
    return out


FAMILY = [algs.SIGN, sorted(algs.ENC), sorted(algs.MAC), sorted(algs.KW) + sorted(algs.OAEP) + [-6], sorted(algs.ECDH)]


def other_alg(alg, content):
    fam = [f for f in FAMILY if alg in f][0]
    return st.one_of(st.sampled_from(fam), st.sampled_from(sorted(algs.ALG_CLASSES)), st.sampled_from([content, -6])).filter(
        lambda a: a != alg)


@st.composite
def case(draw):
    c = bare(draw(st.one_of(M.sign1(max_n=1), M.sign(max_n=1), M.mac0(max_n=1), M.enc0(max_n=1), M.encm(max_n=1), M.encm(max_n=1),
                            M.macm(max_n=1), M.macm(max_n=1))))
    ss = slots(c)
    i = draw(st.integers(0, len(ss) - 1))
    _, _, kind, side, alg, key = ss[i]
    fit = FIT[kind, side]
    r = {}
    a = draw(st.integers(0, 3))
    if a == 1:
        r[3] = alg
    elif a == 2:
        r[3] = draw(other_alg(alg, c.get('alg', alg)))
    o = draw(st.integers(0, 5))
    if o == 1:
        r[4] = [draw(st.sampled_from(sorted(fit)))]
    elif o == 2:
        r[4] = draw(st.lists(st.integers(1, 10), min_size=1, max_size=4))
    elif o in (3, 4):
        r[4] = draw(st.lists(st.sampled_from([x for x in range(1, 11) if x not in fit]), min_size=1, max_size=8))
    elif o == 5:
        r[4] = sorted(draw(st.sets(st.integers(1, 10), min_size=1, max_size=9)))
    t = None
    if draw(st.integers(0, 5)) == 0:
        t = draw({'sign': st.one_of(G.sym_key(), G.okp_key(['ED25519']), G.ec_key(['P_256']), G.rsa_key([2])),
                  'mac': st.one_of(G.okp_key(), G.ec_key(), G.rsa_key([2])), 'enc': st.one_of(G.okp_key(), G.ec_key(), G.rsa_key([2])),
                  'wrap': st.one_of(G.okp_key(), G.ec_key(), G.rsa_key([2]), G.sym_key()),
                  'ecdh': st.one_of(G.okp_key(), G.okp_key(['X25519']), G.rsa_key([2]), G.sym_key())}[kind].filter(
            lambda k: k['kt'] != key['kt']))
    return {'c': c, 'i': i, 'r': r, 'way': draw(st.sampled_from(['build', 'build', 'attr', 'item', 'lifted', 'late', 'held', 'held'])), 't': t,
            'none': draw(st.integers(0, 40)) == 0}


def permitted(slot, r):
    _, _, kind, side, alg, _ = slot
    return (3 not in r or r[3] == alg) and (not r.get(4) or bool(set(r[4]) & FIT[kind, side]))


def stored(lab, v):
    return B.alg_class(v) if lab == 3 else [B.op_class(o) for o in v]


def restrict(key, r, way, kt):
    for lab, v in r.items():
        kp = KP.KpAlg if lab == 3 else KP.KpKeyOps
        if way == 'attr' and (lab == 3 or set(v) <= LEGAL[kt]):
            setattr(key, 'alg' if lab == 3 else 'key_ops', stored(lab, v))
        else:
            key[(kp, kp.identifier, kp.fullname)[len(r) % 3]] = stored(lab, v)


def lift(key, r):
    for lab in r:
        del key[KP.KpAlg if lab == 3 else 'key_ops']


def check(case, rec):
    c, r, way = copy.deepcopy(case['c']), case['r'], case['way']
    slot = slots(c)[case['i']]
    name, i, kind, side, alg, spec = slot
    ok = permitted(slot, r)
    holder = c if i is None else c['signers'][i] if c['k'] == 'sign' else c['rcpts'][i]
    r0 = {}
    if name != 'header':
        if way in ('build', 'lifted'):
            holder[name] = {**holder.get(name, {}), **r}
            r0 = r if way == 'lifted' else {}
    if way == 'lifted' and name != 'header':
        ok = True
    kt = spec['kt']

    def target(msg):
        """The holder's key object."""
        o = msg if i is None else (msg.signers if c['k'] == 'sign' else msg.recipients)[i]
        return o, (o.local_attrs[H.StaticKey] if name == 'pp' else o.key)

    def put(msg):
        o, k = target(msg)
        if way == 'lifted':
            lift(k, r0)
        elif way == 'held':
            # the restriction is put on the caller's key, which was given to the message before
            k = copy.deepcopy(k)
            if name == 'pp':
                o.local_attrs = {H.StaticKey: k}
            else:
                o.key = k
            restrict(k, r, 'item', kt)
        elif way != 'build':
            restrict(k, r, way, kt)
        if case['none'] and name not in ('pp', 'sp') or case['t']:
            new = None if case['none'] else B.key(case['t'], True)
            if name == 'pp':
                o.local_attrs = {H.StaticKey: new}
            else:
                o.key = new
            return False
        return True

    fits = True
    what = '%s of %s%s' % ({0: 'sending', 1: 'receiving'}[side], c['k'], '' if i is None else ', ' + (
        holder.get('t') or 'signer'))
    if name == 'header':
        data = M.send(c)
        if case['t'] or case['none']:
            return
        # the sender's public key in the header says more about itself
        obj = B.cbor2.loads(data)
        u = obj.value[-1][i][1]
        lab = -1 if -1 in u else -2
        u[lab].update(r)
        data = enc(Tag(obj.tag, obj.value))

        def run():
            msg = M.receive(c, data)
            o = M.arm(c, msg)
            return received(c, msg, o)
        got = attempt(run)
        what = 'receiving: key in the header'
    elif side == 0:
        msg = M.build(c)
        if c['k'] in ('mac', 'enc') and way == 'late':
            put(msg)
        else:
            fits = put(msg)
        if way == 'late' and (case['t'] or case['none']):
            return
        data = attempt(M.encode, c, msg)
        got = data
        if not isinstance(data, Raised) and ok and fits:
            # what was made is right
            back = M.receive(c, data)
            c2 = bare(c)
            received(c2, back, M.arm(c2, back))
    else:
        data = M.send(c)
        msg = M.receive(c, data)

        def run():
            nonlocal fits
            if c['k'] == 'mac' and i is not None:
                # the receiver derives the key itself
                msg.external_aad = c['aad']
                o = msg.recipients[i]
                o.key = M.receiver_key(c['rcpts'][i])
                info = M.local_info(c['rcpts'][i])
                if info:
                    o.local_attrs = info
                fits = put(msg)
                msg.key = o.compute_cek(msg.get_attr(H.Algorithm), 'decrypt')
            else:
                o = M.arm(c, msg)
                fits = put(msg)
            return received(c, msg, o, only=i if c['k'] == 'sign' else None)
        got = attempt(run)
    if not ok or not fits:
        expect(isinstance(got, Raised), '%s with alg %s and key %s was not refused (restriction %s, %s)', what, alg,
               case['t'] or ('None' if case['none'] else kt), r, way)
        if c['k'] == 'sign' and side == 1:
            # the other signers are not concerned
            for j, (s, o) in enumerate(zip(c['signers'], msg.signers)):
                if j != i:
                    expect(o.verify_signature(**M.det(c)) is True, 'signer %d does not verify', j)
        rec.label('refused: %s %s' % (kind, 'type' if ok else 'restriction'))
    else:
        expect(not isinstance(got, Raised), '%s with alg %s was refused (restriction %s, %s): %s', what, alg, r, way, got)
        rec.label('permitted: ' + kind)
    if r or case['t']:
        rec.nt()


def received(c, msg, o, only=None):
    """Verify or decrypt; a wrong outcome is a violation, a refusal an exception."""
    k = c['k']
    if k == 'enc':
        eq(msg.decrypt(o), c['payload'], 'plaintext')
    elif only is not None:
        expect(msg.signers[only].verify_signature(**M.det(c)) is True, 'the signature does not verify')
    else:
        M.verify_all(c, msg)


# ------------------------------------------------------------------------------------------- every operation, every position

def table():
    def lay(alg, *more):
        return {'p': [[1, alg]], 'u': list(more), 'sp': [0]}

    def rlay(alg, *more):
        return {'p': [], 'u': [[1, alg]] + list(more), 'sp': [0]}
    ed, p256, p521 = ({'kt': 'okp', 'crv': 'ED25519', 'd': b'\7' * 32}, {'kt': 'ec', 'crv': 'P_256', 'd': 12345},
                      {'kt': 'ec', 'crv': 'P_521', 'd': 54321})
    rsa = {'kt': 'rsa', 'i': [j for j in fix.rsa_fits(-42) if fix.RSA_BITS[j] < 2050][0]}
    s16, s32 = {'kt': 'sym', 'k': b'k' * 16}, {'kt': 'sym', 'k': b'K' * 32}
    base = []

    def sk(alg, key):
        return {'alg': alg, 'key': key, 'kf': 0, 'vf': 0, 'kp': {}, 'vp': {}, 'vpriv': False, 'aad': b'', 'h': lay(alg)}
    for alg, key in ((-7, p256), (-36, p521), (-8, ed), (-37, rsa), (-259, rsa)):
        base.append({**sk(alg, key), 'k': 'sign1', 'payload': b'p', 'det': False})
    base.append({'k': 'sign', 'h': lay(-7)  | {'p': []}, 'payload': b'p', 'det': False,
                 'signers': [sk(-8, ed), sk(-257, rsa), sk(-7, p256)]})
    for alg, key in ((5, s32), (14, s16)):
        base.append({'k': 'mac0', 'alg': alg, 'key': key, 'kf': 0, 'vf': 0, 'kp': {}, 'vp': {}, 'payload': b'p', 'aad': b'',
                     'h': lay(alg)})
    for alg, key in ((1, s16), (33, s32)):
        iv = b'n' * algs.ENC[alg][4]
        base.append({'k': 'enc0', 'alg': alg, 'key': key, 'kf': 0, 'vf': 0, 'kp': {}, 'vp': {}, 'payload': b'p', 'aad': b'',
                     'h': lay(alg, [5, iv]), 'iv': iv})
    rs = [{'t': 'direct', 'alg': -6, 'h': rlay(-6)}]
    for alg, key in ((-3, s16), (-5, s32), (-40, rsa), (-42, rsa)):
        rs.append({'t': 'oaep' if alg < -6 else 'kw', 'alg': alg, 'key': key, 'kf': 0, 'vf': 0, 'kp': {}, 'vp': {}, 'h': rlay(alg)})
    for alg in (-25, -28, -29, -34):
        es = algs.ECDH[alg][1]
        rs.append({'t': 'kakw' if algs.ECDH[alg][3] else 'dka', 'alg': alg, 'rk': p256, 'sk': {**p256, 'd': 777}, 'gen': False,
                   'kf': 0, 'vf': 0, 'h': rlay(alg, [-1 if es else -2, {'key': {**p256, 'd': 777}}]), 'rp': {}, 'pp': {}, 'sp': {}})
    for r in rs:
        for k, alg, key in (('enc', 10, s16), ('mac', 5, s32)):
            if r['t'] in ('oaep', 'kw') and r['alg'] in (-42, -5) and k == 'mac':
                continue
            c = {'k': k, 'alg': alg, 'rcpts': [r], 'who': 0, 'payload': b'p', 'aad': b'',
                 'h': lay(alg, *([[5, b'n' * 13]] if k == 'enc' else []))}
            if k == 'enc':
                c['iv'] = b'n' * 13
            if r['t'] == 'direct':
                c.update({'key': key, 'kf': 0, 'vf': 0, 'kp': {}, 'vp': {}})
            base.append(c)
    out = []
    for c in base:
        for i, s in enumerate(slots(c)):
            other = [a for f in FAMILY if s[4] in f for a in f if a != s[4]][0]
            for a in (None, s[4], other):
                for o in [None] + list(range(1, 11)):
                    if a == other and o is not None and o not in FIT[s[2], s[3]]:
                        continue
                    r = {}
                    if a is not None:
                        r[3] = a
                    if o is not None:
                        r[4] = [o]
                    out.append({'c': copy.deepcopy(c), 'i': i, 'r': r, 'way': 'build', 't': None, 'none': False})
            for a in sorted(algs.ALG_CLASSES):
                if a not in (s[4], other):
                    out.append({'c': copy.deepcopy(c), 'i': i, 'r': {3: a}, 'way': 'build', 't': None, 'none': False})
    return out


# ------------------------------------------------------------------------------------------- the check itself

KEYS = [{'kt': 'sym', 'k': b'k' * 16}, {'kt': 'okp', 'crv': 'ED25519', 'd': b'\7' * 32}, {'kt': 'ec', 'crv': 'P_256', 'd': 5},
        {'kt': 'rsa', 'i': 2}]
SPELL = ('class', 'identifier', 'name')


def pairs():
    # what an algorithm in the headers may be paired with: every algorithm and none, for every kind of key
    return [{'k': k, 'alg': a, 's': (i + a) % 3} for i, k in enumerate(KEYS) for a in sorted(algs.ALG_CLASSES)]


def check_pairs(case, rec):
    key, alg = B.key(case['k'], True), B.alg_class(case['alg'])
    cls = type(key)

    def verify(what, ok, kt, ops=()):
        got = attempt(key.verify, kt, alg, list(ops))
        expect(isinstance(got, Raised) != ok, '%s %s with %s in the headers: %s', cls.__name__, what, alg.__name__, got)
    verify('without algorithm', True, cls)
    for other in KEYS:
        t = getattr(B, {'sym': 'SymmetricKey', 'okp': 'OKPKey', 'ec': 'EC2Key', 'rsa': 'RSAKey'}[other['kt']])
        verify('as ' + t.__name__, t is cls, t)
    for a in sorted(algs.ALG_CLASSES):
        key.alg = B.respell(algs.ALG_NAMES[a], a, B.alg_class(a), case['s'])
        verify('for ' + algs.ALG_NAMES[a], a == case['alg'], cls)
    del key['ALG']
    for o in range(1, 11):
        # as from_dict() stores them
        key = B.CoseKey.from_dict({**B.wire_key(case['k'], True), 4: [o]})
        for x in range(1, 11):
            verify('with operation %d asked for %d' % (o, x), o == x, cls, [B.op_class(x)])
        verify('with operation %d asked for all' % o, True, cls, [B.op_class(x) for x in range(1, 11)])
    rec.nt()
    rec.label(cls.__name__)


FACETS = [
    Facet('restrictions', case, check, 2400, shards=7),
    Facet('table', None, check, 0, enum=table, shards=6),
    Facet('pairs', None, check_pairs, 0, enum=pairs, shards=1),
]
