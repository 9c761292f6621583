"""C21 Recipient rules are enforced when building and when decoding."""
import hypothesis.strategies as st

import algs
import build as B
import fix
import gen as G
import grey
import msgs as M
import refcose as R
from core import Facet, attempt, eq, expect, fail, Raised, refused, short
from refcbor import Tag, enc, odd_key, wild_from

H = B.pycose.headers
RC = B.pycose.messages.recipient
RULE = ('Lists of 0 to 4 recipients over all kinds and algorithms, and recipient trees, with one rule broken at a generated '
        'position or none: built and encoded (also after a history of changes to the list), and made by an independent '
        'encoder and decoded under both policies; the outcome is compared with an independent statement of the rules. '
        'Decryption through recipients of other decodings, other messages, removed ones and non-recipients. Coverage-guided messages are judged when they are accepted. Non-trivial: a '
        'rule is broken, or a list of several recipients or a tree is accepted.')
ASSUMPTIONS = ['the ciphertext of a direct key agreement recipient is not looked at when decoding',
               'plain direct and direct-with-derivation recipients are not mixed in the generated lists',
               'protected attributes of RSA key transport recipients: only refused when building',
               'nested recipients are judged when decoding; when building only that a nested illegal recipient is refused']

CLS = {'direct': 'DirectEncryption', 'hkdf': 'DirectEncryption', 'kw': 'KeyWrap', 'oaep': 'KeyWrap', 'dka': 'DirectKeyAgreement',
       'kakw': 'KeyAgreementWithKeyWrap'}
ALGS = {'direct': [-6], 'hkdf': [-10, -13], 'kw': sorted(algs.KW), 'oaep': sorted(algs.OAEP), 'dka': algs.DKA, 'kakw': algs.KAKW}
RSA_I = {a: min(fix.rsa_fits(a), key=lambda i: fix.RSA_BITS[i]) for a in algs.OAEP}


@st.composite
def rspec(draw, kinds=('direct', 'kw', 'kw', 'oaep', 'dka', 'kakw', 'kakw', 'hkdf')):
    t = draw(st.sampled_from(list(kinds)))
    a = draw(st.sampled_from(ALGS[t]))
    return {'t': t, 'alg': a, 'd': draw(st.integers(5, 9)), 'x': draw(st.sampled_from([None, None, 4, 'x', -999])),
            'ap': draw(st.booleans()), 'gen': draw(st.booleans())}


def make(r, defect=None, spec=1):
    """A recipient object of the code under test."""
    p, u = {}, {}
    if defect != 'noalg':
        # the algorithm may be protected where protected attributes are permitted
        (p if r['ap'] and r['t'] in ('dka', 'kakw', 'hkdf') else u)[H.Algorithm] = B.alg_class(r['alg'])
    if r['x'] is not None:
        u[r['x'] if r['x'] != 4 else H.KID] = b'x'
    if defect == 'prot':
        if spec == 0 and H.Algorithm in u:
            p[H.Algorithm] = u.pop(H.Algorithm)
        elif spec == 1:
            p[H.KID if r['x'] != 4 else H.ContentType] = b'x' if r['x'] != 4 else 0
        else:
            p['unknown'] = None
    kw = {'phdr': p, 'uhdr': u}
    if defect == 'nested':
        inner = {'t': ['direct', 'kw', 'dka'][spec % 3], 'alg': [-6, -3, -25][spec % 3], 'd': 6, 'x': None, 'ap': False, 'gen': True}
        kw['recipients'] = [make(inner)]
    obj = getattr(RC, CLS[r['t']])(**kw)
    rk = {'kt': 'ec', 'crv': 'P_256', 'd': r['d'] + 100}
    if r['t'] == 'kw':
        obj.key = B.SymmetricKey(k=b'k' * algs.KW[r['alg']][1])
    elif r['t'] == 'oaep':
        obj.key = B.key({'kt': 'rsa', 'i': RSA_I[r['alg']]}, False)
    elif r['t'] in ('dka', 'kakw'):
        es = algs.ECDH[r['alg']][1]
        if not (es and r['gen']):
            obj.key = B.key({'kt': 'ec', 'crv': 'P_256', 'd': r['d']}, True)
            if defect != 'noeph':
                obj.uhdr_update({H.EphemeralKey if es else H.StaticKey: B.key({'kt': 'ec', 'crv': 'P_256', 'd': r['d']}, False)})
        obj.local_attrs = {H.StaticKey: B.key(rk, False)}
    return obj


def breaks(r, defect, building):
    """Does the defect break a rule for this recipient?"""
    t = r['t']
    if defect == 'noalg':
        return True
    if defect == 'prot':
        return t in ('direct', 'kw') or building and t == 'oaep'
    if defect == 'nested':
        return t in ('direct', 'hkdf', 'dka')
    if defect == 'noeph':
        return t in ('dka', 'kakw') and algs.ECDH[r['alg']][1] and not (building and r['gen'])
    return False


def legal_mix(kinds):
    cl = {CLS[t] for t in kinds}
    if not kinds or 'DirectEncryption' in cl and len(cl) > 1:
        return False
    return not ('DirectKeyAgreement' in cl and len(kinds) > 1)


def message(k, alg=None):
    alg = alg or {'enc': -0 or 1, 'mac': 5}[k]
    kw = {'phdr': {H.Algorithm: B.alg_class(alg)}, 'payload': b'payload'}
    kw['key'] = B.SymmetricKey(k=b'c' * (algs.ENC[alg][2] if k == 'enc' else algs.MAC[alg][3]))
    if k == 'enc':
        kw['uhdr'] = {H.IV: b'i' * algs.ENC[alg][4]}
    return M.CLASS[k](**kw)


def wire_alg(raw):
    p = B.cbor2.loads(raw[0]) if raw[0] else {}
    return p.get(1, raw[1].get(1))


def check_built(k, msg, specs, legal, why):
    r = attempt(msg.encode)
    if not legal:
        expect(isinstance(r, Raised), '%s was encoded although %s: %s', [s['t'] for s in specs], why, short(r))
        return
    expect(not isinstance(r, Raised), 'a legal recipient list was refused (%s): %s', [(s['t'], s['alg']) for s in specs], r)
    raw = B.parse(r, M.TAG[k])[-1]
    eq([wire_alg(x) for x in raw], [s['alg'] for s in specs], 'recipients on the wire')
    got = M.receive({'k': k}, r)
    eq([type(x).__name__ for x in got.recipients], [CLS[s['t']] for s in specs], 'decoded recipients')


@st.composite
def build_case(draw):
    k = draw(st.sampled_from(['enc', 'mac']))
    mode = draw(st.sampled_from(['any', 'any', 'direct', 'hkdf', 'dka', 'wrap', 'wrap', 'empty', 'twodka']))
    n = [1, 2, 3, 4]
    if mode == 'any':
        rs = G.several(draw, lambda: draw(rspec(('direct', 'kw', 'oaep', 'dka', 'kakw'))), n)
    elif mode == 'empty':
        rs = []
    elif mode == 'dka':
        rs = [draw(rspec(('dka',)))]
    elif mode == 'twodka':
        rs = G.several(draw, lambda: draw(rspec(('dka',))), n)
    elif mode == 'wrap':
        rs = G.several(draw, lambda: draw(rspec(('kw', 'oaep', 'kakw'))), n)
    else:
        rs = G.several(draw, lambda: draw(rspec((mode,))), n)
    d = draw(st.sampled_from([None, None, None, 'noalg', 'prot', 'prot', 'nested', 'noeph', 'deep']))
    return {'k': k, 'rs': rs, 'd': d, 'at': draw(st.integers(0, 99)), 's': draw(st.integers(0, 2)), 'how': draw(st.integers(0, 2)),
            'alg': draw(st.sampled_from(sorted(algs.ENC) if k == 'enc' else algs.MAC_DELIVERABLE))}


def check_build(case, rec):
    rs, d = case['rs'], case['d']
    at = case['at'] % len(rs) if rs else None
    objs = []
    broken = None
    for i, r in enumerate(rs):
        dd = d if i == at else None
        if dd == 'deep':
            # an illegal recipient below one which may carry recipients
            o = make(r)
            if r['t'] in ('kw', 'oaep', 'kakw'):
                inner = {'t': 'direct', 'alg': -6, 'd': 5, 'x': None, 'ap': False, 'gen': False}
                o.recipients = [make(inner, ['prot', 'noalg', 'nested'][case['s']], 1)]
                broken = 'a nested direct recipient is illegal'
            objs.append(o)
            continue
        if dd == 'nested' and case['s'] and r['t'] in ('kw', 'oaep', 'kakw'):
            return      # the keys of nested recipients are not claimed
        if dd is not None and breaks(r, dd, True):
            broken = '%s recipient: %s' % (r['t'], dd)
        objs.append(make(r, dd, case['s']))
    k = case['k']
    msg = message(k, case['alg'])
    if case['how'] == 0:
        msg.recipients = objs
    elif case['how'] == 1:
        for o in objs:
            msg.recipients.append(o)
    else:
        kw = {'phdr': msg.phdr, 'uhdr': msg.uhdr, 'payload': b'p', 'key': msg.key}
        msg = M.CLASS[k](recipients=objs, **kw)
    mix = legal_mix([r['t'] for r in rs])
    legal = mix and not broken
    check_built(k, msg, rs, legal, broken or 'the recipients may not be combined')
    if not mix:
        # the protected content itself is not made either
        r = attempt(msg.encrypt if k == 'enc' else msg.compute_tag)
        expect(isinstance(r, Raised), 'protected for %s: %s', [s['t'] for s in rs], short(r))
    rec.label('legal' if legal else broken or 'illegal mix')
    if not legal or len(rs) > 1:
        rec.nt()


# ------------------------------------------------------------------------------------------- histories of the list

@st.composite
def hist_case(draw):
    k = draw(st.sampled_from(['enc', 'mac']))
    pool = [draw(rspec(('direct', 'direct', 'kw', 'kakw', 'oaep', 'dka'))) for _ in range(draw(st.integers(2, 4)))]
    op = st.one_of(st.tuples(st.just('set'), st.lists(st.integers(0, 3), max_size=3, unique=True)),
                   st.tuples(st.just('append'), st.integers(0, 3)), st.tuples(st.just('remove'), st.integers(0, 3)),
                   st.tuples(st.just('none'), st.just(0)), st.tuples(st.just('bad'), st.integers(0, 3)),
                   st.tuples(st.just('prot'), st.integers(0, 3)), st.tuples(st.just('unprot'), st.integers(0, 3)))
    return {'k': k, 'pool': pool, 'ops': draw(st.lists(op, min_size=2, max_size=8))}


def check_hist(case, rec):
    k, pool = case['k'], case['pool']
    objs = [make(r) for r in pool]
    msg = message(k)
    now, prot = [], set()
    verdicts = []
    for op, x in case['ops']:
        if op == 'set':
            now = [i % len(pool) for i in x]
            now = [i for n, i in enumerate(now) if i not in now[:n]]
            given = [objs[i] for i in now]
            msg.recipients = given
        elif op == 'append':
            i = x % len(pool)
            if i in now:
                continue
            now.append(i)
            msg.recipients.append(objs[i])
        elif op == 'remove':
            if not now:
                continue
            del msg.recipients[x % len(now)]
            del now[x % len(now)]
        elif op == 'none':
            msg.recipients = None if k == 'enc' else []
            now = []
        elif op == 'bad' and k == 'mac':
            continue        # a plain attribute, not checked on assignment
        elif op == 'bad':
            bad = [None, b'', 'x', [b'', {1: -6}, b'']][x % 4]

            def assign():
                msg.recipients = [objs[0], bad]
            refused('recipients containing %r' % (bad,), assign)
        elif op in ('prot', 'unprot'):
            i = x % len(pool)
            if op == 'prot':
                objs[i].phdr_update({'p': 1})
                prot.add(i)
            else:
                objs[i].phdr = {k: v for k, v in objs[i].phdr.items() if k != 'p'}
                prot.discard(i)
        kinds = [pool[i]['t'] for i in now]
        broken = [i for i in now if i in prot and pool[i]['t'] in ('direct', 'kw', 'oaep')]
        # recipients which were last used with different content keys cannot be used together before these are reset
        ceks = {objs[i].payload for i in now if pool[i]['t'] in ('kw', 'oaep', 'kakw') and objs[i].payload}
        if len(ceks) > 1 and len(verdicts) % 2:
            for i in now:
                if pool[i]['t'] in ('kw', 'oaep', 'kakw'):
                    objs[i].payload = b''
            ceks = ()
        legal = legal_mix(kinds) and not broken and len(ceks) < 2
        check_built(k, msg, [pool[i] for i in now], legal, 'protected attributes' if broken else 'the recipients may not be combined')
        verdicts.append(legal)
    if len(set(verdicts)) > 1:
        rec.nt()
        rec.label('both verdicts')


# ------------------------------------------------------------------------------------------- decoding trees

DEFECTS = ['none', 'none', 'noalg', 'notrecipient', 'ct', 'noct', 'nullct', 'prot', 'nested', 'noeph', 'short']
NOT_RC = [-7, -8, 1, 5, 10, -16, -37, -257, -44, 25, -11, -12]


@st.composite
def tree(draw, depth=2):
    r = draw(rspec())
    n = []
    if r['t'] in ('kw', 'oaep', 'kakw') and depth and draw(st.integers(0, 2)) == 0:
        n = [draw(tree(depth - 1)) for _ in range(draw(st.integers(1, 2)))]
    r['n'] = n
    r['pp'] = draw(st.booleans())
    r['e'] = draw(st.integers(0, 3))
    return r


@st.composite
def decode_case(draw):
    return {'k': draw(st.sampled_from(['enc', 'mac'])), 'rs': G.several(draw, lambda: draw(tree()), [0, 1, 1, 1, 2, 3, 4]),
            'd': draw(st.sampled_from(DEFECTS)), 'at': draw(st.integers(0, 99)), 's': draw(st.integers(0, 11)),
            'w': draw(st.lists(st.sampled_from([0, 0, 1, 2, 12]), max_size=6)), 'none': draw(st.booleans())}


PUB = {1: 2, -1: 1, -2: R.ec_pub('P_256', 5)[0], -3: R.ec_pub('P_256', 5)[1]}


def wire_rc(r, bad, state):
    """The wire structure; bad(r) says which defect this node has."""
    d = bad(r)
    s = state['s']
    t = r['t']
    p, u = {}, {}
    alg = r['alg'] if d != 'notrecipient' else NOT_RC[s % len(NOT_RC)]
    if d != 'noalg':
        (p if r['pp'] and t not in ('direct', 'kw') else u)[1] = alg
    if r['x'] is not None:
        (p if r['ap'] and t not in ('direct', 'kw') else u)[r['x']] = b'x'
    es = t in ('dka', 'kakw') and algs.ECDH[r['alg']][1]
    if es and (d != 'noeph' or t == 'kakw'):
        (p if r['gen'] else u)[-1] = PUB
    elif t in ('dka', 'kakw') and r['gen']:
        u[-2] = PUB
    ct = b'' if t in ('direct', 'hkdf', 'dka') else b'c' * 24
    broken = d in ('noalg', 'notrecipient')
    if d == 'ct':
        ct = [b'x', b'c' * 24, None][s % 3]
        broken = t in ('direct', 'hkdf') or t != 'dka' and ct is None
        state['skip'] = t == 'dka'
    elif d == 'noct':
        ct = b''
        broken = t in ('kw', 'oaep', 'kakw')
    elif d == 'nullct':
        ct = None
        broken = t != 'dka'
        state['skip'] = t == 'dka'
    elif d == 'prot':
        p[[4, 'x', -999, 33][s % 4]] = b'p'
        for l in p:
            u.pop(l, None)
        broken = t in ('direct', 'kw')
    elif d == 'noeph':
        broken = t == 'dka' and es
    pb = enc(p, wild_from(state['w'])) if p else [b'', b'', b'\xa0', b'\xbf\xff'][r['e']]
    raw = [pb, u, ct]
    sub = [wire_rc(x, bad, state) for x in r['n']]
    if d == 'nested':
        if s % 2 or not sub:
            sub.append([b'', {1: -6}, b''])
        broken = t in ('direct', 'hkdf', 'dka')
    if sub or r['e'] == 3:
        raw.append(sub)
    if d == 'short':
        del raw[s % 3:]
        broken = True
    if d != 'none' and broken:
        state['broken'] = '%s at a %s recipient' % (d, t)
    return raw


def flat(rs):
    out = []
    for r in rs:
        out.append(r)
        out += flat(r['n'])
    return out


def check_tree(objs, rs, raws, what):
    eq(len(objs), len(rs), what + ': number of recipients')
    for i, (o, r, raw) in enumerate(zip(objs, rs, raws)):
        w = '%s.%d' % (what, i)
        eq(type(o).__name__, CLS[r['t']], w + ': class')
        eq(o.payload, raw[2], w + ': ciphertext')
        expect(o.get_attr(H.Algorithm) is B.alg_class(r['alg']), '%s: algorithm', w)
        check_tree(o.recipients, r['n'], raw[3] if len(raw) > 3 else [], w)


def check_decode(case, rec):
    rs, k = case['rs'], case['k']
    nodes = flat(rs)
    target = nodes[case['at'] % len(nodes)] if nodes else None
    state = {'s': case['s'], 'w': case['w'], 'broken': None}
    raws = [wire_rc(r, lambda x: case['d'] if x is target else 'none', state) for r in rs]
    body = [enc({1: 1 if k == 'enc' else 5}), {5: b'i' * 12}, b'payload'] + ([b't' * 32] if k == 'mac' else [])
    if rs or not case['none']:
        body.append(raws)
    if state.get('skip'):
        return
    data = enc(Tag(M.TAG[k], body), wild_from(case['w'][::-1]))
    for cls in (B.CoseMessage, M.CLASS[k]):
        got = attempt(cls.decode, data)
        if state['broken']:
            expect(isinstance(got, Raised), 'accepted with %s: %s', state['broken'], short(got))
        else:
            expect(not isinstance(got, Raised), 'a legal structure was refused: %s', got)
            if case['d'] != 'nested':
                check_tree(got.recipients, rs, raws, 'message')
    strict = attempt(M.CLASS[k].decode, data, allow_unknown_attributes=False)
    if state['broken']:
        expect(isinstance(strict, Raised), 'accepted with %s under the strict policy', state['broken'])
    rec.label(state['broken'] or 'legal, %d levels' % (1 + (len(nodes) > len(rs)) if rs else 0))
    if state['broken'] or len(nodes) > 1:
        rec.nt()


# ------------------------------------------------------------------------------------------- decrypting

@st.composite
def decrypt_case(draw):
    c = draw(M.encm())
    return {'c': c, 'f': draw(st.sampled_from(['again', 'fresh', 'removed', 'none', 'text', 'class', 'other', 'mixdirect', 'mixdka',
                                               'replaced'])),
            'at': draw(st.integers(0, 3))}


def check_decrypt(case, rec):
    c, f = case['c'], case['f']
    data = enc(M.ref_message(c))
    msg = M.receive(c, data)
    own = M.arm(c, msg)
    others = list(msg.recipients)
    if f == 'again':
        bad = M.arm(c, M.receive(c, data))
    elif f == 'fresh':
        bad = M.build_recipient(c['rcpts'][c['who']])
    elif f == 'other':
        c2 = {**c, 'payload': b'another'}
        bad = M.arm(c2, M.receive(c2, enc(M.ref_message(c2))))
    elif f in ('removed', 'replaced'):
        bad = own
        if f == 'removed':
            msg.recipients = [r for r in msg.recipients if r is not own]
        else:
            msg.recipients = M.receive(c, data).recipients
    elif f in ('mixdirect', 'mixdka'):
        # a list which may not be used
        raw = M.ref_message(c)
        t = c['rcpts'][0]['t']
        extra = [b'', {1: -6}, b''] if f == 'mixdirect' and t != 'direct' else [enc({1: -25}), {-1: PUB}, b'']
        rs = raw.value[3]
        at = case['at'] % (len(rs) + 1)
        rs.insert(at, extra)
        got = attempt(M.receive, c, enc(raw))
        rec.nt()
        rec.label(f + ' ' + t)
        if isinstance(got, Raised):
            return
        i = c['who'] + (at <= c['who'])
        obj = got.recipients[i]
        if c['rcpts'][c['who']]['t'] != 'direct':
            obj.key = M.receiver_key(c['rcpts'][c['who']])
            obj.local_attrs = M.local_info(c['rcpts'][c['who']])
        got.external_aad = c['aad']
        got.key = B.SymmetricKey(k=M.ref_cek(c)) if t == 'direct' else None
        for o in (obj, got.recipients[at]):
            refused('decrypting with recipients %s and %s' % ([r['t'] for r in c['rcpts']], f), got.decrypt, o)
        return
    else:
        bad = {'none': None, 'text': 'recipient', 'class': RC.KeyWrap}[f]
    rec.nt()
    rec.label(f)
    refused('decrypting through %s' % f, msg.decrypt, bad)
    # and the refused attempt does no harm
    msg.recipients = others
    eq(msg.decrypt(own), c['payload'], 'plaintext after the refused attempt')


# ------------------------------------------------------------------------------------------- coverage-guided decoding

RCLASS = {a: t for t in ('direct', 'kw', 'oaep', 'dka', 'kakw') for a in ALGS[t]}
RCLASS.update({a: 'hkdf' for a in (-10, -11, -12, -13)})


def grey_seeds(rng):
    out = []
    for c in grey.draws(decode_case(), rng, 50):
        state = {'s': c['s'], 'w': c['w'], 'broken': None}
        raws = [wire_rc(r, lambda x: 'none', state) for r in c['rs']]
        body = [enc({1: 1 if c['k'] == 'enc' else 5}), {5: b'i' * 12}, b'payload'] + ([b't' * 32] if c['k'] == 'mac' else []) + [raws]
        out.append(enc(Tag(M.TAG[c['k']], body), wild_from(c['w'][::-1])))
    return [d for d in out if len(d) < 2000]


def named(bucket, lab, name):
    return [v for k, v in bucket.items() if k == lab and type(k) is not bool or isinstance(k, str) and k.upper() == name]


def judge_accepted(raw, what):
    prot = B.cbor2.loads(raw[0]) if raw[0] else {}
    at = named(prot, 1, 'ALG') + named(raw[1], 1, 'ALG')
    expect(at, '%s was accepted without an algorithm', what)
    if any(isinstance(a, str) for a in at):
        at = [i for a in at for i, n in algs.ALG_NAMES.items() if isinstance(a, str) and n == a.upper()]
    expect(any(type(a) is int and a in RCLASS for a in at), '%s was accepted with algorithm %s', what, short(at))
    if len(at) > 1:
        return
    t, sub, ct = RCLASS[at[0]], raw[3] if len(raw) > 3 else [], raw[2]
    if t == 'direct' or t == 'kw':
        expect(not prot, '%s (%s) was accepted with protected attributes', what, t)
    if t in ('direct', 'hkdf'):
        expect(ct == b'', '%s (%s) was accepted with ciphertext %s', what, t, short(ct))
    elif t != 'dka':
        expect(type(ct) is bytes and ct, '%s (%s) was accepted with ciphertext %s', what, t, short(ct))
    if t in ('direct', 'hkdf', 'dka'):
        expect(not sub, '%s (%s) was accepted with recipients', what, t)
    if t == 'dka' and algs.ECDH[at[0]][1]:
        expect(named(prot, -1, 'EPHEMERAL_KEY') + named(raw[1], -1, 'EPHEMERAL_KEY'), '%s was accepted without an ephemeral key', what)
    for i, r in enumerate(sub):
        judge_accepted(r, '%s.%d' % (what, i))


def check_guided(case, rec):
    data = case['data']
    if odd_key(data):
        return
    for cls in (B.CoseMessage, B.EncMessage, B.MacMessage):
        got = attempt(cls.decode, data)
        if isinstance(got, Raised) or not isinstance(got, (B.EncMessage, B.MacMessage)):
            continue
        raw = B.cbor2.loads(data).value
        at = 3 if isinstance(got, B.EncMessage) else 4
        sub = raw[at] if len(raw) > at else []
        for i, r in enumerate(sub):
            judge_accepted(r, 'recipient %d' % i)

        def tree(objs):
            return [tree(o.recipients) for o in objs]

        def wires(rs):
            return [wires(r[3] if len(r) > 3 else []) for r in rs]
        eq(tree(got.recipients), wires(sub), 'shape of the recipients')
        rec.nt()
        rec.label('accepted, %d recipients' % min(len(sub), 5))


FACETS = [
    Facet('build', build_case, check_build, 5000),
    Facet('history', hist_case, check_hist, 1500),
    Facet('decode', decode_case, check_decode, 8000),
    Facet('decrypt', decrypt_case, check_decrypt, 1500),
    Facet('guided', None, check_guided, 24000, driver=grey.driver(grey_seeds, lambda: sorted(RCLASS) + [b'', b'\xa0', None, 'ALG', 96, 97])),
]
