"""C05 MACed messages verify after transport."""
import hypothesis.strategies as st

import algs
import build as B
import crowd
import fix
import gen as G
import msgs as M
import presets
import resend
from core import Facet, eq, is_true

RULE = ('Mac0/Mac messages over all MAC algorithms and recipient kinds, key forms and restrictions that permit the '
        'operation, headers, payloads and external data of boundary sizes; sent by the library, edited in transit in '
        'unrelated unprotected attributes, decoded and verified, through every recipient (preset content keys which '
        'contradict each other or do not fit are refused instead). Non-trivial: an extra header, '
        'external data, an empty payload, a transit edit, or a recipient other than one plain direct one.')
ASSUMPTIONS = ['keys delivered through recipients fit the library\'s symmetric keys (not HMAC 384/512)']


def nontrivial(c, ops):
    return bool(len(c['h']['p']) + len(c['h']['u']) > 1 or c['aad'] or not c['payload'] or ops or
                len(c.get('rcpts', [])) > 1 or c.get('rcpts', [{'t': 'direct'}])[0]['t'] != 'direct')


def verify(c, data, who, how):
    got = M.receive(c, data, how)
    M.check_received(c, got)
    eq(got.auth_tag, B.parse(data, M.TAG[c['k']])[3], 'tag attribute')
    M.arm(c, got, who)
    is_true('verify_tag', got.verify_tag())
    is_true('verify_tag, second time', got.verify_tag())


def check(case, rec):
    c, ops, how = case['c'], case['ops'], case['how']
    msg = M.build(c)
    data = msg.encode()
    for who in range(len(c.get('rcpts', [0]))):
        verify(c, data, who, how + who)
    rec.label('alg %s' % algs.ALG_NAMES[c['alg']])
    for r in c.get('rcpts', []):
        rec.label('recipient %s %s%s' % (r['t'], algs.ALG_NAMES[r['alg']], ' generated ephemeral' if r.get('gen') else ''))
    if c.get('cek'):
        rec.label('preset content key')
    if len(c.get('rcpts', [])) > 1:
        rec.label('%d recipients' % len(c['rcpts']))
    if ops:
        edited, _ = B.relay(data, ops, prot_labels=[l for l, _ in c['h']['p']])
        got = M.receive(c, edited, how)
        M.arm(c, got)
        is_true('verify_tag after edits in transit', got.verify_tag())
        rec.label('edited in transit')
    if nontrivial(c, ops):
        rec.nt()


def strategy(kind):
    return lambda: st.fixed_dictionaries({'c': M.sharing(kind()), 'ops': G.relay_ops(), 'how': st.integers(0, 3)})


def enum():
    """Every MAC algorithm with every recipient algorithm."""
    out = []
    lay = lambda a, p=True: {'p': [[1, a]] if p else [], 'u': [] if p else [[1, a]], 'sp': [0]}
    for a in algs.MAC:
        base = {'alg': a, 'payload': b'%d' % a, 'aad': b'', 'kf': 0, 'vf': 1, 'kp': {}, 'vp': {},
                'key': {'kt': 'sym', 'k': G.expand(a, min(32, algs.MAC[a][3]))}}
        h = lay(a)
        out.append({'c': {**base, 'k': 'mac0', 'h': h}, 'ops': [], 'how': 0})
        for r in sorted(algs.KW) + sorted(algs.OAEP) + sorted(algs.ECDH) + [-6]:
            if r != -6 and a not in algs.MAC_DELIVERABLE:
                continue
            if r == -6:
                x = {'t': 'direct', 'alg': r, 'h': lay(r, False)}
            elif r in algs.KW:
                x = {'t': 'kw', 'alg': r, 'h': lay(r, False), 'kf': 0, 'vf': 1, 'kp': {}, 'vp': {},
                     'key': {'kt': 'sym', 'k': G.expand(a + 100, algs.KW[r][1])}}
            elif r in algs.OAEP:
                x = {'t': 'oaep', 'alg': r, 'h': lay(r, False), 'kf': 0, 'vf': 1, 'kp': {}, 'vp': {},
                     'key': {'kt': 'rsa', 'i': fix.rsa_fits(r)[0]}}
            else:
                rh = lay(r)
                gen = algs.ECDH[r][1] and a % 2 == 0
                sk = {'kt': 'ec', 'crv': G.EC_CURVES[a % 3], 'd': a + 5}
                if not gen:
                    rh['u'].append([-1 if algs.ECDH[r][1] else -2, {'key': sk}])
                x = {'t': 'kakw' if algs.ECDH[r][3] else 'dka', 'alg': r, 'h': rh, 'kf': 0, 'vf': 1, 'gen': gen, 'sk': sk,
                     'rk': {'kt': 'ec', 'crv': G.EC_CURVES[a % 3], 'd': a + 77}, 'rp': {}, 'pp': {}, 'sp': {}}
            y = {k: v for k, v in base.items() if r == -6 or k not in ('key', 'kf', 'vf', 'kp', 'vp')}
            out.append({'c': {**y, 'k': 'mac', 'h': h, 'rcpts': [x], 'who': 0}, 'ops': [], 'how': 0})
    return out + [{'c': c, 'ops': [['set', 4, b'n']], 'how': 0} for c in crowd.with_recipients('mac')]


def enum_plain():
    return [{'c': c, 'ops': [], 'how': 0} for c in crowd.plain('mac0')]


FACETS = [
    Facet('mac0', strategy(M.mac0), check, 2000, enum=enum_plain, shards=4),
    Facet('mac', strategy(M.macm), check, 2000, enum=enum, shards=8),
    Facet('again-mac0', resend.resends('mac0'), resend.check, 600, shards=4),
    Facet('again-mac', resend.resends('mac'), resend.check, 1000, shards=4),
    Facet('presets', presets.presets('mac'), presets.check, 800, shards=4),
]
