"""C03 Encrypted messages decrypt to the original plaintext."""
import hypothesis.strategies as st

import algs
import build as B
import crowd
import fix
import gen as G
import msgs as M
import presets
import resend
from core import Facet, eq, expect

RULE = ('Encrypt0/Encrypt messages over all content algorithms and recipient kinds, key forms and restrictions that permit '
        'the operation, headers, plaintexts and external data of boundary sizes, preset and fresh content keys, supplied '
        'and generated ephemeral keys; sent by the library, decoded, decrypted through every recipient (preset content keys '
        'which contradict each other or do not fit are refused instead). Non-trivial: an '
        'extra header, external data, an empty plaintext, a partial IV, a recipient other than one plain direct one.')
ASSUMPTIONS = ['nonces have a length AES-GCM/CCM allows']


def nontrivial(c):
    return bool(len(c['h']['p']) + len(c['h']['u']) > 2 or c['aad'] or not c['payload'] or 'base' in c or
                len(c.get('rcpts', [])) > 1 or c.get('rcpts', [{'t': 'direct'}])[0]['t'] != 'direct')


def decrypt(c, data, who, how):
    got = M.receive(c, data, how)
    M.check_received(c, got)
    eq(got.payload, B.parse(data, M.TAG[c['k']])[2], 'ciphertext attribute')
    obj = M.arm(c, got, who)
    args = () if obj is None else (obj,)
    eq(got.decrypt(*args), c['payload'], 'plaintext')
    # decryption is repeatable and leaves the ciphertext alone
    eq(got.decrypt(*args), c['payload'], 'plaintext, second decryption')
    return got


def check(case, rec):
    c, ops, how = case['c'], case['ops'], case['how']
    msg = M.build(c)
    data = msg.encode()
    for who in range(len(c.get('rcpts', [0]))):
        got = decrypt(c, data, who, how + who)
    rec.label('alg %s' % algs.ALG_NAMES[c['alg']])
    for r in c.get('rcpts', []):
        rec.label('recipient %s %s%s' % (r['t'], algs.ALG_NAMES[r['alg']], ' generated ephemeral' if r.get('gen') else ''))
    if c.get('cek'):
        rec.label('preset content key')
    if 'base' in c:
        rec.label('partial IV')
    if len(c.get('rcpts', [])) > 1:
        rec.label('%d recipients' % len(c['rcpts']))
    if ops:
        edited, _ = B.relay(data, ops, prot_labels=[l for l, _ in c['h']['p']])
        got = M.receive(c, edited, how)
        obj = M.arm(c, got)
        eq(got.decrypt(*(() if obj is None else (obj,))), c['payload'], 'plaintext after edits in transit')
        rec.label('edited in transit')
    if c['k'] == 'enc0':
        # what was received can be sent on without the key
        got = M.receive(c, data, how)
        fwd = got.encode(encrypt=False)
        decrypt(c, fwd, None, how)
    if nontrivial(c):
        rec.nt()


def strategy(kind):
    return lambda: st.fixed_dictionaries({'c': M.sharing(kind()), 'ops': G.relay_ops(), 'how': st.integers(0, 3)})


def enum():
    """Every content algorithm with every recipient algorithm."""
    out = []
    lay = lambda a, p=True: {'p': [[1, a]] if p else [], 'u': [] if p else [[1, a]], 'sp': [0]}
    for a in algs.ENC:
        iv = G.expand(7, algs.ENC[a][4])
        base = {'alg': a, 'payload': b'%d' % a, 'aad': b'', 'iv': iv, 'kf': 0, 'vf': 1, 'kp': {}, 'vp': {},
                'key': {'kt': 'sym', 'k': G.expand(a, algs.ENC[a][2])}}
        h = lay(a)
        h['u'].append([5, iv])
        out.append({'c': {**base, 'k': 'enc0', 'h': h}, 'ops': [], 'how': 0})
        for r in sorted(algs.KW) + sorted(algs.OAEP) + sorted(algs.ECDH) + [-6]:
            if r == -6:
                x = {'t': 'direct', 'alg': r, 'h': lay(r, False)}
            elif r in algs.KW:
                x = {'t': 'kw', 'alg': r, 'h': lay(r, False), 'kf': 0, 'vf': 1, 'kp': {}, 'vp': {},
                     'key': {'kt': 'sym', 'k': G.expand(a + 100, algs.KW[r][1])}}
            elif r in algs.OAEP:
                x = {'t': 'oaep', 'alg': r, 'h': lay(r, False), 'kf': 0, 'vf': 1, 'kp': {}, 'vp': {},
                     'key': {'kt': 'rsa', 'i': fix.rsa_fits(r)[0]}}
            else:
                rh = lay(r)
                gen = algs.ECDH[r][1] and a % 2 == 0
                sk = {'kt': 'ec', 'crv': G.EC_CURVES[a % 3], 'd': a + 5}
                if not gen:
                    rh['u'].append([-1 if algs.ECDH[r][1] else -2, {'key': sk}])
                x = {'t': 'kakw' if algs.ECDH[r][3] else 'dka', 'alg': r, 'h': rh, 'kf': 0, 'vf': 1, 'gen': gen, 'sk': sk,
                     'rk': {'kt': 'ec', 'crv': G.EC_CURVES[a % 3], 'd': a + 77}, 'rp': {}, 'pp': {}, 'sp': {}}
            y = {k: v for k, v in base.items() if r == -6 or k not in ('key', 'kf', 'vf', 'kp', 'vp')}
            out.append({'c': {**y, 'k': 'enc', 'h': h, 'rcpts': [x], 'who': 0}, 'ops': [], 'how': 0})
    return out + [{'c': c, 'ops': [['set', 4, b'n']], 'how': 0} for c in crowd.with_recipients('enc')]


def enum_plain():
    return [{'c': c, 'ops': [], 'how': 0} for c in crowd.plain('enc0')]


FACETS = [
    Facet('enc0', strategy(M.enc0), check, 2000, enum=enum_plain, shards=4),
    Facet('enc', strategy(M.encm), check, 2000, enum=enum, shards=8),
    Facet('again-enc0', resend.resends('enc0'), resend.check, 600, shards=4),
    Facet('again-enc', resend.resends('enc'), resend.check, 1000, shards=4),
    Facet('presets', presets.presets('enc'), presets.check, 800, shards=4),
]
