"""Fixed cases that are large in one dimension: many signers or recipients, many header entries, long payloads."""
import algs
import fix
import gen as G

MANY = [5, 17, 24, 25, 33, 65]
LONG = [2 ** 20 + 1, 2 ** 24 + 5]


def lay(a, p=True, n=0):
    h = {'p': [[1, a]] if p else [], 'u': [] if p else [[1, a]], 'sp': [0]}
    for i in range(n):
        h['u'].append([40 + i, i])
        if p:
            h['p'].append(['t%d' % i, b'%d' % i])
    return h


def key_for(a, n=0):
    if a in algs.ECDSA:
        return {'kt': 'ec', 'crv': algs.ECDSA[a][1], 'd': fix.EC_POOL[algs.ECDSA[a][1]][n % 9]}
    if a in algs.EDDSA:
        crv, size = [('ED25519', 32), ('ED448', 57)][n % 2]
        return {'kt': 'okp', 'crv': crv, 'd': G.expand(n, size)}
    fits = [i for i in fix.rsa_fits(a) if fix.RSA_BITS[i] < 2050]
    return {'kt': 'rsa', 'i': fits[n % len(fits)]}


def signer(a, n, **more):
    return {'alg': a, 'key': key_for(a, n), 'kf': n % 8, 'vf': (n + 1) % 8, 'kp': {}, 'vp': {}, 'vpriv': False,
            'aad': b'aad%d' % (n % 5), 'h': lay(a, n % 4 != 3, n % 3), **more}


def sign_cases():
    out = []
    for n in MANY + [257]:
        ss = [signer([-8, -8, -8, -37, -7, -8, -257][i % 7] if n < 65 else -8, i) for i in range(n)]
        out.append({'k': 'sign', 'h': {'p': [[4, b'body']], 'u': [], 'sp': [0]}, 'payload': b'crowd',
                    'det': n % 2 == 0, 'signers': ss})
    # the same key, headers and payload, other external data (and the same in the end)
    for a in algs.SIGN:
        x = signer(a, 0)
        out.append({'k': 'sign', 'h': {'p': [], 'u': [], 'sp': [0]}, 'payload': b'', 'det': False,
                    'share': a % 3 > 0,
                    'signers': [dict(x, aad=d, kp={}, vp={}) for d in (b'', b'a', b'ab', b'')]})
    return out


def sign1_cases():
    out = [signer(a, 0, k='sign1', payload=G.expand(1, n), det=n > LONG[0]) for n in LONG for a in (-8, -7, -36, -37, -259)]
    out += [signer(-8, i, k='sign1', payload=b'x', det=False, h=lay(-8, True, n)) for i, n in enumerate((24, 25, 256, 300))]
    return out


def rcpt(a, n):
    if a in algs.KW:
        return {'t': 'kw', 'alg': a, 'h': lay(a, False, n % 3), 'kf': n % 8, 'vf': (n + 1) % 8, 'kp': {}, 'vp': {},
                'key': {'kt': 'sym', 'k': G.expand(n, algs.KW[a][1])}}
    if a in algs.OAEP:
        fits = [i for i in fix.rsa_fits(a) if fix.RSA_BITS[i] < 2050]
        return {'t': 'oaep', 'alg': a, 'h': lay(a, False, n % 3), 'kf': 0, 'vf': 1, 'kp': {}, 'vp': {}, 'key': {'kt': 'rsa', 'i': fits[n % len(fits)]}}
    if a == -6:
        return {'t': 'direct', 'alg': a, 'h': lay(a, False, n % 3)}
    h = lay(a, n % 2 == 0, n % 3)
    sk = {'kt': 'ec', 'crv': 'P_256', 'd': 5 + n}
    gen = algs.ECDH[a][1] and n % 2 == 0
    if not gen:
        h['u'].append([-1 if algs.ECDH[a][1] else -2, {'key': sk}])
    return {'t': 'kakw', 'alg': a, 'h': h, 'kf': n % 8, 'vf': (n + 1) % 8, 'gen': gen, 'sk': sk, 'rk': {'kt': 'ec', 'crv': 'P_256', 'd': 1000 + n},
            'rp': {}, 'pp': {}, 'sp': {}}


def with_recipients(kind):
    a = 1 if kind == 'enc' else 5
    out = []
    for n in MANY + [257]:
        cycle = sorted(algs.KW) + algs.KAKW + sorted(algs.KW) + [-40]
        rs = [rcpt(cycle[i % len(cycle)] if n < 65 else -3 - i % 3, i) for i in range(n)]
        out.append({'k': kind, 'alg': a, 'h': lay(a), 'payload': b'crowd', 'aad': b'', 'rcpts': rs, 'who': n - 1})
    for n in (5, 25):
        out.append({'k': kind, 'alg': a, 'h': lay(a), 'payload': b'crowd', 'aad': b'x', 'rcpts': [rcpt(-6, i) for i in range(n)], 'who': n - 1,
                    **sym(kind, a)})
    for c in out:
        if kind == 'enc':
            c['iv'] = b'i' * 12
            c['h']['u'].append([5, c['iv']])
    return out


def sym(kind, a):
    n = algs.ENC[a][2] if 'enc' in kind else min(32, algs.MAC[a][3])
    return {'key': {'kt': 'sym', 'k': G.expand(a, n)}, 'kf': 0, 'vf': 1, 'kp': {}, 'vp': {}}


def plain(kind):
    out = []
    for a in (1, 12, 33) if kind == 'enc0' else (4, 5, 15, 26):
        for n in LONG:
            c = {'k': kind, 'alg': a, 'h': lay(a), 'payload': G.expand(2, n), 'aad': G.expand(3, n // 1000), **sym(kind, a)}
            out.append(c)
    for n in (24, 25, 256, 300):
        a = 3 if kind == 'enc0' else 6
        out.append({'k': kind, 'alg': a, 'h': lay(a, True, n), 'payload': b'x', 'aad': b'', **sym(kind, a)})
    for c in out:
        if kind == 'enc0':
            c['iv'] = b'n' * algs.ENC[c['alg']][4]
            c['h']['u'].append([5, c['iv']])
    return out
