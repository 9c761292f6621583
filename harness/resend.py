"""One message object encoded again and again, with changes in between: every encoding reaches its receivers."""
import hypothesis.strategies as st

import algs
import build as B
import gen as G
import msgs as M
import refcose as R
from core import eq, expect, is_true, refused

H = B.pycose.headers


@st.composite
def change(draw, kind):
    sub = kind in ('sign', 'enc', 'mac')
    # later entries are preferred less by the shrinker
    k = draw(st.sampled_from(['nothing', 'payload', 'aad', 'alg', 'key', 'kid', 'misfit', 'misfit'] +
                             (['info', 'info', 'info', 'drop', 'supp', 'peer', 'sender', 'cek', 'bodykey', 'list', 'ephemeral']
                              if kind in ('enc', 'mac') else []) + (['list'] if sub else [])))
    o = {'o': k, 'i': draw(st.integers(0, 3)), 'n': draw(st.integers(0, 99))}
    if k in ('payload', 'aad'):
        o['v'] = draw(G.blob(0, 300))
    elif k in ('info', 'drop'):
        o['l'] = draw(st.sampled_from(M.PARTY + [-20]))
        o['v'] = draw(G.blob(0, 40))
    elif k == 'supp':
        o['l'] = draw(st.sampled_from(['pub', 'priv']))
        o['v'] = draw(st.one_of(st.none(), G.blob(0, 40)))
    elif k == 'kid':
        o['b'] = draw(st.sampled_from('pu'))
        o['v'] = draw(G.small)
    return o


@st.composite
def resend(draw, kind, maker):
    return {'c': draw(maker()), 'ops': draw(st.lists(change(kind), min_size=1, max_size=5)), 'how': draw(st.integers(0, 3))}


def resends(kind):
    maker = {'sign1': M.sign1, 'sign': M.sign, 'mac0': M.mac0, 'enc0': M.enc0,
             'enc': lambda: M.encm(modes=('direct', 'dka', 'dka', 'wrap', 'wrap')),
             'mac': lambda: M.macm(modes=('direct', 'dka', 'dka', 'wrap', 'wrap'))}[kind]
    return lambda: resend(kind, maker)


def bucket_of(h, label):
    return next((b for b in 'pu' for l, _ in h[b] if not isinstance(l, str) and l == label), None)


def put(obj, h, label, v, prefer='u'):
    """Set a header entry on the object and in the model."""
    b = bucket_of(h, label) or prefer
    for e in h[b]:
        if not isinstance(e[0], str) and e[0] == label:
            e[1] = v
            break
    else:
        h[b].append([label, v])
    d = B.hdr([[label, v]])
    (obj.phdr_update if b == 'p' else obj.uhdr_update)(d)


def drop(obj, h, label):
    b = bucket_of(h, label)
    if b is None:
        return False
    h[b] = [e for e in h[b] if isinstance(e[0], str) or e[0] != label]
    cls = B.hdr_class(label)
    if b == 'p':
        obj.phdr = {k: v for k, v in obj.phdr.items() if k is not cls}
    else:
        obj.uhdr = {k: v for k, v in obj.uhdr.items() if k is not cls}
    return True


def new_sym(old, n):
    return {'kt': 'sym', 'k': G.expand(n * 31 + len(old), len(old))}


def unshared(x):
    """A copy in which no two parts are one object."""
    if isinstance(x, dict):
        return {k: unshared(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(unshared(v) for v in x)
    return x


class Sender:
    def __init__(self, case):
        self.c = unshared(case['c'])
        self.msg = M.build(self.c)

    def sub(self, o):
        """(model, object) of a signer or recipient."""
        ms = self.c['signers'] if self.c['k'] == 'sign' else self.c['rcpts']
        objs = self.msg.signers if self.c['k'] == 'sign' else self.msg.recipients
        i = o['i'] % len(ms)
        return ms[i], objs[i]

    def agreement(self, o):
        rs = [(m, x) for m, x in zip(self.c.get('rcpts', []), self.msg.recipients) if m['t'] in ('dka', 'kakw')]
        return rs[o['i'] % len(rs)] if rs else (None, None)

    def step(self, o):
        """Returns whether anything changed."""
        c, msg, k, n = self.c, self.msg, o['o'], o['n']
        if k == 'nothing':
            return False
        if k == 'payload':
            if c['k'] in ('sign1', 'sign') and c['det']:
                c['payload'] = o['v']
            else:
                c['payload'] = msg.payload = o['v']
        elif k == 'aad':
            if c['k'] == 'sign':
                m, obj = self.sub(o)
                m['aad'] = obj.external_aad = o['v']
            else:
                c['aad'] = msg.external_aad = o['v']
        elif k == 'kid':
            m, obj = (c, msg) if c['k'] not in ('sign', 'enc', 'mac') or o['i'] == 0 else self.sub(o)
            b = o['b']
            if 'rcpts' in c and m is not c and m['t'] not in ('dka', 'kakw'):
                b = 'u'
            put(obj, m['h'], 4, o['v'], b)
        elif k == 'key':
            return self.new_key(o)
        elif k == 'alg':
            return self.new_alg(o)
        elif k == 'info':
            m, obj = self.agreement(o)
            if m is None:
                return False
            put(obj, m['h'], o['l'], o['v'], 'pu'[n & 1])
        elif k == 'drop':
            m, obj = self.agreement(o)
            return m is not None and drop(obj, m['h'], o['l'])
        elif k == 'supp':
            m, obj = self.agreement(o)
            if m is None:
                return False
            if o['v'] is None:
                # assigning attributes leaves the other ones alone, so this is how one goes away
                obj.local_attrs.pop({'pub': H.SuppPubOther, 'priv': H.SuppPrivOther}[o['l']], None)
                return m.pop(o['l'], None) is not None
            m[o['l']] = o['v']
            obj.local_attrs = M.local_info(m)
        elif k == 'peer':
            m, obj = self.agreement(o)
            if m is None:
                return False
            m['rk'] = {**m['rk'], 'd': m['rk']['d'] - 1 if m['rk']['d'] > 3 else m['rk']['d'] + 1}
            attrs = {H.StaticKey: B.key(m['rk'], False, m['pp'], m['vf'])}
            attrs.update(M.local_info(m))
            obj.local_attrs = attrs
        elif k == 'sender':
            m, obj = self.agreement(o)
            if m is None or m['gen']:
                return False
            m['sk'] = {**m['sk'], 'd': m['sk']['d'] - 1 if m['sk']['d'] > 3 else m['sk']['d'] + 1}
            obj.key = B.key(m['sk'], True, m['sp'], m['kf'])
            put(obj, m['h'], -1 if algs.ECDH[m['alg']][1] else -2, {'key': m['sk']})
        elif k == 'ephemeral':
            # a new ephemeral key is to be made
            m, obj = self.agreement(o)
            if m is None or not m['gen']:
                return False
            obj.key = None
            for _ in range(n % 3):
                refused('encoding without the private key of the ephemeral key in the header', M.encode, c, msg)
            obj.uhdr = {l: v for l, v in obj.uhdr.items() if l is not H.EphemeralKey}
        elif k == 'cek':
            return self.new_cek(n)
        elif k == 'bodykey':
            # the recipients deliver the content key, whatever key the message had before
            if c['rcpts'][0]['t'] == 'direct':
                return False
            msg.key = B.key({'kt': 'sym', 'k': G.expand(n, M.content_keylen(c))})
        elif k == 'list':
            return self.new_list(o)
        return True

    def new_cek(self, n):
        c = self.c
        if c['rcpts'][0]['t'] in ('direct', 'dka'):
            return False
        c.pop('cek', None)
        cek = G.expand(n + 3, M.content_keylen(c)) if n % 3 else b''
        for j, obj in enumerate(self.msg.recipients):
            obj.payload = cek if n % 3 == 1 or j == n % len(c['rcpts']) else b''
        return True

    def new_key(self, o):
        c, msg, n = self.c, self.msg, o['n']
        m, obj = (c, msg) if c['k'] not in ('sign', 'enc', 'mac') else self.sub(o)
        if 'rcpts' in c:
            if m['t'] == 'kw':
                m['key'] = new_sym(m['key']['k'], n)
                obj.key = B.key(m['key'], True, m['kp'], m['kf'])
                return True
            if m['t'] != 'direct':
                return False
            m, obj = c, msg
        kt = m['key']['kt']
        if kt == 'sym':
            m['key'] = new_sym(m['key']['k'], n)
        elif kt == 'okp':
            m['key'] = {'kt': 'okp', 'crv': 'ED25519', 'd': G.expand(n + 17, 32)}
        elif kt == 'ec':
            m['key'] = {**m['key'], 'd': 1000 + n}
        else:
            return False
        obj.key = B.key(m['key'], True, m['kp'], m['kf'])
        return True

    def new_alg(self, o):
        """Another algorithm; with a key for it."""
        c, msg, n = self.c, self.msg, o['n']
        if c['k'] in ('sign1', 'sign'):
            m, obj = (c, msg) if c['k'] == 'sign1' else self.sub(o)
            a = [-7, -8, -35, -36][n % 4]
            m['alg'], m['kp'], m['vp'] = a, {}, {}
            m['key'] = ({'kt': 'okp', 'crv': 'ED448', 'd': G.expand(n, 57)} if a == -8 else
                        {'kt': 'ec', 'crv': algs.ECDSA[a][1], 'd': 5000 + n})
            put(obj, m['h'], 1, a)
            obj.key = B.key(m['key'], True, {}, m['kf'])
            return True
        if c['k'] in ('mac0', 'mac'):
            a = algs.MAC_DELIVERABLE[n % len(algs.MAC_DELIVERABLE)]
        else:
            # the nonce stays: only algorithms which can have it
            same = [x for x in algs.ENC if algs.ENC[x][1] == algs.ENC[c['alg']][1] and algs.ENC[x][4] == algs.ENC[c['alg']][4]]
            a = same[n % len(same)]
        c['alg'] = a
        put(msg, c['h'], 1, a)
        if 'key' in c:
            c['key'] = {'kt': 'sym', 'k': G.expand(n * 3 + 1, M.content_keylen(c))}
            c['kp'] = {l: v for l, v in c['kp'].items() if l == 5}
            c['vp'] = {l: v for l, v in c['vp'].items() if l == 5}
            msg.key = B.key(c['key'], True, c['kp'], c['kf'])
        elif c['rcpts'][0]['t'] != 'dka':
            self.new_cek(n)
        return True

    def new_list(self, o):
        """Add, remove or reorder recipients or signers."""
        c, msg, n = self.c, self.msg, o['n']
        name = 'signers' if c['k'] == 'sign' else 'recipients'
        ms = c['signers' if c['k'] == 'sign' else 'rcpts']
        objs = list(getattr(msg, name))
        if n % 3 == 0 and len(ms) > 1:
            del ms[o['i'] % len(ms)], objs[o['i'] % len(objs)]
        elif n % 3 == 1:
            ms.reverse()
            objs.reverse()
        else:
            # another one like one there, with an object of its own
            m = unshared(ms[o['i'] % len(ms)])
            if m.get('t') == 'dka':
                return False
            if m.get('t') == 'kw':
                m['key'] = new_sym(m['key']['k'], n)
            ms.append(m)
            objs.append(M.build_signer(m) if c['k'] == 'sign' else M.build_recipient(m))
        c['who'] = 0
        setattr(msg, name, objs)
        return True

    def misfit(self, o):
        """An encoding which is refused, since a key does not permit the operation; then the key is put back."""
        c, msg = self.c, self.msg
        m, obj = (c, msg) if c['k'] not in ('sign', 'enc', 'mac') else self.sub(o)
        if 'rcpts' in c and m['t'] == 'direct':
            m, obj = c, msg
        t = m.get('t')
        if t == 'oaep':
            spec, wrong = m['key'], {3: -37}
        elif t in ('dka', 'kakw'):
            spec, wrong = m['rk'], {3: -7}
        else:
            spec, wrong = m['key'], {3: 1 if c['k'] in ('mac0', 'mac') or t else -44 if m['key']['kt'] == 'sym' else -257}
            if wrong == {3: -257} and m['alg'] == -257:
                wrong = {3: -37}
        if o['n'] & 1:
            wrong = {4: [10 if spec['kt'] == 'sym' else 7 if spec['kt'] != 'ec' or t is None else 2]}
        if t in ('dka', 'kakw'):
            old = dict(obj.local_attrs)
            obj.local_attrs = {H.StaticKey: B.key(spec, False, wrong)}
        else:
            old = obj.key
            obj.key = B.key(spec, True, wrong)
        refused('encoding with a key restricted to something else', M.encode, c, msg)
        if t in ('dka', 'kakw'):
            obj.local_attrs = old
        else:
            obj.key = old
        return True


def deliver(c, data, how):
    """Every receiver gets the contents."""
    k = c['k']
    for who in range(len(c.get('rcpts', [0]))):
        got = M.receive(c, data, how + who)
        M.check_received(c, got)
        obj = M.arm(c, got, who)
        if k == 'enc':
            eq(got.decrypt(obj), c['payload'], 'plaintext')
        else:
            M.verify_all(c, got)


def check(case, rec):
    s = Sender(case)
    deliver(s.c, M.encode(s.c, s.msg), case['how'])
    for o in case['ops']:
        did = s.misfit(o) if o['o'] == 'misfit' else s.step(o)
        deliver(s.c, M.encode(s.c, s.msg), case['how'])
        if did:
            t = s.c['rcpts'][0]['t'] if s.c.get('rcpts') else ''
            rec.label('encoded again after: %s %s' % (o['o'], t))
            rec.nt()
