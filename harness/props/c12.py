"""C12 Header changes always take effect."""
import copy

import cbor2
import hypothesis.strategies as st

import algs
import build as B
import gen as G
import msgs as M
import refcbor
import refcose as R
from core import Facet, eq, expect, is_true, refused
from props.c11 import check_exotic, exotic
from refcbor import Tag, enc, wild_from

H = B.pycose.headers
RULE = ('Sequences of replacing and updating headers (body, signers, recipients), payload, external data and key, '
        'interleaved with protecting, encoding, verifying and transport in preferred and other encodings, on every message '
        'kind, with assignments that are refused in between, against a model holding the current contents; after every step the bytes and the authentication are compared '
        'with the reference implementation. Headers of every Python type that CBOR can express, replaced and updated. Non-trivial: at least one header change after an encoding or decoding.')
ASSUMPTIONS = ['headers are changed through the setters and update methods, with attribute classes as labels (also in place '
               'for messages that were not decoded)']

KINDS = ['sign1', 'sign', 'mac0', 'enc0', 'enc', 'mac']
SIGN_KEY = [{'kt': 'okp', 'crv': 'ED25519', 'd': G.expand(i, 32)} for i in range(3)]
ALGS = {'sign1': [-8], 'sign': [None], 'mac0': [4, 5, 14, 25], 'enc0': [1, 10, 30, 32], 'enc': [1, 10, 12], 'mac': [14, 25, 4]}

some_label = st.one_of(st.sampled_from([4, 3, 10, -3, 2, 35, 99, -70001, 'x', 'zz']), G.unknown_label)
ent = some_label.flatmap(lambda l: st.tuples(st.just(l), G.value_for(l) if l in (2, 3, 4, 10, -3, 35) else G.any_value)).map(list)
ents = st.lists(ent, max_size=4, unique_by=lambda e: (isinstance(e[0], str), e[0]))


@st.composite
def op(draw):
    k = draw(st.sampled_from(['setp', 'setp', 'updp', 'updp', 'setu', 'updu', 'emptyp', 'move', 'item', 'payload', 'aad', 'key',
                              'twinp', 'twinu', 'nokey', 'bad',
                              'proto', 'proto', 'plain', 'relay', 'relay', 'verify', 'again']))
    where = draw(st.integers(0, 3))
    if k in ('setp', 'setu'):
        return [k, where, draw(ents), draw(st.integers(0, 3))]
    if k in ('updp', 'updu', 'item'):
        return [k, where, draw(ents.filter(len)), draw(st.integers(0, 3))]
    if k in ('twinp', 'twinu', 'bad'):
        return [k, where, draw(st.integers(0, 3)), draw(st.integers(0, 1))] if k != 'bad' else \
            [k, where, draw(st.integers(0, 11)), draw(st.integers(0, 3))]
    if k == 'payload':
        return [k, draw(G.blob(0, 300))]
    if k == 'aad':
        return [k, where, draw(G.blob(0, 100))]
    if k == 'relay':
        return [k, draw(st.lists(st.sampled_from([0, 0, 1, 2, 12, 13]), max_size=8)), draw(st.booleans())]
    return [k, where]


@st.composite
def history(draw):
    k = draw(st.sampled_from(KINDS))
    return {'k': k, 'alg': draw(st.sampled_from(ALGS[k])), 'p': draw(ents), 'u': draw(ents), 'algp': draw(st.booleans()),
            'lp': draw(ents), 'lu': draw(ents), 'payload': draw(G.blob(0, 100)), 'det': draw(st.integers(0, 3)) == 0,
            'seed': draw(st.integers(0, 10**6)), 'wrap': draw(st.booleans()),
            'ops': draw(st.lists(op(), min_size=1, max_size=12))}


def twin(v, n=0):
    """A different value which compares equal in Python, or v."""
    if isinstance(v, bool):
        return int(v) if n & 1 else float(v)
    if isinstance(v, int) and -2**53 <= v <= 2**53:
        return bool(v) if v in (0, 1) and n & 1 else float(v)
    if isinstance(v, float) and v in (-1.0, 0.0, 1.0, 1.5, 2.0) and v == int(v):
        return -v if v == 0 and n & 1 else int(v)
    if isinstance(v, list):
        return [twin(x, n) for x in v]
    if isinstance(v, dict):
        return {x: twin(y, n) for x, y in v.items()}
    return v


class Layer:
    """Model of one layer: the current entries, and the bytes of a protected header which is as received."""

    def __init__(self, p, u, obj):
        self.p, self.u, self.obj, self.raw, self.fresh = dict_of(p), dict_of(u), obj, None, True
        self.either = self.seen = None

    def prot(self):
        if self.raw is not None:
            return self.raw
        if self.seen is not None:
            return self.seen
        return enc(self.p) if self.p else b''

    def auth(self):
        return self.prot() if self.p else b''

    def is_prot(self, got, what):
        if self.either is not None and got == self.either:
            self.seen = got
            return
        if self.raw is not None or not self.p:
            eq(got, self.prot(), what)
            return
        # an own encoding of the current contents
        m = cbor2.loads(got)
        eq(m, self.p, what)
        eq(list(m), list(self.p), what + ' (order)')
        eq(refcbor.item_end(got), len(got), what + ' (length)')
        self.seen = got


def dict_of(entries):
    return {l: v for l, v in entries}


def objs(m):
    """Entries as header objects."""
    return B.hdr([[l, v] for l, v in m.items()])


class Machine:
    def __init__(self, case, rec):
        self.c, self.rec, self.changed = case, rec, False
        k = self.k = case['k']
        self.payload, self.aad, self.det = case['payload'], [b'', b'', b''], case['det'] and k in ('sign1', 'sign')
        self.keyno = 0
        a = case['alg']
        need = [] if a is None else [[1, a]]
        self.iv = G.expand(case['seed'], algs.ENC[a][4]) if k in ('enc0', 'enc') else None
        ivs = [[5, self.iv]] if self.iv else []
        p = (need if case['algp'] else []) + case['p']
        taken = {(isinstance(l, str), l) for l, _ in p}
        u = (need if not case['algp'] else []) + ivs + [e for e in case['u'] if (isinstance(e[0], str), e[0]) not in taken]
        kw = {'phdr': objs(dict_of(p)), 'uhdr': objs(dict_of(u))}
        if not self.det:
            kw['payload'] = self.payload
        subs = []
        if k == 'sign':
            for i in range(2):
                sp, su = [[1, -8]] + case['lp'], [e for e in case['lu'] if e[0] not in [x[0] for x in case['lp']]]
                o = B.CoseSignature(phdr=objs(dict_of(sp)), uhdr=objs(dict_of(su)), key=B.key(SIGN_KEY[i]))
                subs.append(Layer(sp, su, o))
            kw['signers'] = [s.obj for s in subs]
        if k in ('enc', 'mac'):
            su = [[1, -3 if case['wrap'] else -6]] + case['lu']
            if case['wrap']:
                o = M.build_recipient({'t': 'kw', 'key': self.kek(), 'kf': 0, 'kp': {}, 'h': {'p': [], 'u': su, 'sp': [0]}})
                o.payload = self.key()['k']
            else:
                o = M.build_recipient({'t': 'direct', 'h': {'p': [], 'u': su, 'sp': [0]}})
            subs.append(Layer([], su, o))
            kw['recipients'] = [o]
        if k not in ('sign', 'enc', 'mac') or (k != 'sign' and not case['wrap']):
            kw['key'] = B.key(self.key())
        self.msg = M.CLASS[k](**kw)
        self.layers = [Layer(p, u, self.msg)] + subs
        self.last = None

    def kek(self):
        return {'kt': 'sym', 'k': G.expand(self.c['seed'] + 5, 16)}

    def key(self):
        if self.k == 'sign1':
            return SIGN_KEY[self.keyno]
        a = self.c['alg']
        n = algs.ENC[a][2] if a in algs.ENC else algs.MAC[a][3]
        return {'kt': 'sym', 'k': G.expand(self.c['seed'] * 7 + self.keyno, n)}

    def det_kw(self):
        return {'detached_payload': self.payload} if self.det else {}

    # ---- the reference for the current contents
    def sig_data(self, i=None):
        b = self.layers[0]
        if i is None:
            return R.sig_structure1(b.auth(), self.aad[0], self.payload)
        return R.sig_structure(b.auth(), self.layers[i].auth(), self.aad[i], self.payload)

    def protect(self, **kw):
        """Encode with protection and compare everything with the model."""
        kw.update(self.det_kw())
        data = self.msg.encode(**kw)
        w = B.parse(data, M.TAG[self.k])
        b, k, a = self.layers[0], self.k, self.c['alg']
        b.is_prot(w[0], 'protected header on the wire')
        eq(w[1], b.u, 'unprotected header on the wire')
        if k in ('sign1', 'sign', 'mac0', 'mac'):
            eq(w[2], None if self.det else self.payload, 'payload on the wire')
        if b.either is not None:
            b.raw, b.either = w[0], None
        for i, n in enumerate(w[-1] if k in ('sign', 'enc', 'mac') else []):
            l = self.layers[i + 1]
            l.is_prot(n[0], 'protected header of layer %d on the wire' % (i + 1))
            if l.either is not None:
                l.raw, l.either = n[0], None
            eq(n[1], l.u, 'unprotected header of layer %d on the wire' % (i + 1))
            if k == 'sign':
                eq(n[2], R.sign(-8, SIGN_KEY[i], self.sig_data(i + 1)), 'signature of signer %d' % i)
            elif self.c['wrap']:
                eq(n[2], R.kw_wrap(self.kek()['k'], self.key()['k']), 'wrapped key')
        if k == 'sign1':
            eq(w[3], R.sign(-8, self.key(), self.sig_data()), 'signature')
        elif k in ('mac0', 'mac'):
            eq(w[3], R.mac_tag(a, self.key()['k'], R.mac_structure(M.CTX[k], b.auth(), self.aad[0], self.payload)), 'tag')
        elif k in ('enc0', 'enc'):
            eq(w[2], R.aead_encrypt(a, self.key()['k'], self.iv, self.payload, R.enc_structure(M.CTX[k], b.auth(), self.aad[0])),
               'ciphertext')
        self.last = data
        return data

    def plain(self):
        """Encode without protecting anew."""
        k = self.k
        if k in ('sign', 'mac0', 'mac', 'enc'):
            return
        data = self.msg.encode(**{'sign1': {'sign': False}, 'enc0': {'encrypt': False}}[k])
        w = B.parse(data, M.TAG[k])
        self.layers[0].is_prot(w[0], 'protected header on the wire (unprotected encoding)')
        eq(w[1], self.layers[0].u, 'unprotected header on the wire (unprotected encoding)')
        if k == 'sign1':
            eq(w[2], None if self.det else self.payload, 'payload (unprotected encoding)')

    def relay(self, wild, specific):
        """Send, and continue with what was received (in a possibly different encoding)."""
        data = self.protect()
        if wild:
            b = self.layers[0]
            prot = enc(b.p, wild_from(wild)) if b.p else [b'', b'\xa0'][wild[0] & 1]
            ob = cbor2.loads(data).value
            ob[0] = prot
            saved, b.raw = b.raw, prot
            k, a = self.k, self.c['alg']
            if k == 'sign1':
                ob[3] = R.sign(-8, self.key(), self.sig_data())
            elif k == 'sign':
                for i, n in enumerate(ob[3]):
                    l = self.layers[i + 1]
                    n[0] = l.raw = enc(l.p, wild_from(wild[1:]))
                    n[2] = R.sign(-8, SIGN_KEY[i], self.sig_data(i + 1))
            elif k in ('mac0', 'mac'):
                ob[3] = R.mac_tag(a, self.key()['k'], R.mac_structure(M.CTX[k], b.auth(), self.aad[0], self.payload))
            else:
                ob[2] = R.aead_encrypt(a, self.key()['k'], self.iv, self.payload,
                                       R.enc_structure(M.CTX[k], b.auth(), self.aad[0]))
            data = enc(Tag(M.TAG[k], ob), wild_from(wild))
        else:
            for l in self.layers:
                l.raw = l.prot()
        cls = M.CLASS[self.k] if specific else B.CoseMessage
        self.msg = cls.decode(data)
        self.forward(data)
        self.layers[0].obj = self.msg
        for l, o in zip(self.layers[1:], getattr(self.msg, 'signers', None) or getattr(self.msg, 'recipients', [])):
            l.obj = o
        for l in self.layers:
            l.fresh = False
            l.p, l.u = copy.deepcopy(l.p), copy.deepcopy(l.u)
        self.arm()
        self.verify(self.msg)
        if self.k in ('enc0', 'enc'):
            # the plaintext is put back for the next protection
            self.msg.payload = self.payload

    def forward(self, data):
        """A received message which is sent on unprotected by us keeps the protection it came with."""
        k = self.k
        if k in ('mac0', 'mac') and not (k == 'mac' and self.c['wrap']):
            # headers and payload, whatever is done about the tag
            want, got = B.parse(data, M.TAG[k]), cbor2.loads(self.msg.encode(mac=False)).value[:3]
            if not self.layers[0].p:
                got[0] = want[0]
            eq(got, want[:3], 'message sent on without a new tag')
            return
        if k not in ('sign1', 'enc0', 'enc') or k == 'enc' and self.c['wrap']:
            return
        how = {'sign': False} if k == 'sign1' else {'encrypt': False}
        want = B.parse(data, M.TAG[k])
        for i in range(2):
            got = B.parse(self.msg.encode(**how), M.TAG[k])
            if not self.layers[0].p:
                got[0] = want[0]
            eq(got, want, 'message sent on %s' % ('with a key' if i else 'as it came'))
            if k == 'sign1':
                # somebody else's key
                self.msg.key = B.key(SIGN_KEY[(self.keyno + 1) % 3])
            else:
                self.msg.key = B.SymmetricKey(k=self.key()['k'][::-1])
        self.msg.key = None
        self.rec.label('sent on')

    def arm(self, msg=None):
        msg = msg or self.msg
        if self.k == 'sign':
            for i, s in enumerate(msg.signers):
                s.key, s.external_aad = B.key(SIGN_KEY[i]), self.aad[i + 1]
        else:
            msg.external_aad = self.aad[0]
            msg.key = B.key(self.key())
            if self.k in ('enc', 'mac') and self.c['wrap']:
                msg.recipients[0].key = B.key(self.kek())
                if msg is self.msg:
                    msg.key = None

    def verify(self, msg):
        """The receiver accepts what was sent last."""
        if self.k == 'sign1':
            is_true('verify_signature', msg.verify_signature(**self.det_kw()))
        elif self.k == 'sign':
            for i, s in enumerate(msg.signers):
                is_true('verify_signature of signer %d' % i, s.verify_signature(**self.det_kw()))
        elif self.k in ('mac0', 'mac'):
            if self.k == 'mac' and self.c['wrap']:
                msg.key = msg.recipients[0].compute_cek(msg.get_attr(H.Algorithm), 'decrypt')
                if msg is self.msg:
                    msg.recipients[0].payload = self.key()['k']
            is_true('verify_tag', msg.verify_tag())
        elif self.k == 'enc0':
            eq(msg.decrypt(), self.payload, 'plaintext')
        else:
            eq(msg.decrypt(msg.recipients[0]), self.payload, 'plaintext')
            if self.c['wrap'] and msg is self.msg:
                msg.recipients[0].payload = self.key()['k']

    def roundtrip(self):
        data = self.protect()
        msg = B.CoseMessage.decode(data)
        self.arm(msg)
        self.verify(msg)

    def pick(self, where, prot=False):
        ls = self.layers
        if prot and self.k in ('enc', 'mac'):
            ls = ls[:1]     # these recipients have no protected header
        return ls[where % len(ls)]

    def need(self, l, bucket):
        """Entries that have to stay in a bucket."""
        return {x: v for x, v in bucket.items() if not isinstance(x, str) and x in (1, 5)}

    def free(self, l, entries, bucket):
        """Entries whose labels are not in the other bucket of the layer."""
        other = l.u if bucket == 'p' else l.p
        return [e for e in entries if not any(type(x) is type(e[0]) and x == e[0] for x in other) and
                not (not isinstance(e[0], str) and e[0] in (1, 5))]

    def bad(self, l, n, v):
        """An assignment which is refused changes nothing."""
        o = l.obj
        many = {'sign': 'signers', 'enc': 'recipients'}.get(self.k)

        def state():
            m = self.msg
            return ([(dict(x.phdr), dict(x.uhdr), x.payload, x.external_aad, x.key) for x in [m] + [y.obj for y in self.layers[1:]]],
                    list(getattr(m, many)) if many else None)
        was = state()
        what, vals = [('phdr', (None, 'text', 5, [1])), ('uhdr', (None, 'text', 5, [1])), ('phdr_update', (None, 'text', 5, [1])),
                      ('uhdr_update', (None, 'text', 5, [1])), ('payload', ('text', 5, bytearray(b'x'), [b'x'])),
                      ('external_aad', ('text', 5, None, [b'x'])), ('key', (5, 'x', b'key', {'K': b'k'})),
                      ('signature', ('text', 5, None, [b'x'])), (many, (5, 'list', 'more', 'first'))][n % 9]
        val = vals[v]
        if what is None or what == 'signature' and (self.k != 'sign' or l is self.layers[0]):
            return
        if what == many:
            o = self.msg
            if val == 'list':
                val = [5]
            elif val == 'more':
                val = list(getattr(o, many)) + [5]
            elif val == 'first':
                val = list(getattr(o, many))[:1] + ['x']
        if what.endswith('update'):
            refused('%s(%r)' % (what, val), getattr(o, what), val)
        else:
            refused('%s = %r' % (what, val), setattr, o, what, val)
        is_true('a refused %s = %r changes nothing' % (what, val), state() == was)
        self.rec.label('refused assignment')

    def step(self, o):
        k = o[0]
        if k in ('twinp', 'twinu'):
            # values are replaced by others which compare equal
            b = k[-1]
            l = self.pick(o[1], b == 'p')
            if not any(x not in algs.HEADERS for x in (l.p if b == 'p' else l.u)):
                self.step(['upd' + b, o[1], [['twin', o[2] % 2]], 0])
            more = [[x, twin(v, o[2])] for x, v in (l.p if b == 'p' else l.u).items() if x not in algs.HEADERS]
            self.step([('upd', 'set')[o[3]] + b, o[1], more, 0])
            self.rec.label(k)
            return
        if k in ('setp', 'updp', 'emptyp', 'move', 'item'):
            l = self.pick(o[1], True)
            old = l.prot()
            if k == 'setp':
                new = {**self.need(l, l.p), **dict_of(self.free(l, o[2], 'p'))}
                if o[3] == 1:
                    new = dict(reversed(new.items()))
                arg = objs(new)
                l.obj.phdr = arg
                arg[H.KID] = b'not this'        # the caller's dictionary is the caller's
            elif k == 'updp':
                more = dict_of(self.free(l, o[2], 'p'))
                new = {**l.p, **more}
                arg = objs(more)
                l.obj.phdr_update(arg)
                arg[H.KID] = b'not this'
            elif k == 'emptyp':
                new = self.need(l, l.p)
                l.obj.phdr = objs(new)
            elif k == 'move':
                # the algorithm moves into the other bucket
                if 1 in l.p and l.p[1] is not None:
                    new = {x: v for x, v in l.p.items() if isinstance(x, str) or x != 1}
                    l.u = {**l.u, 1: l.p[1]}
                    l.obj.phdr = objs(new)
                    l.obj.uhdr_update({H.Algorithm: B.alg_class(l.p[1])})
                else:
                    return
            else:
                if not l.fresh:
                    return      # changing a received protected header in place is not supported
                new = dict(l.p)
                for e in self.free(l, o[2], 'p'):
                    new[e[0]] = e[1]
                    l.obj.phdr[B.hdr_class(e[0]) if e[0] in algs.HEADERS else e[0]] = e[1]
            unchanged = enc(new) == enc(l.p)
            l.p, l.raw, l.seen = new, None, None
            if k != 'item':
                l.either = old if unchanged else None
            if not unchanged:
                self.changed = True
                self.rec.label('%s on a %s layer' % (k, 'fresh' if l.fresh else 'received'))
            l.fresh = True
        elif k in ('setu', 'updu'):
            l = self.pick(o[1])
            more = dict_of(self.free(l, o[2], 'u'))
            if k == 'setu':
                l.u = {**self.need(l, l.u), **more}
                arg = objs(l.u)
                l.obj.uhdr = arg
            else:
                l.u = {**l.u, **more}
                arg = objs(more)
                l.obj.uhdr_update(arg)
            arg[H.KID] = b'not this'
            self.changed = True
            self.rec.label(k)
        elif k == 'payload':
            self.payload = o[1]
            if not self.det:
                self.msg.payload = o[1]
            self.rec.label('payload')
        elif k == 'aad':
            i = o[1] % len(self.layers) if self.k == 'sign' else 0
            if self.k == 'sign' and i == 0:
                return
            self.aad[i] = o[2]
            self.layers[i].obj.external_aad = o[2]
            self.rec.label('external data')
        elif k == 'key':
            if self.k in ('enc', 'mac') and self.c['wrap']:
                self.keyno = (self.keyno + 1) % 3
                self.layers[1].obj.payload = self.key()['k']
            elif self.k != 'sign':
                self.keyno = (self.keyno + 1) % 3
                self.msg.key = B.key(self.key())
            self.rec.label('key')
        elif k == 'nokey':
            # what cannot be protected anew is not sent with an older protection
            o = self.layers[0 if self.k != 'sign' and not (self.k in ('enc', 'mac') and self.c['wrap']) else
                            1 + o[1] % 2 if self.k == 'sign' else 1].obj
            held, mine = o.key, self.msg.key if o is not self.msg and self.k in ('enc', 'mac') else None
            o.key = None
            if mine is not None:
                self.msg.key = None
            refused('encoding without a key', self.msg.encode, **self.det_kw())
            o.key = held
            if mine is not None:
                self.msg.key = mine
            self.rec.label('without a key')
        elif k == 'bad':
            self.bad(self.pick(o[1]), o[2], o[3])
        elif k == 'proto':
            self.protect()
        elif k == 'again':
            a = self.protect()
            eq(self.protect(), a, 'second encoding')
        elif k == 'plain':
            self.plain()
        elif k == 'relay':
            self.relay(o[1], o[2])
            self.rec.label('relay')
        elif k == 'verify':
            self.roundtrip()


def check(case, rec):
    m = Machine(case, rec)
    for o in case['ops']:
        m.step(o)
    m.roundtrip()
    rec.label(case['k'])
    if m.changed:
        rec.nt()


FACETS = [
    Facet('history', history, check, 4000, shards=8),
    Facet('values', lambda: exotic((1, 2)), check_exotic, 1200, shards=2),
]
