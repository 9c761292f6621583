"""Content keys which the sender presets in recipients, also ones that contradict each other or do not fit."""
import hypothesis.strategies as st

import gen as G
import msgs as M
from core import attempt, eq, is_true, Raised


def presets(kind):
    @st.composite
    def case(draw):
        c = draw({'enc': M.encm, 'mac': M.macm}[kind](modes=('wrap',)))
        keylen = M.content_keylen(c)
        n = len(c['rcpts'])
        if n == 1 and draw(st.integers(0, 3)):
            c['rcpts'] = c['rcpts'] + [{**c['rcpts'][0]}]
            n = 2
        c.pop('cek', None), c.pop('cekat', None)
        pool = draw(st.lists(st.one_of(G.exact(keylen), st.sampled_from([16, 24, 32]).flatmap(G.exact)), min_size=1, max_size=3))
        return {'c': c, 'keys': [draw(st.sampled_from([b''] + pool + pool)) for _ in range(n)]}
    return case


def check(case, rec):
    c, keys = case['c'], case['keys']
    msg = M.build(c)
    for r, k in zip(msg.recipients, keys):
        r.payload = k
    data = attempt(msg.encode)
    given = {k for k in keys if k}
    one = len(given) < 2 and all(len(k) == M.content_keylen(c) for k in given)
    if isinstance(data, Raised):
        if one:
            raise AssertionError('refused with preset keys %r: %s' % (keys, data))
        rec.nt()
        rec.label('refused')
        return
    # whatever is sent can be opened by every recipient
    for who in range(len(keys)):
        got = M.receive(c, data, who)
        obj = M.arm(c, got, who)
        if c['k'] == 'enc':
            eq(got.decrypt(obj), c['payload'], 'plaintext through recipient %d (keys %r)' % (who, keys))
        else:
            is_true('verify_tag through recipient %d (keys %r)' % (who, keys), got.verify_tag())
    if len(keys) > 1:
        rec.nt()
    rec.label('sent with %d different preset keys' % len(given))
