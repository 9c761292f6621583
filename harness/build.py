"""Case data -> objects of the code under test, through its public interface only; and the expected wire form."""
import contextlib

import cbor2
import pycose.algorithms
import pycose.headers
import pycose.keys
import pycose.keys.curves
import pycose.keys.keyops
import pycose.keys.keyparam
import pycose.keys.keytype
from pycose.keys import CoseKey, EC2Key, OKPKey, RSAKey, SymmetricKey
from pycose.messages import (CoseMessage, Enc0Message, EncMessage, Mac0Message, MacMessage, Sign1Message,
                             SignMessage)
from pycose.messages.signer import CoseSignature

import algs
import fix
import refcbor
import refcose
from core import eq, expect, fail, same, short

# ------------------------------------------------------------------------------------------- spelling


def respell(name, ident, cls, s):
    """0 class, 1 integer, 2 name, 3 lower case, 4 alternating case"""
    if s == 0:
        return cls
    if s == 1:
        return ident
    if s == 2:
        return name
    if s == 3:
        return name.lower()
    return ''.join(c.upper() if i % 2 else c.lower() for i, c in enumerate(name))


def alg_class(i):
    return getattr(pycose.algorithms, algs.ALG_CLASSES[i])


def spell_alg(i, s):
    if i not in algs.ALG_CLASSES:
        return i
    return respell(algs.ALG_NAMES[i], i, alg_class(i), s)


def hdr_class(label):
    return getattr(pycose.headers, algs.HEADERS[label][0])


def spell_label(label, s):
    if label not in algs.HEADERS or isinstance(label, str):
        return label
    return respell(algs.HEADERS[label][1], label, hdr_class(label), s)


def op_class(i):
    return getattr(pycose.keys.keyops, algs.KEYOPS[i][0])


def curve_class(i):
    return getattr(pycose.keys.curves, algs.CURVES[i][0])


def kty_class(i):
    return getattr(pycose.keys.keytype, algs.KTYS[i][0])


def kp_class(kty, label):
    return getattr(pycose.keys.keyparam, (algs.KP_COMMON.get(label) or algs.KP_BY_KTY[kty][label])[0])

# ------------------------------------------------------------------------------------------- keys


def i2b(n, size=None):
    return n.to_bytes(size or (n.bit_length() + 7) // 8, 'big')


KTY = {'ec': 2, 'okp': 1, 'rsa': 3, 'sym': 4}
RSA_FIELDS = [(-1, 'n'), (-2, 'e'), (-3, 'd'), (-4, 'p'), (-5, 'q'), (-6, 'dp'), (-7, 'dq'), (-8, 'qinv')]


def wire_key(spec, private=True, params=None):
    """The key as the CBOR map the standard prescribes (integer labels and identifiers)."""
    kt = spec['kt']
    m = {1: KTY[kt]}
    m.update(params or {})
    if kt == 'sym':
        m[-1] = spec['k']
    elif kt == 'ec':
        x, y = refcose.ec_pub(spec['crv'], spec['d'])
        m.update({-1: algs.CURVE_ID[spec['crv']], -2: x, -3: y})
        if private:
            m[-4] = i2b(spec['d'], None if spec.get('short') else refcose.EC[spec['crv']][1])
    elif kt == 'okp':
        m.update({-1: algs.CURVE_ID[spec['crv']], -2: refcose.okp_pub(spec['crv'], spec['d'])})
        if private:
            m[-4] = spec['d']
    else:
        k = fix.RSA[spec['i']]
        for lab, f in RSA_FIELDS[:None if private else 2]:
            m[lab] = i2b(k[f])
    return m


def spell_key_map(m, s, s2=0):
    """The wire map with labels, curve, type, algorithm and operations spelled as classes (0), integers (1), names (2)."""
    kty = m[1]
    out = {}
    for lab, v in m.items():
        if lab == 1:
            v = (kty_class(v), v, algs.KTYS[v][1])[s2]
        elif lab == 3 and v in algs.ALG_CLASSES:
            v = (alg_class(v), v, algs.ALG_NAMES[v])[s2]
        elif lab == 4:
            v = [(op_class(o), o, algs.KEYOPS[o][1])[s2] for o in v]
        elif lab == -1 and kty in (1, 2):
            v = (curve_class(v), v, algs.CURVES[v][1])[s2]
        if isinstance(lab, int) and (lab in algs.KP_COMMON or lab in algs.KP_BY_KTY[kty]):
            name = (algs.KP_COMMON.get(lab) or algs.KP_BY_KTY[kty][lab])[1]
            lab = (kp_class(kty, lab), lab, name)[s]
        out[lab] = v
    return out


SHARED = None       # key objects by what they are built from, while parts of one message share them


def key(spec, private=True, params=None, form=0):
    """A key object, built in one of several equivalent ways."""
    if SHARED is None:
        return _key(spec, private, params, form)
    k = repr((spec, private, params, form % 24))
    if k not in SHARED:
        SHARED[k] = _key(spec, private, params, form)
    return SHARED[k]


@contextlib.contextmanager
def sharing(on):
    """Within, equal keys are one object."""
    global SHARED
    old, SHARED = SHARED, {} if on else SHARED
    try:
        yield
    finally:
        SHARED = old


def _key(spec, private=True, params=None, form=0):
    m = wire_key(spec, private, params)
    kt = spec['kt']
    f = form % 8
    s2 = form % 3
    if f in (2, 3, 4):
        return CoseKey.from_dict(spell_key_map(m, f - 2, s2))
    if f == 5:
        return CoseKey.decode(refcbor.enc(m))
    opt = {k: v for k, v in spell_key_map({1: m[1], **(params or {})}, s2, s2).items()}
    if form % 2:
        opt = {k: v for k, v in opt.items() if k not in (1, 'KTY', pycose.keys.keyparam.KpKty)}
    opt = opt or None
    if kt == 'sym':
        obj = SymmetricKey(k=m[-1], optional_params=opt)
    elif kt == 'ec':
        crv = (curve_class(m[-1]), m[-1], algs.CURVES[m[-1]][1])[s2]
        if private and f == 1:
            obj = EC2Key(crv=crv, d=m[-4], optional_params=opt)
        elif f == 7:
            obj = EC2Key(crv=crv, x=m[-2], y=bool(m[-3][-1] & 1), d=m.get(-4, b''), optional_params=opt)
        else:
            obj = EC2Key(crv=crv, x=m[-2], y=m[-3], d=m.get(-4, b''), optional_params=opt)
    elif kt == 'okp':
        crv = (curve_class(m[-1]), m[-1], algs.CURVES[m[-1]][1].lower())[s2]
        obj = OKPKey(crv=crv, x=m[-2], d=m.get(-4, b''), optional_params=opt)
    else:
        obj = RSAKey(**{n: m[lab] for lab, n in RSA_FIELDS if lab in m}, optional_params=opt)
    if f == 6:
        obj = CoseKey.decode(obj.encode())
    return obj


def key_map(obj):
    """The wire map of a key object, by way of its encoding."""
    return cbor2.loads(obj.encode())


def is_key(got, m, what):
    """got is a key object holding exactly the wire map m."""
    expect(isinstance(got, CoseKey), '%s: %s is not a key object', what, short(got))
    expect(type(got).__name__ == algs.KEYCLS_BY_KTY[m[1]], '%s: a %s', what, type(got).__name__)
    eq(key_map(got), m, what)

# ------------------------------------------------------------------------------------------- headers


def is_spec(v):
    return isinstance(v, dict) and set(v) == {'key'}


def _value(label, v, s):
    if label == 1:
        return spell_alg(v, s)
    if label in (-1, -2) and is_spec(v):
        m = wire_key(v['key'], False)
        return key(v['key'], False, form=s) if s in (0, 3) else spell_key_map(m, 1, 1)
    return v


def hdr(entries, sp=(0,), tstr=False):
    return {spell_label(lab, sp[i % len(sp)]): _value(lab, v, sp[(i + 1) % len(sp)])
            for i, (lab, v) in enumerate(entries)}


def wire_hdr(entries, tstr=False):
    """The header map on the wire."""
    out = {}
    for lab, v in entries:
        if lab == 1 and tstr:
            v = algs.ALG_NAMES[v]
        elif is_spec(v) and lab in (-1, -2):
            v = wire_key(v['key'], False)
        out[lab] = v
    return out


def wire_prot(entries, tstr=False):
    m = wire_hdr(entries, tstr)
    return refcbor.enc(m) if m else b''


def hdrs(layer):
    """Keyword arguments for the constructors."""
    kw = {'phdr': hdr(layer['p'], layer['sp']), 'uhdr': hdr(layer['u'], layer['sp'][::-1])}
    if not layer['p'] and layer['sp'][0] % 2:
        del kw['phdr']
    if not layer['u'] and layer['sp'][-1] % 2:
        del kw['uhdr']
    if layer.get('tstr'):
        kw['alg_tstr_encoding'] = True
    return kw


def check_bucket(got, entries, what):
    """got is the decoded header bucket for these entries: known labels and algorithms as classes, the rest as is."""
    expect(isinstance(got, dict), '%s: %s is not a dict', what, short(got))
    want = {}
    for lab, v in entries:
        want[hdr_class(lab) if not isinstance(lab, str) and lab in algs.HEADERS else lab] = (lab, v)
    gk = {(k.__class__, k) for k in got}
    wk = {(k.__class__, k) for k in want}
    expect(gk == wk, '%s: labels %s instead of %s', what, short(list(got)), short(list(want)))
    for k, (lab, v) in want.items():
        g = got[k]
        if lab == 1 and v in algs.ALG_CLASSES and not isinstance(lab, str):
            expect(g is alg_class(v), '%s: algorithm %s instead of %s', what, short(g), algs.ALG_NAMES[v])
        elif lab in (-1, -2) and is_spec(v):
            is_key(g, wire_key(v['key'], False), '%s: key in header' % what)
        else:
            eq(g, v, '%s: value of %r' % (what, lab))


def check_headers(msg, layer, what):
    check_bucket(msg.phdr, layer['p'], what + ' protected')
    check_bucket(msg.uhdr, layer['u'], what + ' unprotected')

# ------------------------------------------------------------------------------------------- transport


def parse(encoded, tag):
    """Parse an encoded message strictly: a tagged array of definite structure."""
    expect(type(encoded) is bytes, 'encode() returned %s', short(encoded))
    expect(refcbor.item_end(encoded) == len(encoded), 'bytes behind the message: %s', short(encoded))
    obj = cbor2.loads(encoded)
    if tag is None:
        expect(isinstance(obj, list), 'not an untagged array')
        return obj
    expect(isinstance(obj, cbor2.CBORTag) and obj.tag == tag, 'not tagged with %d: %s', tag, short(encoded))
    expect(isinstance(obj.value, list), 'not an array')
    return obj.value


def relay(encoded, ops, path=(), keep=(1, 5, 6, -1, -2, -20, -21, -22, -23, -24, -25, -26), prot_labels=()):
    """Edit unrelated unprotected attributes of the structure at `path` and re-encode with our own encoder."""
    obj = cbor2.loads(encoded)
    node = obj.value
    for i in path:
        node = node[i]
    u = node[1]
    for op in ops:
        if op[0] == 'set':
            if op[1] not in keep and op[1] not in prot_labels:
                u[op[1]] = op[2]
        else:
            ks = [k for k in u if k not in keep]
            if ks:
                del u[ks[op[1] % len(ks)]]
    return refcbor.enc(refcbor.Tag(obj.tag, obj.value)), u


def frozen(x):
    """A comparable snapshot of a (possibly nested) value, keys by their contents."""
    if isinstance(x, CoseKey):
        return ('key', type(x).__name__, frozen(dict(x)))
    if isinstance(x, dict):
        return ('map', [(frozen(k), frozen(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ('list', [frozen(v) for v in x])
    if isinstance(x, float) and x != x:
        return ('float', 'nan')
    if isinstance(x, cbor2.CBORTag):
        return ('tag', x.tag, frozen(x.value))
    if type(x).__eq__ is object.__eq__ and hasattr(x, 'as_bytes'):
        return (type(x).__name__, x.as_bytes())     # a MIME message, which has no equality
    return (type(x).__name__, x)
