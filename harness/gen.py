"""Hypothesis strategies for case data: plain literals only (ints, bytes, str, lists, dicts)."""
import copy
import hashlib

import hypothesis.strategies as st

import algs
import fix
import literals
import refcose

(DICT_INTS, DICT_BYTES, DICT_STRS), (NEW_INTS, NEW_BYTES, NEW_STRS) = literals.load()

BOUND = [0, 1, 2, 7, 8, 12, 13, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 47, 48, 49, 55, 56, 63, 64, 65, 66, 95, 96, 97,
         111, 112, 119, 120, 127, 128, 129, 191, 192, 255, 256, 257]
HUGE = [511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]
NEW_SIZES = sorted({n + k for n in NEW_INTS for k in (-1, 0, 1) if 0 <= n + k <= 70000})
DICT_SIZES = sorted({n + k for n in DICT_INTS for k in (-1, 0, 1) if 0 <= n + k <= 300})


@st.composite
def sizes(draw, lo=0, hi=70000):
    c = draw(st.integers(0, 99))
    if c < 40:
        n = draw(st.integers(0, 40))
    elif c < 68:
        n = draw(st.sampled_from(BOUND))
    elif c < 84:
        n = draw(st.integers(0, 300))
    elif c < 90 and NEW_SIZES:
        n = draw(st.sampled_from(NEW_SIZES))
    elif c < 94:
        n = draw(st.sampled_from(DICT_SIZES))
    elif c < 96:
        n = draw(st.sampled_from(HUGE))
    else:
        n = draw(st.integers(0, 20))
    return max(lo, min(hi, n))


def expand(seed, n):
    return hashlib.shake_128(b'%d' % seed).digest(n)


def several(draw, one, counts):
    """A list of one() of a length out of counts, now and then a long one (in which few elements repeat)."""
    if draw(st.integers(0, 19)) == 19:
        few = [one() for _ in range(3)]
        return [copy.deepcopy(few[(i * i // 3) % 3]) for i in range(draw(st.sampled_from([6, 9, 17, 25, 33, 60])))]
    return [one() for _ in range(draw(st.sampled_from(counts)))]


@st.composite
def blob(draw, lo=0, hi=70000):
    """Bytes of interesting sizes and contents."""
    c = draw(st.integers(0, 19))
    if c == 0 and (NEW_BYTES or NEW_STRS):
        b = draw(st.sampled_from(NEW_BYTES + [s.encode('utf-8', 'replace') for s in NEW_STRS]))
        return b[:hi] + b'\0' * (lo - len(b))
    n = draw(sizes(lo, hi))
    if n == 0:
        return b''
    if c == 19:
        b = draw(st.sampled_from(TEXTS))
        return b[:hi] + b'\0' * (lo - len(b))
    if n <= 12 and c < 10:
        return draw(st.binary(min_size=n, max_size=n))
    if c < 3:
        return bytes([draw(st.sampled_from([0, 0xff, 0x40, 0xa0, 0xf6]))]) * n
    if c < 5:
        # leading or trailing zero bytes
        z = draw(st.integers(1, max(1, min(n, 4))))
        body = expand(draw(st.integers(0, 2**32)), n - z)
        return b'\0' * z + body if c == 3 else body + b'\0' * z
    return expand(draw(st.integers(0, 2**32)), n)


@st.composite
def longish(draw):
    """Values whose CBOR heads are longer."""
    n = draw(st.sampled_from([24, 25, 64, 255, 256, 300]))
    c = draw(st.integers(0, 5))
    if c == 0:
        return 'a\xe9\u20ac'[draw(st.integers(0, 2))] * n
    if c == 1:
        return expand(n, n)
    if c == 2:
        return [draw(st.sampled_from([0, b'', 'x', None, 300]))] * n
    if c == 3:
        return {i * draw(st.sampled_from([1, -1, 50])): 0 for i in range(n)}
    if c == 4:
        x = draw(st.sampled_from([[], {}, b'x', 5]))
        for _ in range(n % 20):
            x = [x]
        return x
    return draw(st.integers(-2**70, 2**70))


TEXTS = [s.encode() for s in ('hello', '{"a": [1, "b"]}', '\xe9t\xe9', '\u20ac 5', 'ab' * 20, '\u00ff' * 24, ' x ', 'a\r\nb\n', '\ufeffx', '0123456789abcdef',
                             'YWJjZA==', '-----BEGIN X-----', 'None', '\U0001f600')] + [
    bytes.fromhex(h) for h in ('8301f6a0', 'd28443a10126a04180', 'a10126', 'f6', '40', '60', '80', 'a0', '01', 'fb7ff8000000000000', '00' * 16, '5f41ff')]


def exact(n):
    """n bytes."""
    return st.one_of(st.integers(0, 2**32).map(lambda s: expand(s, n)), st.integers(0, 2**32).map(lambda s: expand(s, n)),
                     st.binary(min_size=n, max_size=n) if n <= 16 else st.integers(0, 2**32).map(lambda s: b'\0' + expand(s, n - 1)),
                     st.sampled_from([b'\0' * n, b'\xff' * n]) if n else st.just(b''))


_HEADER_NAMES = {v[1] for v in algs.HEADERS.values()}
text = st.one_of(st.text(st.characters(codec='utf-8', exclude_categories=['Cs']), max_size=12),
                 st.text(st.characters(codec='utf-8', exclude_categories=['Cs']), max_size=12),
                 st.text(st.characters(codec='utf-8', exclude_categories=['Cs']), max_size=12),
                 st.sampled_from([' x', 'x ', '\tq', 'a\n', '\xa0z', '\u2028', '  ', 'x\0', '\ufeffb', 'text/plain; charset=utf-8', '1.5', 'null']))
labels_str = st.one_of(
    text, st.sampled_from(['x', 'alg ', 'kid2', 'Key', 'reserved?', 'algorithm', '', '1', '-1', 'content type', 'K', 'é']),
    st.sampled_from(DICT_STRS), st.sampled_from(NEW_STRS or ['n'])).filter(lambda s: s.upper() not in _HEADER_NAMES)
labels_int = st.one_of(
    st.sampled_from([8, 11, 12, 15, 16, 23, 24, 31, 36, 40, 99, 255, 256, 65535, 65536, 2**32, 2**63, 2**64 - 1,
                     -4, -5, -19, -27, -100, -256, -257, -65537, -998, -999, -2**31, -2**63, -2**64]),
    st.integers(-300, 300), st.integers(-2**64, 2**64 - 1), st.sampled_from(DICT_INTS),
    st.sampled_from(NEW_INTS or [77])).filter(lambda i: i not in algs.HEADERS)
unknown_label = st.one_of(labels_int, labels_str)

ints = st.one_of(st.sampled_from([0, 1, 10, 23, 24, 25, 255, 256, 65535, 65536, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1,
                                  2**64, 2**80, -1, -24, -25, -256, -257, -65536, -65537, -2**32, -2**63, -2**64,
                                  -2**64 - 1]),
                 st.integers(-1000, 1000), st.sampled_from(NEW_INTS or [5]))
uints = ints.map(abs)
small = blob(0, 40)
leaf = st.one_of(ints, st.booleans(), st.none(), blob(0, 70), text, st.floats(allow_nan=False), st.sampled_from(
    [0, False, b'', '', 0.0, None, -0.0, 1.5, float('inf'), -float('inf'), 1e300, 5e-324]), longish())
any_value = st.recursive(leaf, lambda v: st.one_of(
    st.lists(v, max_size=3), st.dictionaries(st.one_of(st.integers(-30, 30), text, st.binary(max_size=3)), v, max_size=3)), max_leaves=5)

# ------------------------------------------------------------------------------------------- keys

EC_CURVES = ['P_256', 'P_384', 'P_521']
ALL_EC = EC_CURVES + ['SECP256K1']


@st.composite
def ec_scalar(draw, curve):
    q = refcose.EC[curve][2]
    c = draw(st.integers(0, 9))
    if c < 4:
        return draw(st.sampled_from(fix.EC_POOL[curve]))
    if c < 5:
        return draw(st.one_of(st.integers(1, 100), st.integers(1, 2 ** 120)))
    return int.from_bytes(expand(draw(st.integers(0, 2**32)), 70), 'big') % (q - 1) + 1


def ec_spec(crv, d):
    """Some of the keys whose private value starts with zero bytes are given without these."""
    s = {'kt': 'ec', 'crv': crv, 'd': d}
    if d % 3 == 0 and d.bit_length() <= 8 * refcose.EC[crv][1] - 8:
        s['short'] = True
    return s


@st.composite
def ec_key(draw, curves=ALL_EC):
    crv = draw(st.sampled_from(curves))
    return ec_spec(crv, draw(ec_scalar(crv)))


@st.composite
def okp_key(draw, curves=('ED25519', 'ED448', 'X25519', 'X448')):
    crv = draw(st.sampled_from(list(curves)))
    return {'kt': 'okp', 'crv': crv, 'd': draw(exact(refcose.OKP[crv][2]))}


@st.composite
def rsa_key(draw, idx=None):
    return {'kt': 'rsa', 'i': draw(st.sampled_from(idx if idx is not None else list(range(len(fix.RSA)))))}


@st.composite
def sym_key(draw, lens=(16, 24, 32)):
    return {'kt': 'sym', 'k': draw(exact(draw(st.sampled_from(list(lens)))))}


def sign_key(alg):
    if alg in algs.ECDSA:
        return ec_key([algs.ECDSA[alg][1]])
    if alg in algs.EDDSA:
        return okp_key(['ED25519', 'ED448'])
    # small keys mostly: they are fast
    fits = fix.rsa_fits(alg)
    fast = [i for i in fits if fix.RSA_BITS[i] < 2000] or fits
    return st.one_of(rsa_key(fast), rsa_key(fast), rsa_key(fits))


def mac_key(alg):
    if algs.MAC[alg][1] == 'aesmac':
        return sym_key([algs.MAC[alg][3]])
    return sym_key()


def enc_key(alg):
    return sym_key([algs.ENC[alg][2]])


sign_alg = st.sampled_from([-7, -7, -7, -35, -36] + [-8] * 4 + [-37, -38, -39, -257, -258, -259, -65535])
enc_alg = st.sampled_from(sorted(algs.ENC))
mac_alg = st.sampled_from(sorted(algs.MAC))


def nonce(alg):
    n = algs.ENC[alg][4]
    if algs.ENC[alg][1] == 'gcm':
        other = st.sampled_from([8, 12, 13, 16, 32])
    else:
        other = st.sampled_from([7, 8, 12, 13])
    return st.one_of(exact(n), exact(n), exact(n), other.flatmap(exact))


OPS_SIGN, OPS_VERIFY, OPS_ENC, OPS_DEC, OPS_MACC, OPS_MACV = [1], [2], [3], [4], [9], [10]
OPS_WRAP, OPS_UNWRAP, OPS_DERIVE = [5, 3], [6, 4], [7, 8]


@st.composite
def restriction(draw, alg, fitting, legal=None):
    """Key parameters that permit the operation: kid, alg, key ops (one of `fitting` included), base IV, unknown ones."""
    p = {}
    c = draw(st.integers(0, 15))
    if c & 1:
        p[3] = alg
    if c & 2:
        extra = draw(st.lists(st.sampled_from(legal or list(range(1, 11))), max_size=2))
        ops = [draw(st.sampled_from(fitting))] + [o for o in extra]
        p[4] = ops if c & 4 else ops[::-1]
    if c & 8:
        p[2] = draw(small)
        if draw(st.booleans()):
            p[draw(unknown_label.filter(lambda x: not is_key_label(x)))] = draw(leaf)
    return p


_KP_NAMES = {v[1] for t in (algs.KP_COMMON, algs.KP_EC2, algs.KP_OKP, algs.KP_RSA, algs.KP_SYM) for v in t.values()}


def is_key_label(x):
    if isinstance(x, int):
        return -12 <= x <= 5
    return isinstance(x, str) and x.upper() in _KP_NAMES

# ------------------------------------------------------------------------------------------- headers

BYTES_LABELS = [4, 5, 6, 9, 10, -3, -20, -21, -22, -23, -24, -25, -26]


def value_for(label):
    if label in BYTES_LABELS:
        return small
    if label == 2:
        return st.lists(st.one_of(ints, text), min_size=1, max_size=3)
    if label == 3:
        return st.one_of(uints, text)
    if label == 7:
        return st.one_of(st.tuples(small, st.just({}), small).map(list), any_value)
    if label in (32, 33):
        return st.one_of(blob(0, 64), st.lists(small, min_size=2, max_size=3))
    if label == 34:
        return st.tuples(st.sampled_from(sorted(algs.HASHES)), small).map(list)
    if label == 35:
        return text
    if label in (-1, -2):
        return st.one_of(ec_key(), okp_key(['X25519', 'X448'])).map(lambda k: {'key': k})
    return any_value


KNOWN_EXTRA = [l for l in algs.HEADERS if l != 1]


@st.composite
def entries(draw, taken, avoid=(), max_n=3, keys=True):
    """A list of [label, value] with labels not in `taken` (which is updated)."""
    out = []
    n = draw(st.sampled_from([0, 0, 1, 1, 1, 2, 2, 3, max_n]))
    for _ in range(min(n, max_n)):
        c = draw(st.integers(0, 9))
        if c < 4:
            lab = draw(st.sampled_from([4, 4, 3, 2, 10, 5, 6]))
        elif c < 7:
            lab = draw(st.sampled_from(KNOWN_EXTRA))
        else:
            lab = draw(unknown_label)
            if isinstance(lab, str) and draw(st.booleans()):
                # labels that differ in their letter case or surrounding space only
                lab = draw(st.sampled_from(sorted([t for t in taken if isinstance(t, str)] or [lab])))
                lab = draw(st.sampled_from([lab.swapcase(), lab.upper(), lab.lower(), lab + ' ', ' ' + lab]))
                if lab.upper() in _HEADER_NAMES:
                    continue
        if lab in taken or lab in avoid or (not keys and lab in (-1, -2)):
            continue
        taken.add(lab)
        out.append([lab, draw(value_for(lab)) if lab in algs.HEADERS else draw(any_value)])
    return out


spell = st.lists(st.integers(0, 4), min_size=1, max_size=3)


@st.composite
def layer(draw, alg=None, avoid=(), prot_alg=None, max_n=3, keys=True, empty_p=False, need=(), alg_spell=True):
    """Headers of one layer: {'p': [[label, value]...], 'u': ..., 'sp': spelling choices, 'tstr': bool}.

    alg: put Algorithm in (protected unless prot_alg says otherwise); need: further [label, value] to put somewhere.
    """
    taken = {1}
    taken.update(l for l, _ in need)
    p = [] if empty_p else draw(entries(taken, avoid, max_n, keys))
    u = draw(entries(taken, avoid, max_n, keys))
    for lab, val in list(need) + ([[1, alg]] if alg is not None else []):
        where = draw(st.integers(0, 5)) if prot_alg is None or lab != 1 else (0 if prot_alg else 5)
        tgt = u if empty_p or where == 5 or (lab != 1 and where > 2) else p
        tgt.insert(draw(st.integers(0, len(tgt))), [lab, val])
    # an empty protected bucket is common
    if not empty_p and p and draw(st.integers(0, 9)) == 0 and prot_alg is None and alg is not None:
        u += p
        p = []
    r = {'p': p, 'u': u, 'sp': draw(spell)}
    if alg_spell and draw(st.integers(0, 9)) == 0:
        r['tstr'] = True
    return r


aad = st.one_of(st.just(b''), st.just(b''), blob(0, 70000))
key_form = st.integers(0, 9)

# edits of unrelated unprotected attributes in transit: ['set', label, value] / ['del', index]
@st.composite
def relay_ops(draw, max_n=3):
    out = []
    for _ in range(draw(st.integers(0, max_n))):
        if draw(st.integers(0, 2)) == 0:
            out.append(['del', draw(st.integers(0, 5))])
        else:
            lab = draw(st.one_of(st.sampled_from([4, 3, 10, -3]), unknown_label))
            out.append(['set', lab, draw(value_for(lab)) if lab in algs.HEADERS else draw(leaf)])
    return out
