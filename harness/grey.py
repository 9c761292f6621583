"""Coverage-guided search over byte strings: inputs which reach new branches of the code under test are kept and varied.

Coverage comes from sys.monitoring (lines and branches of the code objects under the repository's package); every event is
switched off once it has been seen, so the cost fades as coverage saturates. Variation works on the CBOR structure (also of
CBOR inside byte strings, such as protected headers) and on raw bytes, with the literals of the code as a dictionary.
"""
import random
import sys

import cbor2

import env
import literals
from refcbor import Raw, Tag, Undefined, enc

TOOL = 4


class Coverage:
    """new() tells whether anything ran since the last call that never ran before."""

    def __init__(self, root):
        self.root = root
        self.hits = 0
        self.mon = getattr(sys, 'monitoring', None)
        if self.mon is None or self.mon.get_tool(TOOL) is not None:
            self.mon = None
            return
        m = self.mon
        m.use_tool_id(TOOL, 'verif')
        ev = m.events.LINE | m.events.BRANCH
        seen = self.seen = set()

        def line(code, n):
            self.hits += 1
            return m.DISABLE

        def branch(code, at, to):
            if (code, at, to) in seen:
                return None
            seen.add((code, at, to))
            self.hits += 1
            # both ways seen: nothing more to learn here
            other = (code, at)
            if other in seen:
                return m.DISABLE
            seen.add(other)
        m.register_callback(TOOL, m.events.LINE, line)
        m.register_callback(TOOL, m.events.BRANCH, branch)
        for code in self.codes():
            m.set_local_events(TOOL, code, ev)

    def codes(self):
        import gc
        out, todo = set(), [o.__code__ for o in gc.get_objects() if type(o).__name__ == 'function']
        while todo:
            c = todo.pop()
            if c in out or not c.co_filename.startswith(self.root):
                continue
            out.add(c)
            todo += [k for k in c.co_consts if type(k) is type(c)]
        return sorted(out, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))

    def new(self):
        h, self.hits = self.hits, 0
        return h > 0

    def close(self):
        if self.mon is not None:
            self.mon.free_tool_id(TOOL)


# ------------------------------------------------------------------------------------------- structure

class Node:
    """kind: 'arr' [..], 'map' [[k, v]..], 'tag' (no, x), 'emb' x (a byte string which holds CBOR), 'leaf' value"""
    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        self.k, self.v = k, v


def parse(v, depth=0):
    if isinstance(v, (list, tuple)):
        return Node('arr', [parse(x, depth + 1) for x in v])
    if isinstance(v, dict):
        return Node('map', [[parse(a, depth + 1), parse(b, depth + 1)] for a, b in v.items()])
    if isinstance(v, cbor2.CBORTag):
        return Node('tag', [v.tag, parse(v.value, depth + 1)])
    if isinstance(v, bytes) and v and depth < 12:
        try:
            x = cbor2.loads(v)
            if isinstance(x, (dict, list)) and cbor2.dumps(x) == v:
                return Node('emb', parse(x, depth + 1))
        except Exception:
            pass
    if isinstance(v, (int, float, str, bytes, bool)) or v is None:
        return Node('leaf', v)
    if v is cbor2.undefined:
        return Node('leaf', Undefined)
    return Node('leaf', Raw(cbor2.dumps(v)))


def clone(n):
    if n.k == 'arr':
        return Node('arr', [clone(x) for x in n.v])
    if n.k == 'map':
        return Node('map', [[clone(a), clone(b)] for a, b in n.v])
    if n.k == 'tag':
        return Node('tag', [n.v[0], clone(n.v[1])])
    if n.k == 'emb':
        return Node('emb', clone(n.v))
    return Node('leaf', n.v)


def render(n, wild):
    from refcbor import head
    if n.k == 'leaf':
        return enc(n.v, wild)
    if n.k == 'emb':
        return enc(render(n.v, wild), wild)
    if n.k == 'tag':
        return head(6, n.v[0]) + render(n.v[1], wild)
    if n.k == 'arr':
        return head(4, len(n.v)) + b''.join(render(x, wild) for x in n.v)
    return head(5, len(n.v)) + b''.join(render(a, wild) + render(b, wild) for a, b in n.v)


def places(n, out=None, at=None):
    """[(node, setter)] of all nodes."""
    out = [] if out is None else out
    out.append((n, at))
    if n.k == 'arr':
        for i, x in enumerate(n.v):
            places(x, out, (n.v, i))
    elif n.k == 'map':
        for e in n.v:
            places(e[0], out, (e, 0))
            places(e[1], out, (e, 1))
    elif n.k == 'tag':
        places(n.v[1], out, (n.v, 1))
    elif n.k == 'emb':
        places(n.v, out, (n, None))
    return out


class Mutator:
    def __init__(self, rng, values=()):
        (ints, byts, strs), new = literals.load()
        self.rng = rng
        self.news = list(new[0]) + list(new[1]) + list(new[2])
        self.ints = list(ints) + [-1, -2, 2**16, 2**32, 2**64 - 1]
        self.byts = list(byts) + [b'', b'\x00', b'\xa0', b'\x80']
        self.strs = list(strs) + ['']
        self.values = list(values)      # further interesting values

    def leaf(self):
        r = self.rng
        c = r.randrange(14)
        if c == 0 and self.news:
            return r.choice(self.news)
        if c < 4:
            return r.choice(self.ints)
        if c == 4:
            return r.randrange(-70, 70)
        if c == 5:
            return r.choice(self.byts)
        if c == 6:
            return r.choice(self.strs)
        if c == 7:
            return r.choice([True, False, None, 1.5, float('nan'), 0, Undefined, -0.0, float('inf'), Raw(b'\xe0'), Raw(b'\xf8\x20')])
        if c == 8:
            return bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 7, 8, 12, 13, 16, 24, 32])))
        return r.choice(self.values) if self.values else r.randrange(24)

    def node(self, donors):
        r = self.rng
        if r.randrange(3) and donors:
            return clone(r.choice(places(r.choice(donors)))[0])
        v = self.leaf()
        if r.randrange(6) == 0:
            v = r.choice([[], {}, [v], {1: v}])
        return parse(v) if not isinstance(v, Raw) and v is not Undefined else Node('leaf', v)

    def once(self, root, donors):
        r = self.rng
        n, at = r.choice(places(root))
        c = r.randrange(9)
        if n.k in ('arr', 'map') and c < 4:
            L = n.v
            if c == 0 and L:
                del L[r.randrange(len(L))]
            elif c == 1 and L:
                i = r.randrange(len(L))
                L.insert(r.randrange(len(L) + 1), clone(L[i]) if n.k == 'arr' else [clone(L[i][0]), clone(L[i][1])])
            elif c == 2 and len(L) > 1:
                i, j = r.randrange(len(L)), r.randrange(len(L))
                L[i], L[j] = L[j], L[i]
            else:
                L.insert(r.randrange(len(L) + 1), self.node(donors) if n.k == 'arr' else [self.node(donors), self.node(donors)])
            return root
        if n.k == 'tag' and c < 3:
            n.v[0] = r.choice([16, 17, 18, 96, 97, 98, 24, 1000, r.randrange(200)])
            return root
        if n.k == 'leaf' and c < 5:
            v = n.v
            if isinstance(v, (bytes, str)) and not isinstance(v, Raw) and len(v):
                i = r.randrange(len(v))
                k = r.randrange(5)
                if isinstance(v, bytes) and k < 2:
                    v = v[:i] + bytes([v[i] ^ (1 << r.randrange(8))]) + v[i + 1:]
                elif k == 2:
                    v = v[:i]
                elif k == 3:
                    v = v[:i] + v[i + 1:]
                elif isinstance(v, str):
                    v = r.choice([v.lower(), v.upper(), v.title(), v + ' ', v[::-1]])
                else:
                    v = v + v[i:]
            elif isinstance(v, int) and not isinstance(v, bool):
                v = r.choice([v + 1, v - 1, -v, v ^ (1 << r.randrange(9)), -1 - v, float(v) if abs(v) < 2**53 else v])
            else:
                v = self.leaf()
            n.v = v
            return root
        new = self.node(donors)
        if c == 8:
            new = r.choice([Node('arr', [n]), Node('tag', [r.choice([18, 96, 24, 500]), n]), Node('emb', n)])
        if at is None:
            return new if r.randrange(4) == 0 else root
        box, i = at
        if i is None:
            box.v = new
        else:
            box[i] = new
        return root

    def bytes(self, data):
        r = self.rng
        for _ in range(r.choice([1, 1, 2, 4])):
            n = len(data)
            i = r.randrange(n + 1)
            c = r.randrange(6)
            if c == 0 and i < n:
                data = data[:i] + bytes([data[i] ^ (1 << r.randrange(8))]) + data[i + 1:]
            elif c == 1 and i < n:
                data = data[:i] + bytes([r.randrange(256)]) + data[i + 1:]
            elif c == 2:
                data = data[:i] + data[i + r.randrange(1, 5):]
            elif c == 3:
                data = data[:i] + r.choice([b'\xf6', b'\x80', b'\xa0', b'\x40', b'\x9f', b'\xff', b'\x01', bytes([r.randrange(256)])]) + data[i:]
            elif c == 4:
                j = r.randrange(n + 1)
                data = data[:i] + data[j:j + 20] + data[i:]
            elif r.randrange(8) == 0:
                data = data[:i]
        return data[:4000]

    def __call__(self, data, corpus):
        r = self.rng
        if r.randrange(6) == 0:
            return self.bytes(data)
        try:
            root = parse(cbor2.loads(data))
            donors = []
            for _ in range(2):
                try:
                    donors.append(parse(cbor2.loads(r.choice(corpus))))
                except Exception:
                    pass
            for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5])):
                root = self.once(root, donors)
            if r.randrange(4) == 0:
                w = lambda: r.choice([0, 0, 0, 1, 2, 12])     # noqa: E731
            else:
                w = None
            out = render(root, w)
            return out if len(out) < 4000 else self.bytes(data)
        except Exception:
            return self.bytes(data)


def shrink(data, fails, limit=400):
    """A smaller input for which fails(input) is still true."""
    n = max(1, len(data) // 2)
    tries = 0
    while n and tries < limit:
        i = 0
        while i < len(data) and tries < limit:
            cand = data[:i] + data[i + n:]
            tries += 1
            if fails(cand):
                data = cand
            else:
                i += n
        n //= 2
    return data


def draws(strategy, rng, n):
    """About n values of a Hypothesis strategy."""
    from hypothesis import HealthCheck, Phase, given, seed, settings
    out = []

    def collect(c):
        out.append(c)
    settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=(Phase.generate,))(
        seed(rng.randrange(2**63))(given(strategy)(collect)))()
    return out


def driver(seeds, values=lambda: ()):
    """A facet driver: run(job, n, seed) feeds job.run_case({'data': bytes})."""
    def run(job, n, seed):
        rng = random.Random(seed)
        cov = Coverage(env.REPO + '/pycose/')
        try:
            mut = Mutator(rng, values())
            corpus = []
            for d in seeds(rng):
                job.run_case({'data': d})
                cov.new()
                corpus.append(d)
            fresh = []
            for i in range(max(0, n - len(corpus))):
                # recent discoveries first
                base = rng.choice(fresh[-20:]) if fresh and rng.randrange(2) else rng.choice(corpus)
                data = mut(base, corpus)
                job.run_case({'data': data})
                if cov.new():
                    corpus.append(data)
                    fresh.append(data)
                elif rng.randrange(600) == 0 and len(corpus) < 2000:
                    corpus.append(data)
            job.rec.label('inputs that reached something new', len(fresh))
        finally:
            cov.close()
    return run
