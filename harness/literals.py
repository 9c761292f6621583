"""Literals found in the code under test, used to steer the generators towards values the code mentions."""
import ast
import json
import os
from collections import Counter

BASE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures', 'literals.json')


def harvest(root=os.path.join(os.environ.get('PYCOSE_VERIF_REPO', '/repo'), 'pycose')):
    ints, byts, strs = Counter(), Counter(), Counter()
    for dp, dn, fn in sorted(os.walk(root)):
        dn.sort()
        for f in sorted(fn):
            if not f.endswith('.py'):
                continue
            try:
                tree = ast.parse(open(os.path.join(dp, f), 'rb').read())
            except SyntaxError:
                continue
            for n in ast.walk(tree):
                if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and \
                        isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                    n.body[0].value.value = None    # docstring
                if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) \
                        and type(n.operand.value) is int:
                    ints[-n.operand.value] += 1
                if isinstance(n, ast.Constant):
                    v = n.value
                    if type(v) is int:
                        ints[v] += 1
                    elif type(v) is bytes and len(v) <= 256:
                        byts[v] += 1
                    elif type(v) is str and len(v) <= 64:
                        strs[v] += 1
    return ints, byts, strs


def load():
    """(all ints, bytes, strs), (those which occur more often than in the tree the harness was written for)"""
    ints, byts, strs = harvest()
    with open(BASE) as f:
        b = json.load(f)
    new = (sorted(ints - Counter(dict(b['ints']))),
           sorted(byts - Counter({bytes.fromhex(k): n for k, n in b['bytes']})),
           sorted(strs - Counter(dict(b['strs']))))
    return (sorted(ints), sorted(byts), sorted(strs)), new


def save():
    ints, byts, strs = harvest()
    with open(BASE, 'w') as f:
        json.dump({'ints': sorted(ints.items()), 'bytes': sorted((k.hex(), n) for k, n in byts.items()),
                   'strs': sorted(strs.items())}, f)


if __name__ == '__main__':
    save()
