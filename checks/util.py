"""Helpers shared by the checks."""
import ast, os, itertools
from symx.ctx import REPO


def mine_ints(files, lo, hi, limit=12):
    """integer literals (lo <= c <= hi) in the source of the anchored files of the current tree: sizes worth a case of their own,
    because behaviour may change there"""
    found = set()
    for f in files:
        p = os.path.join(REPO, 'package', 'inference', f)
        try:
            text = open(p, errors='replace').read()
        except OSError:
            continue
        if f.endswith('.py'):
            try:
                for n in ast.walk(ast.parse(text)):
                    if isinstance(n, ast.Constant) and type(n.value) in (int, float) and n.value == int(n.value if abs(n.value) < 1e9 else 0):
                        found.add(int(n.value))
            except SyntaxError:
                pass
        else:
            import re
            for l in text.splitlines():
                if l[:1] in 'cC*!':
                    continue
                for t in re.findall(r'(?<![\w.])(\d+)(?![\w.])', l[6:]):
                    found.add(int(t))
    out = set()
    for c in found:
        for k in (c, c + 1):
            if lo <= k <= hi:
                out.add(k)
    return sorted(out)[:limit]


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def grid(*ns):
    return list(itertools.product(*[range(n) for n in ns]))
