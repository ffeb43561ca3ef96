"""The fuzzing dictionary: constants of the code under test.

A check reads the integers, byte strings and strings that the source of the
library mentions, and the generators draw from them (and from their
neighbours) now and then, as a fuzzer draws from its dictionary.  Words that
the source mentions more often than the tree the checks were written against
(tools/words.json) are drawn more often.  The dictionary only guides what is
generated: no check passes or fails because of it.
"""
import ast
import collections
import json
import os

from hypothesis import strategies as st

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BASELINE = os.path.join(VERIF, 'tools', 'words.json')
TABLES = ('opcodes.py',)                  # nothing but data


def _fold(node):
    """the value of a constant expression, or None"""
    if isinstance(node, ast.Constant):
        v = node.value
        return v if isinstance(v, (int, bytes, str)) \
            and not isinstance(v, bool) else None
    if isinstance(node, ast.UnaryOp):
        v = _fold(node.operand)
        if isinstance(v, int):
            return {ast.USub: -v, ast.Invert: ~v}.get(type(node.op))
    if isinstance(node, ast.BinOp):
        a, b = _fold(node.left), _fold(node.right)
        if a is None or b is None:
            return None
        op = type(node.op)
        try:
            if isinstance(a, int) and isinstance(b, int):
                if op is ast.Add:
                    return a + b
                if op is ast.Sub:
                    return a - b
                if op is ast.Mult:
                    return a * b
                if op is ast.FloorDiv and b:
                    return a // b
                if op is ast.BitOr:
                    return a | b
                if op in (ast.Pow, ast.LShift) and 0 <= b <= 64:
                    return a ** b if op is ast.Pow else a << b
            elif op is ast.Mult and {type(a), type(b)} & {bytes, str} \
                    and int in (type(a), type(b)):
                n = a if isinstance(a, int) else b
                return a * b if 0 <= n <= 1000 else None
            elif op is ast.Add and type(a) is type(b):
                return a + b
        except Exception:
            return None
    return None


def _collect(node, out):
    if isinstance(node, ast.Raise):
        return
    v = _fold(node)
    if v is not None:
        out[v] += 1
        if not isinstance(node, ast.Constant):
            for child in ast.iter_child_nodes(node):
                _collect(child, out)
        return
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
        return                            # docstrings
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        for part in node.body + node.args.defaults + [
                d for d in node.args.kw_defaults if d is not None]:
            _collect(part, out)
        return
    if isinstance(node, ast.AnnAssign):
        if node.value is not None:
            _collect(node.value, out)
        return
    for child in ast.iter_child_nodes(node):
        _collect(child, out)


def read(repo=REPO):
    """{file: Counter of words}"""
    found = {}
    top = os.path.join(repo, 'riemann')
    for d, dirs, names in sorted(os.walk(top)):
        if 'tests' in d.split(os.sep):
            continue
        for n in sorted(names):
            if not n.endswith('.py') or n in TABLES:
                continue
            path = os.path.join(d, n)
            try:
                with open(path, encoding='utf-8') as f:
                    tree = ast.parse(f.read())
            except (OSError, SyntaxError, ValueError):
                continue
            c = collections.Counter()
            _collect(tree, c)
            found[os.path.relpath(path, repo)] = c
    return found


def pack(found):
    """to JSON: {file: {repr: count}}"""
    return {f: {repr(w): n for w, n in sorted(c.items(), key=repr)}
            for f, c in sorted(found.items())}


def _hot():
    try:
        with open(BASELINE) as f:
            base = json.load(f)
    except (OSError, ValueError):
        return set()
    hot = set()
    for f, words in pack(read()).items():
        old = base.get(f, {})
        for w, n in words.items():
            if n > old.get(w, 0):
                hot.add(w)
    return {ast.literal_eval(w) for w in hot}


HOT = _hot()


def _ints():
    out = set()
    for w in HOT:
        if isinstance(w, int):
            out |= {w - 1, w, w + 1}
            if w > 255:                   # as the bytes spell it
                n = (w.bit_length() + 7) // 8
                if n <= 8:
                    v = int.from_bytes(w.to_bytes(n, 'big'), 'little')
                    out |= {v, w << 8 * (4 - n) if n < 4 else w}
        elif isinstance(w, bytes) and 0 < len(w) <= 8:
            out |= {int.from_bytes(w, 'little'), int.from_bytes(w, 'big')}
    return sorted(out)


def _bytes():
    out = set()
    for w in HOT:
        if isinstance(w, bytes) and w:
            out |= {w, w[::-1]}
        elif isinstance(w, str) and w:
            try:
                out.add(bytes.fromhex(w))
            except ValueError:
                pass
        elif isinstance(w, int) and 0 <= w < 2 ** 64:
            n = max(1, (w.bit_length() + 7) // 8)
            out |= {w.to_bytes(n, 'little'), w.to_bytes(n, 'big')}
    return sorted(x for x in out if x)


INTS = _ints()
BYTES = _bytes()
STRS = sorted(w for w in HOT if isinstance(w, str) and w)


def ints(base, lo, hi, share=4):
    """`base`, and one time in `share` a word in [lo, hi] if there is one"""
    w = [v for v in INTS if lo <= v <= hi]
    if not w:
        return base
    return st.integers(1, share).flatmap(
        lambda k: st.sampled_from(w) if k == share else base)


def lengths(lo, hi, base):
    return ints(base, lo, hi, 5)


def mark(n, base, stretch):
    """n bytes; sometimes with a word at the front, at the end or inside"""
    w = [v for v in BYTES if len(v) <= n]
    if not w:
        return base

    @st.composite
    def marked(draw):
        v = draw(st.sampled_from(w))
        b = stretch(draw(st.integers(0, 2 ** 32)), n - len(v))
        how = draw(st.sampled_from(['front', 'back', 'inside', 'all']))
        if how == 'front':
            return v + b
        if how == 'back':
            return b + v
        if how == 'all':
            return (v * (n // len(v) + 1))[:n]
        k = draw(st.integers(0, len(b)))
        return b[:k] + v + b[k:]
    m = marked()
    return st.integers(1, 4).flatmap(lambda k: m if k == 4 else base)


def install():
    """Hypothesis draws constants of the program now and then by itself;
    with words that are new, it does so more often and from those."""
    ints_ = [v for v in INTS if v > 2 or v < 0]
    if not (ints_ or BYTES or STRS):
        return
    try:
        from hypothesis.internal.conjecture import providers as pr
        from hypothesis.internal.conjecture.choice import choice_permitted
        plain = pr.HypothesisProvider._maybe_draw_constant
        pools = {'integer': ints_, 'bytes': BYTES, 'string': STRS}
        cache = {}

        def draw(self, choice_type, constraints, *, p=0.05):
            pool = pools.get(choice_type)
            if pool and constraints.get('weights') is None:
                if choice_type == 'integer':
                    lo, hi = (constraints.get('min_value'),
                              constraints.get('max_value'))
                    wide = lo is None or hi is None or hi - lo >= 6
                    key = (choice_type, lo, hi)
                else:
                    wide = True
                    key = (choice_type, pr.choice_constraints_key(
                        choice_type, constraints))
                if wide and self._random.random() < 0.04:
                    if key not in cache:
                        if len(cache) > 4000:
                            cache.clear()
                        cache[key] = [v for v in pool if choice_permitted(
                            v, constraints)]
                    if cache[key]:
                        return self._random.choice(cache[key])
            return plain(self, choice_type, constraints, p=p)
        pr.HypothesisProvider._maybe_draw_constant = draw
    except Exception:                     # another Hypothesis: do without
        pass
