"""Constants of the code under test, as alphabet and lengths.

The alphabets of the bounded spaces stand for classes of inputs; a class that
the code itself distinguishes by a constant (a string it compares with, a code
point, a length, a number) has to have a representative.  These constants are
read from the syntax trees of the current tree's urlstd, so that the spaces
follow the code; those of the tree the spaces were designed on are kept in
constants.json, so that a constant that the code drops stays in the spaces.
They only add inputs: what is right for an input is decided by the oracle
alone.
"""

from __future__ import annotations

import ast
import glob
import json
import operator
import os
import re
import warnings

from .engine import REPO

MAX_TOKEN = 24


def _docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        body = getattr(n, "body", None)
        if isinstance(body, list):
            for x in body:
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                    out.add(id(x.value))
    return out


def _regex_chars(s):
    """the characters a regular expression mentions"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import re._parser as sp

            tree = sp.parse(s)
    except Exception:
        return []
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and str(x[0]) in ("LITERAL", "NOT_LITERAL"):
                out.append(chr(x[1]))
                return
            if len(x) == 2 and str(x[0]) == "RANGE":
                lo, hi = x[1]
                out.extend(chr(i) for i in (lo - 1, lo, hi, hi + 1) if 0 <= i < 0x110000)
                return
        if isinstance(x, (tuple, list)) or hasattr(x, "data"):
            for y in getattr(x, "data", x):
                walk(y)

    walk(tree)
    return out


OPERATORS = {
    ast.Add: operator.add,
    ast.Sub: operator.sub,
    ast.Mult: operator.mul,
    ast.Pow: operator.pow,
    ast.LShift: operator.lshift,
    ast.FloorDiv: operator.floordiv,
}


def _folded(n):
    """the value of an expression of constants | None"""
    if isinstance(n, ast.Constant):
        v = n.value
        return v if isinstance(v, int) and 0 <= v <= 1 << 64 or isinstance(v, str) and len(v) <= 64 else None
    if not isinstance(n, ast.BinOp) or type(n.op) not in OPERATORS:
        return None
    a, b = _folded(n.left), _folded(n.right)
    if a is None or b is None:
        return None
    if isinstance(n.op, (ast.Pow, ast.LShift, ast.Mult)) and max(x for x in (a, b, 0) if isinstance(x, int)) > 1 << 32:
        return None
    if isinstance(n.op, (ast.Pow, ast.LShift)) and not (isinstance(b, int) and b <= 64):
        return None
    if isinstance(n.op, ast.Mult) and isinstance(a, str) != isinstance(b, str) and max(x for x in (a, b) if isinstance(x, int)) > 64:
        return None
    try:
        return OPERATORS[type(n.op)](a, b)
    except (TypeError, ValueError, ArithmeticError):
        return None


def _read():
    strs, ints = {}, {}
    for f in sorted(glob.glob(os.path.join(REPO, "src", "urlstd", "**", "*.py"), recursive=True)):
        try:
            with open(f, encoding="utf-8") as fh:
                tree = ast.parse(fh.read())
        except (OSError, SyntaxError, ValueError):
            continue
        docs = _docstrings(tree)
        for n in ast.walk(tree):
            if isinstance(n, ast.BinOp):
                v = _folded(n)
            elif isinstance(n, ast.Constant) and id(n) not in docs:
                v = n.value
            else:
                continue
            if isinstance(v, bytes):
                v = v.decode("latin-1")
            if isinstance(v, str):
                if 0 < len(v) <= MAX_TOKEN:
                    strs[v] = None
                if len(v) <= 200 and re.search(r"[\[\\^$*+?|]", v):
                    for c in _regex_chars(v):
                        strs[c] = None
            elif isinstance(v, int) and not isinstance(v, bool):
                ints[abs(v)] = None
    return strs, ints


_strs, _ints = _read()
KEPT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "constants.json")
if __name__ == "__main__":
    with open(KEPT, "w", encoding="ascii") as fh:
        json.dump({"strs": sorted(_strs), "ints": sorted(_ints)}, fh, indent=0)
        fh.write("\n")
with open(KEPT, encoding="ascii") as fh:
    _kept = json.load(fh)
for _s in _kept["strs"]:
    _strs[_s] = None
for _n in _kept["ints"]:
    _ints[_n] = None


def lengths(limit=8200, start=0):
    """every constant number and its neighbours, as lengths and counts"""
    return sorted({m for n in _ints for m in (n - 1, n, n + 1) if start <= m <= limit})


def tokens():
    """strings, code points and numbers the code mentions"""
    out = dict(_strs)
    for n in _ints:
        for m in (n - 1, n, n + 1):
            if m >= 0:
                out[str(m)] = None
        if 0x7F < n < 0x110000:
            for m in (n - 1, n, n + 1):
                if m < 0x110000:
                    out[chr(m)] = None
    for s in list(_strs):
        if len(s) > 1 and s.isascii() and s.isalpha():
            out[s.upper()] = None
    return sorted(out)


TOKENS = tokens()
# each token alone, at the start, at the end and in the middle
WORDS = sorted({w for t in TOKENS for w in (t, t + "a", "a" + t, "a" + t + "b")})
