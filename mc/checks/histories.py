"""C04, C05, C06 and the operation alphabets other checks reuse."""

from __future__ import annotations

from collections import OrderedDict, defaultdict
from itertools import product
from typing import NamedTuple

from .. import impl, model
from .. import spaces as S
from .common import ASSUME_ICU, VALIDATED, SubStr, fam

up = impl.up

STARTS = [
    "http://u:p@h:8/a/b?q=1#f",
    "http://h",
    "https://[::1]:8443/x/../y",
    "ws://1.2.3.4/p?q",
    "wss://h:0/",
    "ftp://u@h/d",
    "file:///C:/d/e?q#f",
    "file://h/x",
    "file:///",
    "a://u:p@h:9/a/b?q#f",
    "a://h",
    "a://",
    "a:///x/y",
    "a:/x/y",
    "a:/.//x",
    "a:b c?q#f",
    "a:b",
    "data:x  #f",
    "data:x  ?q",
    "blob:http://h/x",
    "a:  #f",
    "a: ?q#f",
]

# the drive letters and host names that another scheme takes otherwise
HIST_STARTS = ["http://h/C|/x/y?q", "http://h/C:", "http://localhost/C|", "ftp://h//C|/..", "ws://1.2.3.4/c:/d/../e"]

# every presence, absence and emptiness of the components
SHAPES = S.shapes(["", "?", "?q=1"], ["", "#", "#f"])

VALUES = {
    "protocol": ["http", "https:", "ws", "wss", "ftp", "b+c:x", "file", "HTTPS", "", "1", "h t"],
    "username": ["", "u2", "é:@/?#", "%41 ;"],
    "password": ["", "p2", "ß:@[|]"],
    "host": ["g", "g:81", "g:80", "g:443", "", ":1", "[::2]:0", "[1", "127.1", "0x7f.1:21/p", "a b", "g:x", "g:65536", "É.com:8080", "u@g", "localhost", "g?x", "g\\x:2"],
    "hostname": ["k", "k:81", "", "[::1:0:0]", "256", "%41%2e", "a#b", "localhost", "x/y", "k|"],
    "port": ["", "80", "443", "21", "0", "8080", "65535", "65536", "1x", "x", "00080"],
    "pathname": ["", "/", "m", "/a/../n", "//y", "/.//z", "C|/..", "/%2e%2E/o", "?q#f", "\\k\\..\\l", "é ^"],
    "search": ["", "?", "?a=1&b=2", "x y'\"é", "#", "??%zz"],
    "hash": ["", "#", "#g", "h `é", "##"],
    "href": ["http://z:81/p?a=b#f", "a:b  #c", "file:///C|/x", "http://", "", "a:/.//x", " ws://w/?k "],
}
OPS = [(k, v) for k, vs in VALUES.items() for v in vs]
OPS_SMALL = [
    ("protocol", "https"),
    ("protocol", "file"),
    ("protocol", "b"),
    ("username", "x"),
    ("password", "y"),
    ("password", ""),
    ("host", "g:443"),
    ("host", ""),
    ("hostname", "1"),
    ("port", ""),
    ("port", "0"),
    ("port", "443"),
    ("pathname", "//r/.."),
    ("pathname", ""),
    ("search", ""),
    ("search", "a=1"),
    ("hash", ""),
    ("hash", "z"),
    ("href", "data:w  ?v#u"),
]


def to_file(op):
    k, v = op
    v = v.replace("\t", "").replace("\n", "").replace("\r", "")
    return k == "protocol" and v.lower().startswith("file")


# single assignments: long value lists
_TOK1 = S.T_EDIT + ["a" * 300, "0" * 5000 + "8", "9" * 5000, "x/" * 100]


def ops1(tier, nofile=False):
    """single assignments: long values; all pairs of a token alphabet"""
    toks = S.T_MID if tier == "thorough" else S.T_SMALL

    def gen():
        for v in _TOK1:
            for k in VALUES:
                yield (k, v)
        for a in toks:
            for b in toks:
                for k in VALUES:
                    yield (k, a + b)

    return [op for op in gen() if not (nofile and to_file(op))]


def const_ops(nofile=False):
    """every constant of the code under test assigned to every component"""
    ops = [(k, w) for w in S.CONST_WORDS for k in VALUES]
    return [op for op in ops if not (nofile and to_file(op))]


def seqs(starts, ops, hi, lo=1):
    for n in range(lo, hi + 1):
        if n == 1:
            for op in ops:
                for s in starts:
                    yield (s, (op,))
        else:
            for t in product(ops, repeat=n):
                for s in starts:
                    yield (s, t)


def impl_set(u, k, v):
    """-> whether the library raised its URL parse error"""
    try:
        setattr(u, k, v)
    except impl.URLParseError:
        return True
    return False


PARAM_OPS = ("append", "delete", "set", "sort")


def impl_any(u, p, op):
    """op: ("append", name, value) ... or (component, value)"""
    k = op[0]
    if k in PARAM_OPS:
        getattr(p, k)(*op[1:])
        return False
    return impl_set(u, k, op[1])


def model_any(m, op):
    k = op[0]
    if k in PARAM_OPS:
        getattr(m.params, k)(*[str(x) for x in op[1:]])
        return True
    return m.set(k, op[1])


def compare(u, m, what):
    for k in impl.GETTERS:
        got, want = getattr(u, k), m.get(k)
        if got != want:
            return "%s: %s is %s, the standard says %s" % (what, k, ascii(got)[:300], ascii(want)[:300])
    got, want = list(u.search_params), m.params.list
    if got != want:
        return "%s: search_params lists %s, the standard says %s" % (what, ascii(got)[:300], ascii(want)[:300])
    return None


def judge_hist(case, ctx):
    start, ops = case
    u, m = impl.URL(start), model.Url(start)
    for n, (k, v) in enumerate(ops):
        before = impl.snapshot(u)
        raised = impl_set(u, k, v)
        ok = m.set(k, v)
        ctx.transitions += 1
        ctx.outcome("refused" if not ok else "run")
        r = compare(u, m, "%s after %s" % (ascii(start), ascii(ops[: n + 1])[:400]))
        if r:
            return r
        if k == "href":
            if raised == ok:
                return "%s after %s: href %s" % (ascii(start), ascii(ops[: n + 1])[:300], "raised" if raised else "did not raise")
            if raised and impl.snapshot(u) != before:
                return "%s after %s: refused href changed the URL" % (ascii(start), ascii(ops[: n + 1])[:300])
        elif raised and ok:
            # the standard runs to the end: only a value it ignores may raise
            if impl.snapshot(u) != before:
                return "%s after %s: raised although the standard accepts it" % (ascii(start), ascii(ops[: n + 1])[:300])
    ctx.traces += 1
    ctx.state(m.rec.key())
    return None


def judge_quiet(case, ctx):
    """nothing is read until the end; the search parameters are first seen
    before, or only then"""
    start, ops, early = case
    u, m = impl.URL(start), model.Url(start)
    p = u.search_params if early else None
    for k, v in ops:
        if k in PARAM_OPS:
            getattr(p or u.search_params, k)(*v)
            getattr(m.params, k)(*v)
        else:
            impl_set(u, k, v)
            m.set(k, v)
        ctx.transitions += 1
    what = "%s after %s, read only then%s" % (ascii(start), ascii(ops)[:400], ", search parameters taken before" if early else "")
    if early and list(p) != m.params.list:
        return "%s: the held search parameters list %s, the standard says %s" % (what, ascii(list(p))[:300], ascii(m.params.list)[:300])
    for k in impl.GETTERS if early else impl.GETTERS[::-1]:
        if getattr(u, k) != m.get(k):
            return "%s: %s is %s, the standard says %s" % (what, k, ascii(getattr(u, k))[:300], ascii(m.get(k))[:300])
    r = compare(u, m, what)
    if r:
        return r
    ctx.traces += 1
    ctx.outcome("quiet")
    ctx.state(m.rec.key())
    return None


QUIET = OPS_SMALL + [("search", "b=2&a"), ("append", ("a", "1")), ("set", ("a", "2")), ("delete", ("a",)), ("sort", ())]


def judge_self(case, ctx):
    """components assigned the value they have"""
    start, ops, names = case
    u, m = impl.URL(start), model.Url(start)
    done = []
    for op in ops + names:
        k, v = op if isinstance(op, tuple) else (op, None)
        done.append(op)
        if v is None:
            impl_set(u, k, getattr(u, k))
            m.set(k, m.get(k))
        else:
            impl_set(u, k, v)
            m.set(k, v)
        ctx.transitions += 1
        r = compare(u, m, "%s after %s (a name alone: assigned its own value)" % (ascii(start), ascii(done)[:400]))
        if r:
            return r
    ctx.traces += 1
    ctx.outcome("self")
    ctx.state(m.rec.key())
    return None


def c04(tier):
    T = tier == "thorough"

    def own():
        ks = tuple(VALUES)
        for s in STARTS + HIST_STARTS + SHAPES:
            for k in ks:
                yield (s, (), (k,))
            yield (s, (), ks)
            yield (s, (), ks[::-1])
            for op in OPS_SMALL:
                yield (s, (op,), ks)
                yield (s, (op,), ks[::-1])
        for s in STARTS + HIST_STARTS:
            for op in OPS:
                for k in ks:
                    yield (s, (op,), (k,))
            for a, b in product(OPS_SMALL, repeat=2):
                yield (s, (a, b), ks)

    def quiet():
        for early in (False, True):
            for s in STARTS[:: 1 if T else 3]:
                for t in product(OPS, repeat=2):
                    yield (s, t, early)
            for s in STARTS[:: 1 if T else 2] + STARTS_Q:
                for t in product(QUIET, repeat=3):
                    yield (s, t, early)

    def huge():
        for n in S.HUGE:
            for k in VALUES:
                for unit in ("a", "/", "é", "1", "%"):
                    for s in STARTS[0], STARTS[9]:
                        yield (s, ((k, unit * n),))
                        if k == "href":
                            yield (s, ((k, "a:" + unit * n),))

    def repeated():
        small = OPS_SMALL + [("href", "http://h/?a"), ("hostname", "k"), ("pathname", "/q")]
        for a in small:
            for b in small:
                for s in STARTS[:: 1 if T else 4]:
                    yield (s, (a, b) * 12)

    def tours():
        """every assignment once, in 2 x len orders (rotations, both ways)"""
        n = len(OPS)
        for r in range(0, n, 1 if T else 4):
            t = tuple(OPS[r:] + OPS[:r])
            for s in STARTS:
                yield (s, t)
                yield (s, t[::-1])

    def sweep():
        for i in range(0, 0x600 if not T else 0x110000):
            c = chr(i)
            for k in VALUES:
                for s in STARTS[0], STARTS[9]:
                    yield (s, ((k, c),))
                    if k not in ("href", "protocol"):
                        yield (s, ((k, "a" + c + "b"),))
        for c in S.chunks(64, 0x80):
            for k in ("username", "password", "pathname", "search", "hash"):
                yield (STARTS[0], ((k, c),))
                if ord(c[0]) < 0x10000:
                    yield (STARTS[9], ((k, "x" + c),))

    def ports():
        for i in range(65600):
            yield (STARTS[0], (("port", str(i)),))
            if T or i % 16 < 2:
                yield (STARTS[2], (("port", str(i)),))
            if i < 500 or i > 65500:
                for s in STARTS:
                    yield (s, (("host", "h:%d" % i),))
                    yield (s, (("port", str(i)), ("protocol", "https"), ("protocol", "ws")))

    def pumped():
        for n in S.PUMP_QUICK if not T else S.PUMP_LENGTHS:
            for k in VALUES:
                for unit in ("a", "/", "../", "é", ":", "1", "%", "a.", "?", " "):
                    for s in STARTS[0], STARTS[6], STARTS[9], STARTS[15]:
                        yield (s, ((k, unit * n),))

    def confus():
        ops = [(k, f.replace("%s", x)) for x in S.CONFUSABLE for k in VALUES for f in ("%s", "1%s", "%s1", "a%s", "%s:", "g:8%s", "/%s", "C%s/", "[::%s]", "0x%s", "%2%s")]
        return seqs((STARTS[0], STARTS[6], STARTS[9]), ops, 1)

    fams = [
        fam("confusables", confus, judge_hist, "3 starts x 10 components x %d code points that string methods take for ASCII ones, in 11 forms" % len(S.CONFUSABLE)),
        fam("one", lambda: seqs(STARTS, ops1(tier), 1), judge_hist, "%d starts x 10 components x %d long-list values and all pairs of %d tokens" % (len(STARTS), len(_TOK1), len(S.T_MID if T else S.T_SMALL))),
        fam("shapes", lambda: seqs(SHAPES, OPS, 1), judge_hist, "%d URLs of every shape x each of %d assignments" % (len(SHAPES), len(OPS))),
        fam("constants", lambda: seqs((STARTS[0], STARTS[6], STARTS[9], STARTS[15]), const_ops(), 1), judge_hist, "4 starts x 10 components x every constant of the code under test and look-alike code point (%d)" % len(S.CONST)),
        fam("one-more", lambda: seqs((STARTS[0], STARTS[9]), ops1("thorough"), 1), judge_hist, "2 starts x 10 components x all pairs of %d tokens" % len(S.T_MID)),
        fam("two", lambda: seqs(STARTS, OPS, 2, 2), judge_hist, "%d starts x all sequences of 2 of %d assignments" % (len(STARTS), len(OPS))),
        fam("three", lambda: seqs(STARTS, OPS if False else OPS_SMALL, 3, 3), judge_hist, "%d starts x all sequences of 3 of %d assignments" % (len(STARTS), len(OPS_SMALL))),
        fam("repeated", repeated, judge_hist, "every ordered pair of %d assignments repeated 12 times" % (len(OPS_SMALL) + 3)),
        fam("tours", tours, judge_hist, "all %d assignments in one history, rotations in both directions" % len(OPS), bits=1),
        fam("sweep", sweep, judge_hist, "every code point up to U+%X assigned to every component; all others in chunks of 64" % (0x10FFFF if T else 0x5FF)),
        fam("ports", ports, judge_hist, "every port 0..65599 assigned; low and high ones through host and across schemes"),
        fam("quiet", quiet, judge_quiet, "starts x all sequences of 2 of %d assignments and of 3 of %d assignments and mutations of the search parameters, nothing read in between" % (len(OPS), len(QUIET))),
        fam("own", own, judge_self, "%d starts (5 with drive letters that only a file URL has, among them) and URLs of every shape: each component assigned its own value, before and after each assignment; all of them after pairs of assignments" % (len(STARTS) + len(HIST_STARTS))),
        fam("huge", huge, judge_hist, "5 units x %d lengths from %d to %d x 10 components x 2 starts" % (len(S.HUGE), S.HUGE[0], S.HUGE[-1]), bits=0),
        fam("pumped", pumped, judge_hist, "10 units x lengths up to %d x 10 components x 4 starts" % (S.PUMP_LENGTHS[-1] if T else S.PUMP_QUICK[-1])),
    ]
    if T:
        fams.append(fam("four", lambda: seqs(STARTS[::2], OPS_SMALL, 4, 4), judge_hist, "11 starts x all sequences of 4 of %d assignments" % len(OPS_SMALL)))
    return dict(families=fams, validated=VALIDATED, assumptions=[ASSUME_ICU])


# ------------------------------------------------------------------------ C05

STARTS_Q = [
    "http://h/?a=1&b=2&a=3",
    "http://h/",
    "http://h/?#f",
    "a:b  ?a=1#f",
    "a:b  ?a=1",
    "a://h?%61=+&=&&x",
    "file:///C:/x?é=ß",
    "data:x  #f",
    "a:  ?a=1",
]
OPS_Q = [
    ("append", "a", "1"),
    ("append", "é b", "&=+%~"),
    ("append", "", ""),
    ("set", "a", "2"),
    ("set", "c", "\ud800x"),
    ("delete", "a"),
    ("delete", "a", "1"),
    ("delete", "zz"),
    ("delete", ""),
    ("sort",),
    ("search", ""),
    ("search", "?"),
    ("search", "?b=2&a=3&a=1"),
    ("search", "x y'%41"),
    ("hash", ""),
    ("hash", "z"),
    ("pathname", "/n/.."),
    ("protocol", "https"),
    ("host", "g:1"),
    ("href", "http://z/?k=v&k=w"),
    ("href", "a:o  ?q"),
    ("href", "a:o  "),
    ("href", "http://"),
]


def judge_bound(case, ctx):
    start, ops = case
    u, m = impl.URL(start), model.Url(start)
    p = u.search_params
    for n in range(len(ops) + 1):
        what = "%s after %s" % (ascii(start), ascii(ops[:n])[:400])
        if n:
            op = ops[n - 1]
            impl_any(u, p, op)
            model_any(m, op)
            ctx.transitions += 1
        if u.search_params is not p:
            return "%s: search_params is another object" % what
        if list(p) != m.params.list:
            return "%s: the held object lists %s, want %s" % (what, ascii(list(p))[:300], ascii(m.params.list)[:300])
        if u.search != m.get("search") or u.href != m.get("href"):
            return "%s: search %s href %s, want %s %s" % (what, ascii(u.search)[:200], ascii(u.href)[:200], ascii(m.get("search"))[:200], ascii(m.get("href"))[:200])
        if str(p) != str(m.params) or len(p) != len(m.params.list):
            return "%s: string form %s" % (what, ascii(str(p))[:300])
        L = m.params.list
        for name in ("a", "b", "", "k", "é b"):
            if p.get(name) != m.params.get(name) or tuple(p.get_all(name)) != m.params.get_all(name) or p.has(name) != m.params.has(name) or p.has(name, "1") != m.params.has(name, "1"):
                return "%s: the held object answers %s for %s, it lists %s" % (what, ascii((p.get(name), tuple(p.get_all(name)), p.has(name), p.has(name, "1")))[:300], ascii(name), ascii(L)[:300])
        if list(p.keys()) != [x[0] for x in L] or list(p.values()) != [x[1] for x in L] or list(p.entries()) != L or list(p[::-1]) != L[::-1]:
            return "%s: keys, values or entries of %s" % (what, ascii(L)[:300])
        if n and ops[n - 1][0] in ("append", "set", "delete", "sort"):
            if u.search != ("?" + str(p) if len(p) else ""):
                return "%s: search %s is not the serialization %s" % (what, ascii(u.search)[:200], ascii(str(p))[:200])
            if len(p) == 0 and "?" in u.href.partition("#")[0]:
                return "%s: empty list but href %s" % (what, ascii(u.href)[:200])
    ctx.traces += 1
    ctx.outcome("empty" if not len(p) else "pairs")
    ctx.state((m.rec.key(), tuple(m.params.list)))
    return None


def judge_record_bound(case, ctx):
    """the same through a URL record"""
    start, ops = case
    r, m = impl.parse_url(start), model.Url(start)
    p = up.URLSearchParams(r)
    for n in range(len(ops) + 1):
        what = "record of %s after %s" % (ascii(start), ascii(ops[:n])[:400])
        if n:
            op = ops[n - 1]
            getattr(p, op[0])(*op[1:])
            model_any(m, op)
            ctx.transitions += 1
        if list(p) != m.params.list or str(r) != m.get("href"):
            return "%s: %s %s, want %s %s" % (what, ascii(list(p))[:200], ascii(str(r))[:200], ascii(m.params.list)[:200], ascii(m.get("href"))[:200])
    ctx.traces += 1
    ctx.outcome("record")
    ctx.state((m.rec.key(), tuple(m.params.list)))
    return None


def judge_orphan(case, ctx):
    """the URL, or the URL record, that the object is bound to is not kept"""
    start, ops, kind = case
    m = model.Url(start)
    if kind == "url":
        p = impl.URL(start).search_params
    elif kind == "record":
        p = up.URLSearchParams(impl.parse_url(start))
    else:  # attached to one record after another
        r1, r2 = impl.parse_url("http://other/?o=1"), impl.parse_url(start)
        p = up.URLSearchParams(r1)
        p.append("n", "m")
        was = str(r1)
        p.attach(r2)
    for n in range(len(ops) + 1):
        if n:
            getattr(p, ops[n - 1][0])(*ops[n - 1][1:])
            model_any(m, ops[n - 1])
            ctx.transitions += 1
        what = "%s of %s after %s" % (kind, ascii(start), ascii(ops[:n]))
        if list(p) != m.params.list or str(p) != str(m.params):
            return "%s: lists %s, want %s" % (what, ascii(list(p)), ascii(m.params.list))
        if kind == "attached" and (str(r2) != m.get("href") or str(r1) != was):
            return "%s: records %s and %s, want %s and %s" % (what, ascii(str(r2)), ascii(str(r1)), ascii(m.get("href")), ascii(was))
    ctx.traces += 1
    ctx.outcome(kind)
    ctx.state((kind, m.rec.key()))
    return None


def c05(tier):
    T = tier == "thorough"
    small = [OPS_Q[i] for i in (0, 3, 5, 9, 10, 12, 14, 19, 20)]
    ponly = [op for op in OPS_Q if op[0] in ("append", "set", "delete", "sort")]

    def repeated():
        for a in OPS_Q:
            for b in OPS_Q:
                for s in STARTS_Q:
                    yield (s, (a, b) * 8)

    def counts():
        for n in S.PUMP_QUICK:
            if n > 600:
                continue
            for s in STARTS_Q[:4]:
                yield (s, (("append", "a", "1"),) * n + (("set", "a", "x"),))
                yield (s, (("search", "&".join("k%d=%d" % (i % 7, i) for i in range(n))), ("sort",), ("delete", "k3"), ("append", "z", "")))
                yield (s, (("append", "n" * n, "v" * n), ("delete", "n" * n), ("search", "")))

    def sweep():
        for i in range(0x3100 if not T else 0x10000):
            c = chr(i)
            for s in STARTS_Q[1], STARTS_Q[4]:
                yield (s, (("append", c, "x" + c), ("set", "a" + c, c), ("delete", c)))
                yield (s, (("search", c + "=" + c + "&" + c),  ("sort",)))

    def consts():
        for w in S.CONST_WORDS:
            for s in STARTS_Q[0], STARTS_Q[4]:
                yield (s, (("append", w, w), ("set", "a", w), ("delete", w), ("search", w), ("append", "b", w), ("sort",), ("delete", "b", w)))
                yield (s, (("search", "?" + w + "=1&a=" + w), ("set", w, "a"), ("hash", w), ("href", "http://h/" + w + "?" + w), ("delete", w)))

    def own():
        """mutations with the names and values the query has already"""
        toks = ["a", "b", "=", "&", "%61", "+", "%31", "1", "é", "~", "%", " "]
        for q in S.strings(toks, 4 if T else 3):
            pairs = model.form_parse(model.utf8(q))
            ops = {("sort",)}
            for n, v in pairs:
                ops |= {("set", n, v), ("set", n, "z"), ("append", n, v), ("delete", n), ("delete", n, v), ("delete", n, v + "z")}
            for op in sorted(ops):
                yield ("http://h/?" + q, (op,))
                yield ("a:b ?" + q, (op, ("sort",)))

    fams = [
        fam("own", own, judge_bound, "every query of <= %d tokens over 12, in whatever spelling x each mutation with a name and value it has already" % (4 if T else 3)),
        fam("constants", consts, judge_bound, "histories with every constant of the code under test and look-alike code point (%d) as name and value" % len(S.CONST)),
        fam("three" if not T else "four", lambda: seqs(STARTS_Q, OPS_Q, 3), judge_bound, "%d starts x all sequences of <= 3 of %d operations" % (len(STARTS_Q), len(OPS_Q))),
        fam("deep", lambda: seqs(STARTS_Q, small, 5 if T else 4, 4), judge_bound, "%d starts x all sequences of 4%s of %d operations" % (len(STARTS_Q), " and 5" if T else "", len(small))),
        fam("shapes", lambda: seqs(SHAPES, OPS_Q, 1), judge_bound, "%d URLs of every shape x each operation" % len(SHAPES)),
        fam("repeated", repeated, judge_bound, "every ordered pair of operations repeated 8 times"),
        fam("counts", counts, judge_bound, "up to 513 pairs"),
        fam("sweep", sweep, judge_bound, "every code point up to U+%X as name and value" % (0xFFFF if T else 0x30FF)),
        fam("orphans", lambda: ((s, o, k) for s, o in seqs(STARTS_Q, ponly, 2) for k in ("url", "record", "attached")), judge_orphan, "the bound URL or record is dropped, or exchanged for another one: all sequences of <= 2 mutations"),
        fam("records", lambda: seqs(STARTS_Q, ponly, 3 if T else 2), judge_record_bound, "search parameters bound to a URL record: all sequences of <= %d mutations" % (3 if T else 2)),
    ]
    return dict(families=fams, validated=VALIDATED, assumptions=[])


# ------------------------------------------------------------------------ C06

NAMES = ["a", "b", "", "é", "%61", "a b", "\ufb03", "\U0001f308", "\ud800"]
INITS = [
    ("none",),
    ("str", ""),
    ("str", "?a=1&b=2&a=3"),
    ("str", "??a&=x&%61=%&a+b=c%20d=e&&"),
    ("str", "\U0001f308=1&\ufb03=2&a=\ud800&a"),
    ("list", (("b", "2"), ("a", "1"), ("b", "3"), ("a", "1"))),
    ("list", (("a", 1), ("%61", 2.5), ("é", "\udc00"))),
    ("tuple", (("z", ""), ("", "z"), ("a", "&="))),
    ("dict", (("a", "1"), ("\ud800", "2"), ("\udc00", "3"), ("b", 4))),
    ("copy", "b=2&a=1&b=1&é=+"),
]
POPS = [
    ("append", "a", "1"),
    ("append", "b", 2),
    ("append", "", ""),
    ("append", "%61", "%41+&="),
    ("append", "\U0001f308", "\ud800"),
    ("append", "\ufb03", 1.5),
    ("set", "a", "x"),
    ("set", "b", 0),
    ("set", "é", "ß"),
    ("delete", "a"),
    ("delete", "b"),
    ("delete", "a", "1"),
    ("delete", "b", 2),
    ("delete", "b", 0),
    ("delete", "a", ""),
    ("delete", ""),
    ("sort",),
]


class Pair(NamedTuple):
    name: str
    value: str


CONTAINERS = {
    "list subclass": type("L", (list,), {}),
    "tuple subclass": type("T", (tuple,), {}),
    "dict subclass": type("D", (dict,), {}),
    "OrderedDict": OrderedDict,
    "defaultdict": lambda v: defaultdict(str, v),
    "named tuples": lambda v: [Pair(a, b) for a, b in v],
    "strings": lambda v: [(SubStr(a), SubStr(b)) for a, b in v],
    "lists of lists": lambda v: [[a, b] for a, b in v],
    "tuple of lists": lambda v: tuple([a, b] for a, b in v),
}


def build(init):
    """-> (impl object, model object)"""
    P = up.URLSearchParams
    k = init[0]
    if k == "none":
        return P(), model.Params()
    v = init[1]
    if k == "str":
        return P(v), model.Params.from_string(v)
    sc = lambda x: model.scalars(str(x))  # noqa: E731
    if k in ("list", "tuple"):
        obj = [list(x) for x in v] if k == "list" else tuple(v)
        return P(obj), model.Params([(sc(a), sc(b)) for a, b in v])
    if k == "dict":
        d = {}
        for a, b in v:
            d[sc(a)] = sc(b)
        return P(dict(v)), model.Params(list(d.items()))
    if k == "copy":
        return P(P(v)), model.Params.from_string(v)
    if k == "substr":
        return P(SubStr(v)), model.Params.from_string(v)
    if k == "words":  # pairs given as strings of two characters
        return P(list(v)), model.Params([(sc(x[0]), sc(x[1])) for x in v])
    if k == "containers":  # lists, tuples and dicts of the application's own classes
        cls, v = v
        obj = CONTAINERS[cls](v)
        if isinstance(obj, dict):
            return P(obj), model.Params([(sc(a), sc(b)) for a, b in dict(v).items()])
        return P(obj), model.Params([(sc(a), sc(b)) for a, b in v])
    raise KeyError(k)


def queries(p, m, what, names=NAMES):
    L = m.list

    def bad(q, got, want):
        return "%s: %s gives %s, want %s" % (what, q, ascii(got)[:300], ascii(want)[:300])

    for q, got, want in (
        ("list", list(p), L),
        ("len", len(p), len(L)),
        ("str", str(p), model.form_serialize(L)),
        ("+", p + "#x", model.form_serialize(L) + "#x"),
        ("keys", list(p.keys()), [x[0] for x in L]),
        ("values", list(p.values()), [x[1] for x in L]),
        ("entries", list(p.entries()), L),
        ("slice", list(p[1:]), L[1:]),
        ("slice2", list(p[::-2]), L[::-2]),
        ("indexes", [p[i] for i in range(len(L))] + [p[-1 - i] for i in range(len(L))], L + L[::-1]),
    ):
        if got != want:
            return bad(q, got, want)
    for n in names:
        for q, got, want in (
            ("get(%s)" % ascii(n), p.get(n), m.get(n)),
            ("get_all(%s)" % ascii(n), tuple(p.get_all(n)), m.get_all(n)),
            ("has(%s)" % ascii(n), p.has(n), m.has(n)),
            ("%s in" % ascii(n), n in p, m.has(n)),
        ):
            if got != want:
                return bad(q, got, want)
        for v in ("1", "", "x", "2", "\ud800"):
            if p.has(n, v) != m.has(n, v):
                return bad("has(%s, %s)" % (ascii(n), ascii(v)), p.has(n, v), m.has(n, v))
        if p.has(n, None) != m.has(n) or p.has(name=n, value="1") != m.has(n, "1"):
            return bad("has(%s, None)" % ascii(n), p.has(n, None), m.has(n))
        for v in (2, 1.5, 0):
            if p.has(n, v) != m.has(n, str(v)):
                return bad("has(%s, %r)" % (ascii(n), v), p.has(n, v), m.has(n, str(v)))
    same = up.URLSearchParams([list(x) for x in L])
    other = up.URLSearchParams([list(x) for x in L] + [["q", "q"]])
    if not (p == same) or (p != same) or p == other or not (p != other) or p == str(p) or (p == L):
        return bad("equality", (p == same, p == other), (True, False))
    if list(p) != L or str(p) != model.form_serialize(L):
        return "%s: a query changed the list" % what
    return None


def judge_params(case, ctx):
    init, ops = case
    p, m = build(init)
    for n in range(len(ops) + 1):
        what = "%s after %s" % (ascii(init), ascii(ops[:n])[:400])
        if n:
            op = ops[n - 1]
            r = getattr(p, op[0])(*op[1:])
            if r is not None:
                return "%s: %s returns %r" % (what, op[0], r)
            getattr(m, op[0])(*[str(x) for x in op[1:]])
            ctx.transitions += 1
        if n == len(ops) or len(ops) < 3:
            r = queries(p, m, what)
            if r:
                return r
        elif list(p) != m.list or str(p) != str(m) or p.get("a") != m.get("a") or tuple(p.get_all("b")) != m.get_all("b") or p.has("", "") != m.has("", "") or p.has("a") != m.has("a"):
            return "%s: lists %s, want %s" % (what, ascii(list(p))[:300], ascii(m.list)[:300])
    ctx.traces += 1
    ctx.state(tuple(m.list))
    ctx.outcome("empty" if not m.list else "pairs")
    return None


def judge_sort(names, ctx):
    """stable sort by code units: values record the original positions"""
    pairs = [(n, str(i)) for i, n in enumerate(names)]
    p, m = up.URLSearchParams([list(x) for x in pairs]), model.Params([(model.scalars(a), b) for a, b in pairs])
    p.sort()
    m.sort()
    ctx.traces += 1
    ctx.transitions += 1
    ctx.outcome("sorted")
    ctx.state(tuple(m.list))
    if list(p) != m.list:
        return "sort of %s: %s, want %s" % (ascii(names)[:300], ascii(list(p))[:300], ascii(m.list)[:300])
    p.sort()
    if list(p) != m.list:
        return "sorting twice %s" % ascii(names)[:300]
    return None


def c06(tier):
    T = tier == "thorough"

    def hist():
        yield from ((i, t) for n in range(0, 4) for t in product(POPS, repeat=n) for i in (INITS if n < 3 or T else INITS[2::3]))

    def deep():
        sub = [POPS[i] for i in (0, 1, 3, 6, 9, 11, 16)]
        yield from ((i, t) for t in product(sub, repeat=5 if T else 4) for i in (INITS if T else INITS[1:6:2]))

    def sorts():
        al = ["a", "b", "", "ab", "\ufb03", "\U0001f308", "\ud800", "\uffff", "\ue000", "é", "\U00010000", "\U0010ffff"]
        for n in range(0, 4):
            yield from (list(t) for t in product(al, repeat=n))
        for n in range(4, 7 if not T else 8):
            yield from (list(t) for t in product(["a", "b", "\U0001f308", "\uff5e"], repeat=n))
        for n in S.PUMP_LENGTHS:
            if n <= (600 if not T else 2100):
                yield [al[(i * 7 + i // 5) % len(al)] for i in range(n)]
                yield [al[(n - i) % 5] for i in range(n)]
        # names that differ only after a common prefix
        tails = ["", "a", "b", "\U0001f308", "\uff5e", "\ud800"]
        for n in S.PUMP_LENGTHS if T else S.PUMP_QUICK:
            for c in ("a", "\xe9", "\u4e2d", "\U0001f308"):
                yield [c * n + t for t in tails]
                yield [c * n + t for t in tails[::-1]]
                yield [c * n + "c", c * n + "b" + c * n, c * n + "b"]

    def inits():
        for s in S.strings(["a", "b", "=", "&", "+", "%", "%61", "?", "é", "\ud800", "%C3", "%A9", "#", " "], 4 if not T else 5):
            yield (("str", s), ())
        for s in S.strings(["a", "é", "%61", "&", "=", "+", "?", "\udc00", ""], 2):
            for v in ["", "1", s, 0, 1.5, -1, 0.0, 10**20, 1e300, "\ud83c\udf08"]:
                yield (("list", ((s, v), ("a", "z"), (s, v))), ())
                yield (("list", ((s, v), ("a", v), (s, "w"))), (("delete", "a", v), ("delete", s, v)))
                yield (("dict", ((s, v), ("a", "z"))), ())
                yield (("tuple", ((s, v),)), (("append", s, v), ("set", s, "q")))
        for c in S.code_points(0, 0x3100 if not T else 0x110000):
            yield (("list", ((c, c), ("a" + c, c + "b"))), (("append", c, c), ("delete", c)))
            yield (("str", c + "=" + c), (("set", c, "1"),))

    def containers():
        vals = [(), (("a", "1"),), (("b", "2"), ("a", "1")), (("a", "1"), ("c", ""), ("é", "%61+")), (("\ud83c\udf08", "\ud800"), ("", "x"))]
        for k in CONTAINERS:
            for v in vals:
                yield (("containers", (k, v)), ())
                for op in POPS:
                    yield (("containers", (k, v)), (op,))
        for t in S.strings(["a", "b", "=", "é"], 4):
            if len(t) % 2 == 0:
                yield (("words", tuple(t[i : i + 2] for i in range(0, len(t), 2))), ())
        for v in ("", "?a=1&b=2", "a", "%61=é&?"):
            for op in POPS:
                yield (("substr", v), (op,))

    def many():
        for n in S.PUMP_QUICK:
            if n > 600:
                continue
            ps = tuple((NAMES[i % len(NAMES)], str(i)) for i in range(n))
            for op in POPS:
                yield (("list", ps), (op,))
            yield (("str", "&".join("a=%d" % i for i in range(n))), (("set", "a", "1"), ("append", "a", "1"), ("delete", "a", "1")))
            yield (("list", (("a" * n, "b" * n),)), (("append", "a" * n, "é" * n), ("sort",), ("delete", "a" * n)))

    def consts():
        for w in S.CONST_WORDS:
            yield (("list", ((w, w), ("a", w), (w, "a"))), (("append", w, "a"), ("delete", w, "a"), ("set", "a", w), ("sort",), ("set", w, "b"), ("delete", w)))
            yield (("dict", ((w, w), ("a" + w, "b"))), (("set", w, w), ("delete", "a" + w)))
            for f in ("%s", "%s=%s", "a=%s&%s", "?%s=b", "a%s&=%s"):
                yield (("str", f.replace("%s", w)), ())

    fams = [
        fam("constants", consts, judge_params, "every constant of the code under test and look-alike code point (%d) as name, value and query" % len(S.CONST)),
        fam("histories", hist, judge_params, "10 initial values x all sequences of <= 2 (3: %s) of %d operations, all queries after each" % ("all" if T else "3 initial values", len(POPS))),
        fam("deep", deep, judge_params, "all sequences of %d of 7 operations" % (5 if T else 4)),
        fam("sort", sorts, judge_sort, "all name sequences of <= 3 over 12 names, <= %d over 4, and lists up to 2049" % (7 if T else 6)),
        fam("constructors", inits, judge_params, "strings of <= %d tokens over 14; pairs and mappings; every code point up to U+%X" % (5 if T else 4, 0x10FFFF if T else 0x30FF)),
        fam("containers", containers, judge_params, "pairs given in %d kinds of containers, as two-character strings, as instances of a subclass of str" % len(CONTAINERS)),
        fam("many", many, judge_params, "lists of up to 513 pairs x every operation"),
    ]
    return dict(families=fams, validated=VALIDATED, assumptions=[])
