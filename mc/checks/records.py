"""C25, C26: domain conversions; the low-level parser and records."""

from __future__ import annotations

from itertools import product

from .. import impl, model
from .. import spaces as S
from . import histories as H
from .codecs import encoder
from .common import ASSUME_ICU, BASES_CORE, VALIDATED, absolute_spaces, fam, relative_spaces
from .hosts import LABELS
from .parsing import BUILT_FIELDS

up = impl.up

# ------------------------------------------------------------------------ C25


def conv(f, s, strict):
    """-> text | None: refused"""
    try:
        return f(s, strict)
    except impl.URLParseError:
        return None


def judge_convert(s, ctx):
    ctx.traces += 1
    A, U = up.IDNA.domain_to_ascii, up.IDNA.domain_to_unicode
    got = {}
    for strict in (False, True):
        a = got[strict] = conv(A, s, strict)
        ctx.transitions += 2
        ctx.state((strict, a))
        ctx.outcome("refused" if a is None else "same" if a == s else "converted")
        try:
            want = model.Idna.to_ascii(model.scalars(s), strict)
        except model.Failure:
            want = None
        if a != want:
            return "domain_to_ascii(%s, %s): %s, UTS #46 says %s" % (ascii(s)[:300], strict, ascii(a)[:300], ascii(want)[:300])
        u = conv(U, s, strict)
        want, err = model.Idna.to_unicode(model.scalars(s), strict)
        if u != want and not (err and not want and s):
            return "domain_to_unicode(%s, %s): %s, UTS #46 says %s" % (ascii(s)[:300], strict, ascii(u)[:300], ascii(want)[:300])
        if a is None:
            continue
        facts = (
            ("the ASCII form is not ASCII", a.isascii(), True),
            ("the ASCII form's ASCII form", conv(A, a, strict), a),
            ("the ASCII form's Unicode form", conv(U, a, strict), u),
            ("the Unicode form's Unicode form", conv(U, u, strict), u),
            ("the Unicode form's ASCII form", conv(A, u, strict), a),
        )
        ctx.transitions += 4
        for what, x, y in facts:
            if x != y:
                return "%s (strict %s, ASCII %s, Unicode %s): %s: %s" % (ascii(s)[:300], strict, ascii(a)[:300], ascii(u)[:300], what, ascii(x)[:300])
    if got[True] is not None and got[True] != got[False]:
        return "%s: strict %s, not strict %s" % (ascii(s)[:300], ascii(got[True])[:300], ascii(got[False])[:300])
    return None


def c25(tier):
    T = tier == "thorough"

    def labels():
        for a in LABELS:
            for b in LABELS:
                for sep in (".", "。", "-"):
                    yield a + sep + b
                yield a + "." + b + "."
                if T:
                    for c in LABELS:
                        yield a + "." + b + "." + c

    def points():
        for c in S.code_points(0, 0x110000 if T else 0x20000):
            yield c
            yield "a" + c + "b"
            if T or ord(c) < 0x3100:
                yield c + "." + c
                yield "\u05d0" + c
                yield "\u094d" + c
                yield c + "1"

    def pairs():
        for a, b in product(S.CONFUSABLE, repeat=2):
            yield a + b
            yield "x" + a + "." + b

    def lengths():
        for n in S.PUMP_LENGTHS if T else S.PUMP_QUICK:
            for u in ("a", "a.", "é", ".", "日", "ß.", "aaaaaaaaa.", "-", "xn--", "XN--A"):
                yield u * n
                yield u * n + "b"
                yield "é." + u * n

    def punycode():
        # what a label decodes to, and what no label decodes to
        for s in S.strings(list("a0-zé9"), 5 if T else 4):
            yield "xn--" + s
            yield "Xn--" + s + ".a"
        for c in S.code_points(0x80, 0x30000 if T else 0x3100):
            for w in (c, "a" + c, c + c):
                try:
                    yield "xn--" + w.encode("punycode").decode("ascii")
                except UnicodeError:
                    pass

    return dict(
        families=[
            fam("tokens", lambda: S.strings(S.DOMAIN_TOKENS, 3 if T else 2), judge_convert, "domains of <= %d tokens over %d" % (3 if T else 2, len(S.DOMAIN_TOKENS))),
            fam("constants", S.const_hosts, judge_convert, "every constant of the code under test and look-alike code point (%d) in 13 frames" % len(S.CONST)),
            fam("labels", labels, judge_convert, "%s of %d labels" % ("triples" if T else "pairs", len(LABELS))),
            fam("pairs", pairs, judge_convert, "pairs of %d look-alike code points" % len(S.CONFUSABLE)),
            fam("code-points", points, judge_convert, "every code point up to U+%X alone and inside a label" % (0x10FFFF if T else 0x1FFFF)),
            fam("punycode", punycode, judge_convert, "all suffixes of <= %d characters over 6 after the prefix, the prefix and what every code point up to U+%X encodes to" % (5 if T else 4, 0x2FFFF if T else 0x30FF)),
            fam("lengths", lengths, judge_convert, "10 units repeated up to %d times" % (S.PUMP_LENGTHS if T else S.PUMP_QUICK)[-1]),
        ],
        validated="each conversion is executed on urlstd and compared with the model's; the laws are evaluated on urlstd's own results",
        assumptions=[ASSUME_ICU],
    )


# ------------------------------------------------------------------------ C26

STATE = {
    "scheme start": up.URLParserState.SCHEME_START_STATE,
    "host": up.URLParserState.HOST_STATE,
    "hostname": up.URLParserState.HOSTNAME_STATE,
    "port": up.URLParserState.PORT_STATE,
    "path start": up.URLParserState.PATH_START_STATE,
    "query": up.URLParserState.QUERY_STATE,
    "fragment": up.URLParserState.FRAGMENT_STATE,
}


def answers(r):
    """what a record says about itself"""
    o = r.origin
    return (
        bool(r.is_special()),
        bool(r.is_not_special()),
        bool(r.includes_credentials()),
        bool(r.has_opaque_path()),
        bool(r.cannot_have_username_password_port()),
        r.serialize_url(),
        r.serialize_url(exclude_fragment=True),
        r.serialize_host(),
        r.serialize_path(),
        r.href,
        str(r),
        None if o is None else (o.scheme, impl.host_key(o.host), o.port, o.domain),
    )


def model_answers(m):
    o = m.origin()
    return (
        m.special(),
        not m.special(),
        m.creds(),
        m.opaque(),
        m.no_upp(),
        m.href(),
        m.href(True),
        "" if m.host is None else model.host_serialize(m.host),
        m.pathname(),
        m.href(),
        m.href(),
        None if o is None else o + (None,),
    )


NAMES = ("is_special", "is_not_special", "includes_credentials", "has_opaque_path", "cannot_have_username_password_port", "serialize_url()", "serialize_url(True)", "serialize_host", "serialize_path", "href", "str", "origin")


def differs(r, m, what):
    if impl.rec_key(r) != m.key():
        return "%s: %s, the standard says %s" % (what, ascii(impl.rec_key(r))[:400], ascii(m.key())[:400])
    for n, x, y in zip(NAMES, answers(r), model_answers(m)):
        if x != y:
            return "%s: %s gives %s, want %s" % (what, n, ascii(x)[:300], ascii(y)[:300])
    if impl.rec_key(r) != m.key():
        return "%s: asking changed the record to %s" % (what, ascii(impl.rec_key(r))[:400])
    return None


def judge_roads(case, ctx):
    """one URL by every road"""
    s, base = case
    what = "%s against %s" % (ascii(s)[:300], ascii(base))
    ctx.traces += 1
    try:
        m = model.parse_with_base(s, base)
    except model.Failure:
        m = None
    bases = [("a string", base)]
    if base is not None:
        try:
            bases.append(("a record", impl.parse_url(base)))
        except impl.URLParseError:
            return None
    roads = [
        ("parse_url, base %s" % n, lambda b=b: impl.parse_url(s, b)) for n, b in bases
    ] + [
        ("parse_url, base by name", lambda: impl.parse_url(urlstring=s, base=base)),
        ("BasicURLParser", lambda: up.BasicURLParser.parse(s, bases[-1][1])),
        ("BasicURLParser with an empty record", lambda: up.BasicURLParser.parse(s, base=bases[-1][1], url=None, state_override=None)),
    ]
    for n, f in roads:
        ctx.transitions += 1
        try:
            r = f()
        except impl.URLParseError as e:
            if m is not None:
                return "%s by %s: refused (%s)" % (what, n, ascii(str(e))[:200])
            continue
        if m is None:
            return "%s by %s: accepted, the standard refuses it" % (what, n)
        x = differs(r, m, "%s by %s" % (what, n))
        if x:
            return x
    if m is not None:
        ctx.state(m.key())
        u = impl.URL(s, base)
        if (u.href, u.pathname, u.hostname) != (m.href(), m.pathname(), "" if m.host is None else model.host_serialize(m.host)):
            return "%s: the URL object says %s" % (what, ascii(impl.snapshot(u))[:400])
    ctx.outcome("parsed" if m is not None else "refused")
    return None


def run_override(r, state, v, label, model_side):
    """what the standard's setters do to a record; -> returned record"""
    opaque = r.opaque() if model_side else isinstance(r.path, str)
    upp = r.no_upp() if model_side else (r.host is None or r.host == "" or r.scheme == "file")
    if state in ("host", "hostname", "path start") and opaque:
        return r
    if state == "port" and upp:
        return r
    if state == "path start":
        r.path = []
    elif state == "query":
        r.query = ""
    elif state == "fragment":
        r.fragment = ""
    elif state == "scheme start":
        v += ":"
    if model_side:
        return model.parse(model.scalars(v), url=r, override=state, encoding=encoder(label) if label else None)
    kw = {"encoding": label} if label else {}
    return up.BasicURLParser.parse(v, url=r, state_override=STATE[state], **kw)


def judge_override(case, ctx):
    start, ops = case
    r, m = impl.parse_url(start), model.parse(model.scalars(start))
    for n, (state, v, label) in enumerate(ops):
        before = impl.rec_key(r)
        raised, same = False, True
        try:
            same = run_override(r, state, v, label, False) is r
        except impl.URLParseError:
            raised = True
        try:
            run_override(m, state, v, label, True)
            ok = True
        except model.Failure:
            ok = False
        ctx.transitions += 1
        ctx.outcome("run" if ok else "refused")
        what = "%s after %s" % (ascii(start), ascii(ops[: n + 1])[:300])
        x = differs(r, m, what)
        if x:
            return x
        if not same:
            return "%s: another record is returned" % what
        if raised and ok and impl.rec_key(r) != before:
            return "%s: raised although the standard accepts it" % what
        ctx.state(m.key())
    ctx.traces += 1
    return None


def build(x):
    """-> record, model record"""
    scheme, (user, password), host, port, path, query, fragment = x
    m = model.Rec()
    m.scheme, m.username, m.password, m.host, m.port = scheme, user, password, host, port
    m.path = path if isinstance(path, str) else list(path)
    m.query, m.fragment = query, fragment
    r = up.URLRecord(scheme=scheme, username=user, password=password, host=host, port=port, query=query, fragment=fragment)
    if path != ():
        r.path = path if isinstance(path, str) else list(path)
    return r, m


def judge_built(x, ctx):
    r, m = build(x)
    ctx.traces += 1
    ctx.state(m.key())
    ctx.outcome("built")
    ctx.transitions += 12
    return differs(r, m, "a record built from %r" % (x,))


def put(k, v):
    def f(r):
        setattr(r, k, list(v) if isinstance(v, tuple) and k == "path" else v)

    return "%s = %r" % (k, v), f


def in_place(name, f):
    """an edit of the path's list, if it is one"""
    return "path.%s" % name, lambda r: f(r.path) if isinstance(r.path, list) else None


EDITS = (
    [put("scheme", v) for v in ("a", "http", "file", "blob")]
    + [put("username", v) for v in ("", "n")]
    + [put("password", v) for v in ("", "w")]
    + [put("host", v) for v in (None, "", "i", 0x01020304, (0, 0, 0, 0, 0, 0, 0, 1))]
    + [put("port", v) for v in (None, 0, 9)]
    + [put("path", v) for v in ((), ("",), ("m", "n"), "o", "http://k:1/")]
    + [put("query", v) for v in (None, "", "r")]
    + [put("fragment", v) for v in (None, "", "g")]
    + [
        in_place("append", lambda p: p.append("z")),
        in_place("insert", lambda p: p.insert(0, "")),
        in_place("pop", lambda p: p and p.pop()),
        in_place("clear", lambda p: p.clear()),
        in_place("replace", lambda p: p and p.__setitem__(-1, "y" * len(p[-1]))),
        in_place("reverse", lambda p: p.reverse()),
    ]
)


TWICE = [
    ("http", ("u", "p"), "h", 8, ("a", "b"), "q", "f"),
    ("a", ("", ""), None, None, ("", "a"), None, None),
    ("a", ("", ""), None, None, "b", "q", "f"),
    ("file", ("", ""), "", None, ("C:", "x"), None, "f"),
    ("blob", ("", ""), None, None, "http://h:8/", None, None),
]


def judge_edited(case, ctx):
    """a record is asked, edited, asked again"""
    x, edits = case
    r, m = build(x)
    names = []
    for i in (None,) + edits:
        if i is not None:
            n, f = EDITS[i]
            f(r)
            f(m)
            names.append(n)
        d = differs(r, m, "a record built from %r%s" % (x, names and ", asked, after " + "; ".join(names) or ""))
        ctx.transitions += 13
        if d:
            return d
        ctx.state(m.key())
    ctx.outcome("edited")
    ctx.traces += 1
    return None


REFS = ("", "#g", "?r", "x", "./y", "/z", "//k", "a:w", "http:v", "file:t", "C|/", "..", "\\\\j")


def judge_built_base(x, ctx):
    """a record as base, whatever its fields hold: they are copied, not
    parsed again, and the base stays as it was"""
    r, m = build(x)
    for ref in REFS:
        what = "%s against a record built from %r" % (ascii(ref), x)
        ctx.transitions += 1
        try:
            want = model.parse(ref, base=m)
        except model.Failure:
            want = None
        try:
            got = impl.parse_url(ref, r)
        except impl.URLParseError:
            got = None
        if (got is None) != (want is None):
            return "%s: %s, the standard says %s" % (what, got, want and ascii(want.key()))
        if got is None:
            ctx.outcome("refused")
            continue
        ctx.outcome("parsed")
        ctx.state(want.key())
        if impl.rec_key(got) != want.key():
            return "%s: %s, the standard says %s" % (what, ascii(impl.rec_key(got))[:400], ascii(want.key())[:400])
        if isinstance(got.path, list):
            got.path.append("own")
        if impl.rec_key(r) != m.key():
            return "%s: the base has become %s" % (what, ascii(impl.rec_key(r))[:400])
    ctx.traces += 1
    return None


SETS = {"protocol": "scheme start", "host": "host", "hostname": "hostname", "port": "port", "pathname": "path start", "search": "query", "hash": "fragment"}
OPS = [(SETS[k], v, None) for k, v in H.OPS if k in SETS and (k != "port" or v)] + [("query", v, lab) for v in ("é中", "a", "'#") for lab in ("windows-1252", "UTF-16LE", "shift_jis")]
SMALL = [(SETS[k], v, None) for k, v in H.OPS_SMALL if k in SETS and (k != "port" or v)] + [("query", "é", "windows-1252")]


def c26(tier):
    T = tier == "thorough"
    fields = [("a", "http", "file", "blob", "ws", "")] + list(BUILT_FIELDS[1:])
    fields[1] = fields[1] + (("", "p"),)
    bases = [("a", "http", "file"), (("", ""), ("u", "p")), (None, "", "h", 0x01020304, (0, 0, 0, 0, 0, 0, 0, 1)), (None, 8), ((), ("",), ("a",), ("a b", "é"), ("C:", "x"), ("", "a"), "", "a b", "é?", "/p"), (None, "", "q é"), (None, "f")]
    fields[4] = fields[4] + ("http://h:8/", "https://u@h/x", ("http:", "", "h"), "a:b")

    def absolute():
        for n, g, b in absolute_spaces(tier):
            for i, s in enumerate(g()):
                if T or n == "shapes" or i % 11 == 0:
                    yield (s, None)

    def relative():
        for n, g, b in relative_spaces(tier):
            for i, x in enumerate(g()):
                if x[1] is not None and (T or n == "shapes" or i % 11 == 0):
                    yield x

    def words():
        for s in S.strings(S.T_SMALL, 3 if T else 2):
            for b in BASES_CORE:
                yield (s, b)
        for s in S.SEEDS:
            yield (s, None)
            for b in BASES_CORE:
                yield (s, b)

    def one():
        toks = S.T_EDIT
        for start in H.STARTS + H.SHAPES:
            for op in OPS:
                yield (start, (op,))
        for start in H.STARTS:
            for st in STATE:
                for a in toks:
                    if a or st != "port":
                        yield (start, ((st, a, None),))
                for w in S.CONST_WORDS:
                    yield (start, ((st, w, None),))
        for start in H.STARTS[:: 1 if T else 3]:
            for a, b in product(S.T_SMALL, repeat=2):
                for st in STATE:
                    yield (start, ((st, a + b, None),))

    def edited():
        for x in TWICE:
            for t in product(range(len(EDITS)), repeat=2):
                yield (x, t)
        for i, x in enumerate(product(*bases)):
            if T or i % 5 == 0:
                for a in range(len(EDITS)):
                    yield (x, (a,))

    def two():
        for start in H.STARTS:
            for a, b in product(OPS if T else SMALL, repeat=2):
                yield (start, (a, b))
        for start in H.STARTS[::2]:
            for t in product(SMALL[:: 1 if T else 2], repeat=3):
                yield (start, t)

    return dict(
        families=[
            fam("words", words, judge_roads, "all references of <= %d tokens over %d and rich URLs x %d bases, by 4 to 5 roads" % (3 if T else 2, len(S.T_SMALL), len(BASES_CORE))),
            fam("absolute", absolute, judge_roads, "%s of C01's spaces" % ("all" if T else "every 11th member")),
            fam("relative", relative, judge_roads, "%s of C02's spaces" % ("all" if T else "every 11th member")),
            fam("one-override", one, judge_override, "records of every shape x every override with values, tokens and constants"),
            fam("two-overrides", two, judge_override, "all sequences of two of %d overrides, of three of %d" % (len(OPS if T else SMALL), len(SMALL[:: 1 if T else 2]))),
            fam("built", lambda: product(*fields), judge_built, "records built field by field: every predicate and serializer"),
            fam("edited", edited, judge_edited, "records built field by field and parsed-like ones: asked, one of %d edits (fields assigned, the path changed in place), asked again; pairs of edits for %d records" % (len(EDITS), len(TWICE))),
            fam("built-bases", lambda: (x for x in product(*bases) if x[0] == "a" or not isinstance(x[4], str)), judge_built_base, "records built field by field as bases of %d references" % len(REFS)),
        ],
        validated=VALIDATED,
        assumptions=[ASSUME_ICU],
    )
