from __future__ import annotations

from .. import impl, model
from .. import spaces as S
from ..engine import Family

FAIL = impl.FAIL

VALIDATED = (
    "every case is executed on the reference model and on urlstd imported from "
    "/repo/src, and all observables are compared after every step"
)
ASSUME_ICU = (
    "ICU's UTS #46 tables (icupy) are the trusted environment function shared "
    "by model and implementation"
)


def model_url_outcome(s, base=None):
    try:
        m = model.Url(s, base)
    except model.Failure:
        return FAIL
    return ("ok", m.snapshot(), tuple(m.params.list))


def diff(what, got, want):
    """Human-readable first difference of two outcomes."""
    if got[0] == "ok" and want[0] == "ok":
        for i, k in enumerate(impl.GETTERS):
            if got[1][i] != want[1][i]:
                return "%s: %s is %s, the standard says %s" % (
                    what,
                    k,
                    ascii(got[1][i])[:400],
                    ascii(want[1][i])[:400],
                )
        return "%s: search_params lists %s, the standard says %s" % (
            what,
            ascii(got[2])[:400],
            ascii(want[2])[:400],
        )
    return "%s: outcome %s, the standard says %s" % (
        what,
        ascii(got)[:400],
        ascii(want)[:400],
    )


def judge_absolute(s, ctx):
    want = model_url_outcome(s)
    got = impl.url_outcome(s)
    ctx.traces += 1
    ctx.state(want)
    ctx.outcome(want[0])
    if got != want:
        return diff("URL(%s)" % ascii(s)[:300], got, want)
    return None


_bases = {}


def base_of(b):
    """-> (model record or None, URL object or None, URL record or None);
    the objects are kept for the life of the worker."""
    t = _bases.get(b)
    if t is None:
        try:
            m = model.parse(b)
        except model.Failure:
            m = None
        try:
            o, r = impl.URL(b), impl.parse_url(b)
        except impl.URLParseError:
            o = r = None
        t = _bases[b] = (m, o, r)
    return t


class _UrlFromRec(model.Url):
    def __init__(self, rec):
        self.rec = rec
        self.params = model.Params(
            model.form_parse(model.utf8(rec.query or "")), self
        )


def model_relative(s, b):
    m = base_of(b)[0]
    if m is None:
        return FAIL
    try:
        r = model.parse(s, m)
    except model.Failure:
        return FAIL
    u = _UrlFromRec(r)
    return ("ok", u.snapshot(), tuple(u.params.list))


class SubURL(impl.URL):
    """an application's own URL class"""


class SubStr(str):
    """an application's own string class"""


def judge_subclasses(case, ctx):
    """instances of subclasses of str and URL are taken like str and URL"""
    s, b = case
    want = model_relative(s, b) if b is not None else model_url_outcome(s)
    ctx.traces += 1
    ctx.state(want)
    ctx.outcome(want[0])
    o = base_of(b)[1] if b is not None else None
    forms = [("URL(subclass of str, subclass of str)", SubStr(s), b if b is None else SubStr(b), impl.URL)]
    forms.append(("subclass of URL", s, b, SubURL))
    if o is not None:
        forms.append(("URL(_, subclass of URL)", s, SubURL(b), impl.URL))
    for what, x, y, cls in forms:
        try:
            u = cls(x, y)
            got = ("ok", impl.snapshot(u), impl.pairs(u))
        except impl.URLParseError:
            got = FAIL
        ctx.transitions += 1
        if got != want:
            return diff("%s (%s, %s)" % (what, ascii(s), ascii(b)), got, want)
        if impl.URL.can_parse(x, y) is not (want != FAIL):
            return "can_parse, %s: %s, %s" % (what, ascii(s), ascii(b))
    if want != FAIL:
        u, v = SubURL(s, b), impl.URL(SubStr(s), b)
        if not (u == v) or not (v == u) or u != v or not v.equals(u, True):
            return "%s, %s: an instance of a subclass does not compare equal" % (ascii(s), ascii(b))
    return None


def judge_relative(case, ctx, forms=True):
    s, b = case
    want = model_relative(s, b)
    got = impl.url_outcome(s, b)
    ctx.traces += 1
    ctx.state(want)
    ctx.outcome(want[0])
    if got != want:
        return diff("URL(%s, %s)" % (ascii(s)[:300], ascii(b)), got, want)
    if forms:
        _, o, r = base_of(b)
        if o is not None:
            got = impl.url_outcome(s, o)
            if got != want:
                return diff(
                    "URL(%s, URL(%s))" % (ascii(s)[:300], ascii(b)), got, want
                )
            rec = impl.parse_outcome(s, r)
            w = FAIL if want == FAIL else want[1][0]
            g = rec[2] if rec[0] == "ok" else rec
            if g != w:
                return "parse_url(%s, record of %s): %s, the standard says %s" % (
                    ascii(s)[:300],
                    ascii(b),
                    ascii(g)[:300],
                    ascii(w)[:300],
                )
    return None


def judge_relative1(case, ctx):
    return judge_relative(case, ctx, False)


BASES = [
    "http://u:p@h:8/a/b/c?q#f",
    "http://h",
    "https://[::1]/x//y",
    "ws://h:81/p/q?r",
    "wss://h/",
    "ftp://f@h/d/e;p",
    "file:///",
    "file:///x/y?q#f",
    "file:///C:/d/e?q#f",
    "file:///C:",
    "file://h/C:/d",
    "file://h/x/y/",
    "a://u:p@h:9/a/b?q#f",
    "a://h",
    "a://",
    "a:///x/y",
    "a:/x/y/z",
    "a:/.//x/y",
    "a:b",
    "a:b?q#f",
    "data:a  b  #f",
    "about:blank",
    "blob:http://h/x",
    "http://1.2.3.4:0/",
]
BASES_CORE = [
    "http://u:p@h:8/a/b/c?q#f",
    "file:///C:/d/e?q#f",
    "file://h/x/y/",
    "a://u:p@h:9/a/b?q#f",
    "a:/.//x/y",
    "a:b?q#f",
]
BAD_BASES = ["", "h", "http://", "//h", "http://[", "a"]


def fam(name, gen, judge, bounds, **kw):
    return Family(name, gen, judge, bounds, **kw)


def chain(*gens):
    def gen():
        for g in gens:
            yield from g()

    return gen


def absolute_spaces(tier, light=False):
    """[(name, gen of strings, bounds)] that together cover every parser state,
    code point, port, host grammar and length family."""
    T = tier == "thorough"
    light = light and not T
    edit_tokens = S.T_MID if light else S.T_EDIT
    bmp_slots = S.SLOTS[0:4:3] if light else S.SLOTS
    k3 = S.T_MID if T else S.T_SMALL
    k4 = S.T_SMALL if T else S.T_MIN
    c3 = S.CTX if T else S.CTX_CORE
    lens = S.PUMP_LENGTHS if T else S.PUMP_QUICK
    out = [
        (
            "shapes",
            S.shapes,
            "every presence, absence and emptiness of the components for every scheme class (%d URLs)" % len(S.shapes()),
        ),
        (
            "constants",
            S.const_urls,
            "every constant of the code under test and look-alike code point (%d) in %d contexts, and inserted at every position of %d rich URLs"
            % (len(S.CONST), len(S.CTX), len(S.CONST_SEEDS)),
        ),
        (
            "confusables",
            lambda: S.confusable_urls(S.CONST_SEEDS if light else S.SEEDS),
            "%d code points that string methods take for ASCII ones: 7 forms in %d contexts, and inserted and put at every position of %d rich URLs"
            % (len(S.CONFUSABLE), len(S.CTX), len(S.CONST_SEEDS if light else S.SEEDS)),
        ),
        (
            "ascii1",
            lambda: S.in_context(S.CTX, S.T_EDIT, 1),
            "each of %d contexts followed by every single token of %d (all of ASCII included)"
            % (len(S.CTX), len(S.T_EDIT)),
        ),
        (
            "tokens2",
            lambda: S.in_context(S.CTX, S.T_MID, 2, 2),
            "each of %d contexts followed by every string of 2 tokens over %d"
            % (len(S.CTX), len(S.T_MID)),
        ),
        (
            "tokens3",
            lambda: S.in_context(c3, k3, 3, 3),
            "each of %d contexts followed by every string of 3 tokens over %d"
            % (len(c3), len(k3)),
        ),
        (
            "tokens4",
            lambda: S.in_context(S.CTX_CORE, k4, 4, 4),
            "each of %d contexts followed by every string of 4 tokens over %d"
            % (len(S.CTX_CORE), len(k4)),
        ),
        (
            "edits",
            lambda: S.edits(S.SEEDS, edit_tokens),
            "every single edit (insert, replace, delete, cut) of %d rich URLs with %d tokens"
            % (len(S.SEEDS), len(edit_tokens)),
        ),
        (
            "splices",
            lambda: S.swaps(S.SEEDS if T else S.SEEDS[::3]),
            "every prefix of one rich URL followed by every suffix of another",
        ),
        (
            "codepoints",
            lambda: S.filled(
                S.SLOTS, S.code_points(0, 0x110000 if T else 0x600 if light else 0x3100)
            ),
            "every code point up to U+%X alone in every component of %d templates"
            % (0x10FFFF if T else 0x5FF if light else 0x30FF, len(S.SLOTS)),
        ),
        (
            "codepoint-chunks",
            lambda: (
                x
                for g in (
                    S.filled(bmp_slots, S.chunks(128, 0, 0x10000)),
                    S.filled(
                        S.SLOTS if T else [] if light else S.SLOTS[2:3],
                        S.chunks(128, 0x10000),
                    ),
                )
                for x in g
            ),
            "all scalar values, in chunks of 128, in every component of %d (BMP) and %d (other planes) templates"
            % (len(bmp_slots), len(S.SLOTS) if T else 0 if light else 1),
        ),
        (
            "host-codepoints",
            lambda: S.filled(
                S.HOST_SLOTS if T else S.HOST_SLOTS[:1],
                S.code_points(0, 0x110000 if T else 0x20000),
            ),
            "every code point up to U+%X as (part of) a host"
            % (0x10FFFF if T else 0x1FFFF),
        ),
        (
            "ports",
            lambda: S.ports(T, light),
            ("every 32nd port and the ends" if light else "every port 0..65599")
            + " for http, https and a non-special scheme; ws, wss, ftp: "
            + ("all" if T else "0..1099, 65501..65599 and multiples of 1000"),
        ),
        (
            "pumps",
            lambda: S.pump(S.PUMPS, lens),
            "%d repetition templates x %d lengths up to %d"
            % (len(S.PUMPS), len(lens), lens[-1]),
        ),
        (
            "ipv4",
            lambda: (
                p % h
                for h in S.v4_strings(k=4 if T else 3)
                for p in ("http://%s/", "a://%s:1/")
            ),
            "dotted strings: all pairs over %d parts, all of 3%s over %d"
            % (len(S.V4_PARTS), "-4" if T else "", len(S.V4_SMALL)),
        ),
        (
            "ipv6",
            lambda: (
                "http://[%s]/" % h
                for g in (
                    lambda: S.strings(S.V6_TOKENS, 5 if T else 4),
                    S.v6_groups,
                    S.v6_tails,
                )
                for h in g()
            ),
            "bracketed strings: all of <= %d tokens over %d, all group sequences of 1..9 groups over {0,1,empty}, 511 heads x 21 IPv4 tails"
            % (5 if T else 4, len(S.V6_TOKENS)),
        ),
        (
            "domains",
            lambda: (
                p + h
                for h in S.strings(S.DOMAIN_TOKENS, 3 if T else 2)
                for p in ("http://", "a://", "file://")
            ),
            "hosts of <= %d tokens over %d in special, file and other URLs"
            % (3 if T else 2, len(S.DOMAIN_TOKENS)),
        ),
    ]
    if T:
        out.append(
            (
                "edits2",
                lambda: S.edits2(S.SEEDS, S.T_TINY),
                "every two edits of %d rich URLs with %d tokens"
                % (len(S.SEEDS), len(S.T_TINY)),
            )
        )
    return out


def relative_spaces(tier):
    """[(name, gen of (string, base), bounds)]"""
    T = tier == "thorough"
    k2 = S.T_MID
    k3 = S.T_MID if T else S.T_SMALL
    k4 = S.T_SMALL if T else S.T_TINY
    lens = S.PUMP_LENGTHS if T else S.PUMP_QUICK[:-1]
    rel_seeds = [
        "x/../y?z#w",
        "//u:p@h2:99/k/./l",
        "http:r/s",
        "http:/r",
        "file:C|/r",
        "file:r",
        "/C|/x/..",
        "C|/../y",
        "\\\\h\\s\\..",
        "?a=b&c='d'#e",
        "#frag`",
        "../../../x/.",
        "%2e%2E/..%2f/y",
        "a:c",
        "ws:x",
        "",
        "/.//x",
        "..//x",
    ]

    def over(gen, bases):
        return lambda: ((s, b) for s in gen() for b in bases)

    def climb():
        for d in list(range(0, 12)) + [31, 32, 33, 63, 64, 65, 100, 128, 200, 256]:
            for root in ("http://h", "file://", "file:///C:", "a:", "a://h", "a:/."):
                b = root + "/x" * d
                for n in sorted({0, 1, 2, 3, d - 1, d, d + 1, d + 5, 70, 130} - {-1}):
                    for t in ("", "y", "../y", "./", "?q"):
                        yield ("../" * n + t, b)
                    yield ("/.." * n, b)

    return [
        (
            "base-shapes",
            lambda: ((r, b) for b in S.shapes() for r in S.SHAPE_REFS),
            "%d bases (every presence, absence and emptiness of the components) x %d references"
            % (len(S.shapes()), len(S.SHAPE_REFS)),
        ),
        (
            "rel-constants",
            lambda: (
                x
                for g in (
                    ((w, b) for w in S.CONST_WORDS for b in BASES),
                    ((r, b[:i] + t + b[i:]) for b in BASES_CORE for i in range(len(b) + 1) for t in S.CONST for r in ("", "x/..")),
                )
                for x in g
            ),
            "every constant of the code under test and look-alike code point (%d) as reference against %d bases, and inserted at every position of %d bases"
            % (len(S.CONST), len(BASES), len(BASES_CORE)),
        ),
        (
            "rel-confusables",
            over(lambda: S.in_context(["", "/", "a", "1", "//", "//h:", "?", "#", ".", "..", "C", "http:", "file:", "/.", "%2"], [x + y for x in S.CONFUSABLE for y in ("", "/", ":")], 1), BASES_CORE),
            "15 contexts x %d code points that string methods take for ASCII ones x 3 continuations x %d bases"
            % (len(S.CONFUSABLE), len(BASES_CORE)),
        ),
        (
            "rel-tokens2",
            over(lambda: S.strings(k2, 2), BASES + BAD_BASES),
            "every string of <= 2 tokens over %d against each of %d bases"
            % (len(k2), len(BASES + BAD_BASES)),
        ),
        (
            "rel-ascii1",
            over(
                lambda: S.in_context(["", "/", "a", "//", "?", "#", "."], S.T_EDIT, 1),
                BASES,
            ),
            "7 contexts x every single token of %d x %d bases"
            % (len(S.T_EDIT), len(BASES)),
        ),
        (
            "rel-tokens3",
            over(lambda: S.strings(k3, 3, 3), BASES if not T else BASES_CORE),
            "every string of 3 tokens over %d against each of %d bases"
            % (len(k3), len(BASES) if not T else len(BASES_CORE)),
        ),
        (
            "rel-tokens4",
            over(lambda: S.strings(k4, 4, 4), BASES if T else BASES_CORE),
            "every string of 4 tokens over %d against each of %d bases"
            % (len(k4), len(BASES) if T else len(BASES_CORE)),
        ),
        (
            "rel-edits",
            over(lambda: S.edits(rel_seeds, S.T_EDIT if T else S.T_MID), BASES if T else BASES_CORE),
            "every single edit of %d relative references against each of %d bases"
            % (len(rel_seeds), len(BASES) if T else len(BASES_CORE)),
        ),
        (
            "base-edits",
            lambda: (
                (r, b)
                for b in S.edits(S.SEEDS, S.T_SMALL)
                for r in (["", "x/..", "/y", "?k", "#l"] if T else ["", "x/.."])
            ),
            "every single edit of %d rich URLs used as base of short references"
            % len(S.SEEDS),
        ),
        (
            "rel-climb",
            climb,
            "paths of depth 0..11 and up to 256 x climbs below, at and above the root x 6 roots",
        ),
        (
            "rel-pumps",
            lambda: (
                (u * n + t, b)
                for n in lens
                for u in ("a", "a/", "/", "../", "./", "?", "#é", "é", "\\", "%2e/", " ", "C|/")
                for t in ("", "x")
                for b in (BASES if T else BASES_CORE)
            ),
            "12 units repeated in %d lengths up to %d against bases"
            % (len(lens), lens[-1]),
        ),
        (
            "rel-codepoints",
            lambda: (
                (t.replace("{0}", c), b)
                for c in S.code_points(0, 0x3100 if not T else 0x10000)
                for t in ("{0}", "a{0}?{0}#{0}")
                for b in ("http://h/a/b?q", "file:///C:/d", "a:/x", "a:b")
            ),
            "every code point up to U+%X in references against 4 bases"
            % (0x30FF if not T else 0xFFFF),
        ),
    ]


def corpus(tier="quick"):
    """A fixed finite list of diverse strings (rich seeds, contexts with each
    token, short strings), for families that combine inputs with something."""
    seen = {}
    for s in S.SEEDS:
        seen[s] = None
    for c in S.CTX:
        for t in [""] + S.T_MID:
            seen[c + t] = None
    return list(seen)
