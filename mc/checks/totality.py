"""C12 (totality), C13 (validity report), C17 (origins)."""

from __future__ import annotations

import csv
import gzip
import os
from itertools import product

from .. import impl, model
from .. import spaces as S
from . import histories as H
from .common import ASSUME_ICU, BASES, BASES_CORE, BAD_BASES, VALIDATED, corpus, fam

up = impl.up

# ------------------------------------------------------------------------ C12


class NotTotal(Exception):
    pass


def total(what, f, *a, **kw):
    """-> (succeeded, value); anything but the URL parse error is a violation"""
    try:
        return True, f(*a, **kw)
    except impl.URLParseError as e:
        str(e)
        repr(e)
        return False, None
    except RecursionError as e:
        raise NotTotal("%s raises RecursionError: %s" % (what, e)) from None
    except Exception as e:
        raise NotTotal(
            "%s raises %s: %s" % (what, type(e).__name__, ascii(str(e))[:200])
        ) from None


def exercise(u, w):
    """every attribute and representation of a URL object"""
    total("attributes of %s" % w, impl.snapshot, u)
    for f in (str, repr):
        total("%s of %s" % (f.__name__, w), f, u)
    p = u.search_params
    for f in (str, repr, len, list):
        total("%s of search_params of %s" % (f.__name__, w), f, p)
    total("equality of %s" % w, lambda: (u == u, u.equals(u, True), p == p))


def judge_total_parse(case, ctx):
    s, base = case
    w = "%s against %s" % (ascii(s)[:300], ascii(base)[:300])
    ctx.traces += 1
    ctx.transitions += 6
    try:
        ok, u = total("URL(%s)" % w, impl.URL, s, base)
        ctx.outcome("ok" if ok else "fail")
        ctx.state(u.href if ok else None)
        if ok:
            exercise(u, w)
        for kw in ({}, {"validity": up.ValidityState()}):
            c = total("can_parse(%s)" % w, impl.URL.can_parse, s, base, **kw)
            if not c[0] or c[1] is not ok:
                return "URL(%s) %s but can_parse gives %r" % (w, "succeeds" if ok else "fails", c)
        pok, r = total("parse_url(%s)" % w, impl.parse_url, s, base)
        if pok is not ok:
            return "parse_url(%s) %s, URL() %s" % (w, pok, ok)
        if pok:
            total("record of %s" % w, lambda: (repr(r), str(r), r.origin, r == r, r.serialize_url(True)))
            if r.origin is not None:
                total("origin of %s" % w, lambda: (str(r.origin), repr(r.origin)))
        v = total("URLValidator.is_valid(%s)" % w, up.URLValidator.is_valid, s, base)
        if not v[0] or not isinstance(v[1], bool):
            return "URLValidator.is_valid(%s): %r" % (w, v)
        if v[1] and not ok:
            return "%s is judged valid but does not parse" % w
        for allow in (True, False):
            x = total("urlparse(%s)" % w, up.urlparse, s, base, allow_fragments=allow)
            if x[0] is not ok:
                return "urlparse(%s) %s, URL() %s" % (w, x[0], ok)
    except NotTotal as e:
        return str(e)
    return None


def judge_total_plain(s, ctx):
    """very long strings: no report object, which would hold one copy of the
    input per validation error"""
    w = ascii(s)[:300]
    ctx.traces += 1
    ctx.transitions += 2
    try:
        ok, u = total("URL(%s)" % w, impl.URL, s)
        ctx.outcome("ok" if ok else "fail")
        ctx.state(u.href if ok else None)
        if ok:
            total("attributes of %s" % w, impl.snapshot, u)
            total("URL of href of %s" % w, impl.URL, u.href)
        if impl.URL.can_parse(s) is not ok:
            return "can_parse(%s) is not %r" % (w, ok)
    except NotTotal as e:
        return str(e)
    return None


def judge_total_abs(s, ctx):
    return judge_total_parse((s, None), ctx)


def judge_total_funcs(s, ctx):
    """entry points that take any string"""
    w = ascii(s)[:300]
    ctx.traces += 1
    ctx.transitions += 20
    ctx.outcome("functions")
    ctx.state(s)
    HV = up.HostValidator
    P = up.URLSearchParams
    must = [
        ("string_percent_decode", lambda: up.string_percent_decode(s)),
        ("string_percent_encode", lambda: up.string_percent_encode(s, "")),
        ("string_percent_encode+", lambda: up.string_percent_encode(s, "/", space_as_plus=True)),
        ("utf8_percent_encode", lambda: up.utf8_percent_encode(s, "~/")),
        ("urlencode", lambda: up.urlencode([(s, s)])),
        ("parse_qsl", lambda: up.parse_qsl(model.utf8(s))),
        ("is_valid", lambda: HV.is_valid(s)),
        ("is_valid_domain", lambda: HV.is_valid_domain(s)),
        ("is_valid_ipv4_address", lambda: HV.is_valid_ipv4_address(s)),
        ("is_valid_ipv6_address", lambda: HV.is_valid_ipv6_address(s)),
        ("is_valid_opaque_host", lambda: HV.is_valid_opaque_host(s)),
        ("is_valid_url_scheme", lambda: up.URLValidator.is_valid_url_scheme(s)),
        ("is_valid with report", lambda: HV.is_valid(s, validity=up.ValidityState())),
        ("is_valid_ipv4_address with report", lambda: HV.is_valid_ipv4_address(s, validity=up.ValidityState())),
        ("URLSearchParams(str)", lambda: (repr(P(s)), str(P(s)), P(s).sort())),
        ("URLSearchParams(pairs)", lambda: (repr(P([[s, s]])), str(P({s: s})), P([(s, 1), ("a", s)]).sort())),
        ("URLSearchParams methods", lambda: _methods(P("a=1&b=2"), s)),
        ("URL.search_params methods", lambda: _methods(impl.URL("a:b  ?c").search_params, s)),
    ]
    may = [
        ("Host.parse", lambda: repr(up.Host.serialize(up.Host.parse(s)))),
        ("Host.parse opaque", lambda: repr(up.Host.serialize(up.Host.parse(s, True)))),
        ("IDNA.domain_to_ascii", lambda: up.IDNA.domain_to_ascii(s)),
        ("IDNA.domain_to_ascii strict", lambda: up.IDNA.domain_to_ascii(s, True)),
        ("IDNA.domain_to_unicode", lambda: up.IDNA.domain_to_unicode(s)),
        ("IDNA.domain_to_unicode strict", lambda: up.IDNA.domain_to_unicode(s, True)),
    ]
    try:
        for name, f in must:
            ok, _ = total("%s with %s" % (name, w), f)
            if not ok:
                return "%s with %s raises the URL parse error" % (name, w)
        for name, f in may:
            total("%s with %s" % (name, w), f)
    except NotTotal as e:
        return str(e)
    return None


def _methods(p, s):
    p.append(s, s)
    p.has(s), p.has(s, s), s in p, p.get(s), p.get_all(s)
    p.set(s, s)
    p.sort()
    str(p), repr(p)
    p.delete(s, s)
    p.delete(s)


def judge_total_set(case, ctx):
    start, ops = case
    w = "%s after %s" % (ascii(start), ascii(ops)[:300])
    ctx.traces += 1
    ctx.outcome("assignments")
    u = impl.URL(start)
    try:
        for k, v in ops:
            ctx.transitions += 1
            total(w, setattr, u, k, v)
        ctx.state(u.href)
        exercise(u, w)
        if not impl.URL.can_parse(u.href):
            return "%s: %s cannot be parsed" % (w, ascii(u.href)[:300])
    except NotTotal as e:
        return str(e)
    return None


def c12(tier):
    T = tier == "thorough"
    lens = S.PUMP_LENGTHS if T else S.PUMP_QUICK
    more = [20000, 100000] if T else [20000]

    def pairs():
        yield from S.strings(S.T_EDIT, 2)
        yield from S.in_context(S.CTX, S.T_MID if not T else S.T_EDIT, 1)
        if T:
            yield from S.in_context(S.CTX, S.T_MID, 2, 2)

    def rel():
        for s in S.strings(S.T_MID, 1):
            for b in BASES + BAD_BASES:
                yield (s, b)
        for s in S.strings(S.T_SMALL, 2 if not T else 3, 2):
            for b in BASES_CORE + BAD_BASES[:2]:
                yield (s, b)
        for b in S.strings(S.T_MID, 2):
            yield ("x", b)
        for b in S.shapes()[:: 1 if T else 5]:
            for r in S.SHAPE_REFS:
                yield (r, b)

    def long():
        for n in lens if T else [0, 1, 2, 3, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1025]:
            for s in S.pump(S.PUMPS, [n]):
                yield (s, None)

    def very_long():
        for n in more:
            for p, u, s in S.PUMPS:
                yield p + u * (n // len(u)) + s

    def points():
        for c in S.code_points(0, 0x3100 if T else 0x600):
            for t in S.SLOTS + S.HOST_SLOTS:
                if T or t in (S.SLOTS[0], S.SLOTS[2], S.HOST_SLOTS[1]):
                    yield (t.replace("{0}", c), None)
        for c in S.code_points(0xD7F0, 0xE010):
            for t in S.SLOTS + S.HOST_SLOTS:
                yield (t.replace("{0}", c), None)
        for c in S.chunks(128, 0, 0x110000, False):
            for t in S.SLOTS + S.HOST_SLOTS:
                if T or t == "http://a{0}b/" or ord(c[0]) < 0x10000 and t in (S.SLOTS[0], S.SLOTS[3]):
                    yield (t.replace("{0}", c), None)

    def funcs():
        yield from S.strings(S.T_EDIT, 2)
        yield from S.strings(S.V4_PARTS, 2)
        yield from S.v4_strings(S.V4_PARTS, S.V4_SMALL, 3, 2)
        yield from S.strings(S.DOMAIN_TOKENS, 2)
        for c in S.code_points(0, 0x3100 if not T else 0x110000):
            yield c
        for c in S.code_points(0xD7F0, 0xE010):
            yield c
            yield "a" + c
            yield c + "\udc00"
        for c in S.chunks(256, 0, 0x110000, False):
            yield c
        for n in lens + more:
            for u in ("a", "1", "0", "9", "0x", "a.", "1.", ".", ":", "%", "%41", "é", "\ud800", "\U0001f308", "xn--", "[", "&", "=", "%s", "%(a)s", "{}", "[1:"):
                yield u * (n // (len(u) if n > 10000 else 1))
        for f in ("%s", "%d", "%(x)s", "{0}", "%%", "\\", "%c%n", "$a", "%*d"):
            yield f
            yield "1.2.3." + f
            yield "[" + f + "]"
            yield "xn--" + f

    def fmt():
        """what looks like a format string ends up in messages"""
        fs = ["%s", "%d", "%(x)s", "{0}", "%%", "%c%n", "%", "%5", "%*d", "%zz%s"]
        for f in fs:
            for t in S.SLOTS + S.HOST_SLOTS + ["{0}", "{0}://h/", "http://h:{0}/", "http://[{0}]/", "a:{0}", "http://u@{0}@h/", "1{0}:x", "\\{0}"]:
                yield (t.replace("{0}", f), None)
                yield (t.replace("{0}", f), "http://h/" + f)
                yield ("x", t.replace("{0}", f))

    return dict(
        families=[
            fam("constants", lambda: (x for g in (S.const_urls(), ("http://%s/" % h for h in S.const_hosts())) for x in g), judge_total_abs, "every constant of the code under test and look-alike code point (%d) in contexts, rich URLs and hosts" % len(S.CONST)),
            fam("const-assign", lambda: H.seqs((H.STARTS[0], H.STARTS[9]), H.const_ops(), 1), judge_total_set, "the same assigned"),
            fam("const-functions", lambda: (x for g in (S.CONST_WORDS, S.const_hosts()) for x in g), judge_total_funcs, "the same given to 24 functions"),
            fam("strings", pairs, judge_total_abs, "every string of <= 2 tokens over %d; %d contexts x %s" % (len(S.T_EDIT), len(S.CTX), "pairs" if T else "tokens")),
            fam("relative", rel, judge_total_parse, "references and bases of <= 2%s tokens, good and bad bases" % (" or 3" if T else "")),
            fam("edits", lambda: S.edits(S.SEEDS, S.T_EDIT if T else S.T_SMALL), judge_total_abs, "single edits of %d rich URLs" % len(S.SEEDS)),
            fam("long", long, judge_total_parse, "%d repetition templates, lengths up to %d" % (len(S.PUMPS), lens[-1] if T else 1025), bits=2),
            fam("very-long", very_long, judge_total_plain, "%d repetition templates of %s characters, without reports" % (len(S.PUMPS), more), bits=0),
            fam("code-points", points, judge_total_parse, "every code point up to U+5FF (thorough: U+30FF) and every surrogate alone, all code points in chunks"),
            fam("format", fmt, judge_total_parse, "format directives in every component and in bases"),
            fam("functions", funcs, judge_total_funcs, "18 functions that take any string and 6 that may refuse it: strings of <= 2 tokens, code points, surrogates, lengths up to %d" % more[-1]),
            fam("assign", lambda: H.seqs(H.STARTS, H.ops1(tier) if T else [(k, v) for v in H._TOK1 + ["1" * 20000, "%s", "\udc00" * 3] for k in H.VALUES], 1), judge_total_set, "%d starts x 10 components x long value lists" % len(H.STARTS)),
            fam("assign2", lambda: H.seqs(H.STARTS[:: 1 if T else 3], H.OPS, 2, 2), judge_total_set, "starts x all sequences of 2 of %d assignments" % len(H.OPS)),
        ],
        validated="urlstd itself is executed on every case; any exception other than the URL parse error, a hang (90 s) or memory exhaustion (6 GB) is a violation",
        assumptions=["encoding labels unknown to Python are not part of the claim (they name no encoding)"],
    )


# ------------------------------------------------------------------------ C13

with gzip.open(
    os.path.join(impl.REPO, "src", "urlstd", "data", "uri-schemes-1.csv.gz"), "rt"
) as _f:
    REGISTERED = {
        row["URI Scheme"].lower()
        for row in csv.DictReader(_f)
        if "obsolete" not in row["URI Scheme"].lower()
    }


def norm(types):
    """multiset of error kinds, with the two liberties taken (see DESIGN.md):
    sub-kinds of IPv6 errors are one kind; 'undefined' (not the standard's)
    is not compared"""
    d = {}
    for t in types:
        if t == "undefined":
            continue
        if t.startswith("IPv6-") or t.startswith("IPv4-in-IPv6-"):
            t = "IPv6-*"
        d[t] = d.get(t, 0) + 1
    return d


def has_surrogate(s):
    return s is not None and any("\ud800" <= c <= "\udfff" for c in s)


_reuse = up.ValidityState()


def judge_validity(case, ctx):
    s, base = case
    if has_surrogate(s) or has_surrogate(base):
        return None
    what = "%s against %s" % (ascii(s)[:300], ascii(base))
    ve = []
    try:
        r = model.parse_with_base(s, base, ve=ve)
    except model.Failure:
        r = None
    want_valid = r is not None and not ve and r.scheme in REGISTERED
    fresh = up.ValidityState()
    got = up.URLValidator.is_valid(s, base, validity=fresh)
    ctx.traces += 1
    ctx.transitions += 4
    ctx.outcome("valid" if want_valid else "parses with errors" if r is not None else "fails")
    ctx.state((tuple(sorted(norm(ve).items())), want_valid))
    if got is not want_valid:
        return "URLValidator.is_valid(%s) is %r; the standard's errors are %s, scheme %s" % (what, got, ve, r and r.scheme)
    if up.URLValidator.is_valid(s, base) is not got:
        return "URLValidator.is_valid(%s) differs without a report" % what
    n = fresh.validation_errors
    if fresh.valid is not (n == 0) or len(fresh.error_types) != n or len(fresh.descriptions) != n or fresh.valid is not got:
        return "is_valid(%s) is %r, inconsistent report %r" % (what, got, fresh)
    a, b = norm(fresh.error_types), norm(ve)
    if "file-invalid-Windows-drive-letter-host" in b:
        # the standard lists a second error for the '|' that follows
        for d in (a, b):
            d.pop("invalid-URL-unit", None)
    if a != b:
        return "is_valid(%s) reports %s, the standard's errors are %s" % (what, a, b)
    if up.URLValidator.is_valid(s, base, validity=_reuse) is not got or (
        _reuse.valid, _reuse.error_types, _reuse.descriptions, _reuse.validation_errors
    ) != (fresh.valid, fresh.error_types, fresh.descriptions, n):
        return "is_valid(%s): a reused report says %r, a fresh one %r" % (what, _reuse, fresh)
    # can_parse with a report: the parsing errors, and the same verdict as without
    v = up.ValidityState()
    c = impl.URL.can_parse(s, base, validity=v)
    if c is not (r is not None) or impl.URL.can_parse(s, base, validity=_reuse) is not c:
        return "can_parse(%s) is %r" % (what, c)
    for x in (v, _reuse):
        k = x.validation_errors
        if x.valid is not (k == 0) or len(x.error_types) != k or len(x.descriptions) != k:
            return "can_parse(%s): inconsistent report %r" % (what, x)
    a = norm(v.error_types)
    if "file-invalid-Windows-drive-letter-host" in b:
        a.pop("invalid-URL-unit", None)
    if a != b:
        return "can_parse(%s) reports %s, the standard's errors are %s" % (what, a, b)
    if (v.error_types, v.descriptions) != (_reuse.error_types, _reuse.descriptions):
        return "can_parse(%s): a reused report says %r, a fresh one %r" % (what, _reuse, v)
    # asking for a report does not change the outcome
    rec = impl.guard(lambda: str(impl.parse_url(s, base, validity=up.ValidityState())))
    want = ("ok", r.href()) if r is not None else impl.FAIL
    if rec != want:
        return "parse_url(%s, validity=...) gives %s, want %s" % (what, ascii(rec)[:300], ascii(want)[:300])
    return None


VALIDITY_LABELS = ["windows-1252", "shift_jis", "UTF-16LE", "iso-2022-jp", "gb18030", "ascii", "utf8"]


def judge_validity_how(case, ctx):
    """the report does not depend on how the base is given (as a record: its
    own errors, which were reported when it was made, are not part of it) nor
    on the encoding"""
    s, base, label = case
    if has_surrogate(s) or has_surrogate(base):
        return None
    what = "%s against %s, encoding %s" % (ascii(s)[:300], ascii(base), label)
    ve = []
    try:
        m = model.parse(base) if base is not None else None
        bare = []
        try:
            model.parse(s, m, ve=bare)
            bare_ok = True
        except model.Failure:
            bare_ok = False
        r = model.parse_with_base(s, base, ve=ve)
    except model.Failure:
        r = None
        if base is not None and m is None:
            return None
    forms = [("string", base, ve, r is not None)]
    if base is not None:
        forms.append(("record", impl.parse_url(base), bare, bare_ok))
    ctx.traces += 1
    ctx.state((tuple(sorted(norm(ve).items())), label))
    ctx.outcome("%s %s" % (label, "parses" if r is not None else "fails"))
    for kind, b, errs, ok in forms:
        want_valid = ok and not errs and r.scheme in REGISTERED
        v = up.ValidityState()
        got = up.URLValidator.is_valid(s, b, label, validity=v)
        ctx.transitions += 1
        if got is not want_valid or up.URLValidator.is_valid(s, b, encoding=label) is not got:
            return "URLValidator.is_valid(%s), base as %s, is %r; the standard's errors are %s" % (what, kind, got, errs)
        w = up.ValidityState()
        p = impl.guard(lambda: str(impl.parse_url(s, b, label, validity=w)))
        if (p[0] == "ok") is not ok:
            return "parse_url(%s, validity), base as %s, gives %s" % (what, kind, ascii(p))
        reports = [("is_valid", v), ("parse_url", w)]
        if kind == "record":
            x = up.ValidityState()
            c = impl.URL.can_parse(s, impl.URL(base), validity=x)
            if c is not ok:
                return "can_parse(%s), base as URL object, is %r" % (what, c)
            reports.append(("can_parse with a URL object as base", x))
        for name, rep in reports:
            a, d = norm(rep.error_types), norm(errs)
            if "file-invalid-Windows-drive-letter-host" in d:
                a.pop("invalid-URL-unit", None)
                d.pop("invalid-URL-unit", None)
            if a != d:
                return "%s(%s), base as %s, reports %s, the standard's errors are %s" % (name, what, kind, a, d)
            n = rep.validation_errors
            if rep.valid is not (n == 0) or len(rep.error_types) != n or len(rep.descriptions) != n:
                return "%s(%s), base as %s: inconsistent report %r" % (name, what, kind, rep)
    return None


def judge_sum(case, ctx):
    """the sum of two reports lists the entries of both"""
    i, j = case
    a, b, c = up.ValidityState(), up.ValidityState(), up.ValidityState()
    call_report(REPORT_CALLS[i], a)
    call_report(REPORT_CALLS[j], b)
    call_report(REPORT_CALLS[i], c)

    def key(v):
        return (v.valid, list(v.error_types), list(v.descriptions), v.validation_errors)

    ka, kb = key(a), key(b)
    want = (ka[0] and kb[0], ka[1] + kb[1], ka[2] + kb[2], ka[3] + kb[3])
    t = a + b
    ctx.traces += 1
    ctx.transitions += 2
    ctx.state((want[0], tuple(want[1])))
    ctx.outcome("sum")
    if key(t) != want or key(a) != ka or key(b) != kb:
        return "reports %r and %r add up to %r" % (a, b, t)
    t.error_types.append("x")
    t.reset()
    if key(a) != ka or key(b) != kb:
        return "reports %r and %r change with their sum" % (a, b)
    d = c
    c += b
    if c is not d or key(c) != want or key(b) != kb:
        return "report += %r gives %r" % (b, c)
    c.reset()
    if key(b) != kb:
        return "report %r changes with one it was added to" % b
    return None


def judge_validity_abs(s, ctx):
    return judge_validity((s, None), ctx)


def judge_scheme(s, ctx):
    v = up.ValidityState()
    # a registered scheme, ASCII case-insensitively
    want = s.isascii() and s.lower() in REGISTERED and s != ""
    got = up.URLValidator.is_valid_url_scheme(s, validity=v)
    ctx.traces += 1
    ctx.transitions += 1
    ctx.outcome("scheme %s" % want)
    ctx.state(s)
    if got is not want or v.valid is not want or (v.validation_errors == 0) is not want:
        return "is_valid_url_scheme(%s) is %r (%r)" % (ascii(s), got, v)
    if any(t != "undefined" for t in v.error_types) or len(v.error_types) != v.validation_errors or len(v.descriptions) != v.validation_errors:
        return "is_valid_url_scheme(%s) reports %r, no kind of error that the standard names" % (ascii(s), v)
    if up.URLValidator.is_valid_url_scheme(s) is not want:
        return "is_valid_url_scheme(%s) differs without a report" % ascii(s)
    return None


REPORT_CALLS = [
    ("url", "https://example.org/", None),
    ("url", "https://u:p@h/%?|#`", None),
    ("url", "zzz:x", None),
    ("url", "http://", None),
    ("url", "\\x", "http://h"),
    ("url", "x", "http:h|"),
    ("can", "http://h/ ^", None),
    ("can", "a:b", None),
    ("can", "http://[::1", None),
    ("host", "example.org", None),
    ("host", "a..b", None),
    ("host", "1.2.3.04", None),
    ("host", "[1::2::3]", None),
    ("opaque", "a|b", None),
    ("opaque", "a%zz", None),
    ("scheme", "http", None),
    ("scheme", "zzz", None),
]


def call_report(c, v):
    k, s, b = c
    if k == "url":
        return up.URLValidator.is_valid(s, b, validity=v)
    if k == "can":
        return impl.URL.can_parse(s, b, validity=v)
    if k == "host":
        return up.HostValidator.is_valid(s, validity=v)
    if k == "opaque":
        return up.HostValidator.is_valid_opaque_host(s, validity=v)
    return up.URLValidator.is_valid_url_scheme(s, validity=v)


def judge_reuse(idx, ctx):
    shared = up.ValidityState()
    for n, i in enumerate(idx):
        fresh = up.ValidityState()
        a = call_report(REPORT_CALLS[i], fresh)
        b = call_report(REPORT_CALLS[i], shared)
        ctx.transitions += 2
        if a is not b or (shared.valid, shared.error_types, shared.descriptions, shared.validation_errors) != (fresh.valid, fresh.error_types, fresh.descriptions, fresh.validation_errors):
            return "after %s the reused report says %r, a fresh one %r" % ([REPORT_CALLS[j] for j in idx[: n + 1]], shared, fresh)
    ctx.traces += 1
    ctx.outcome("reuse")
    ctx.state(tuple(shared.error_types))
    return None


def c13(tier):
    T = tier == "thorough"

    def abs_strings():
        yield from S.shapes()
        yield from S.in_context(S.CTX, S.T_EDIT, 1)
        yield from S.in_context(S.CTX_CORE if not T else S.CTX, S.T_MID, 2, 2)
        yield from S.in_context(S.CTX_CORE if T else S.CTX_CORE[::3], S.T_SMALL, 3, 3)

    def rel():
        for s in S.strings(S.T_MID, 1):
            for b in BASES + BAD_BASES:
                yield (s, b)
        for s in S.strings(S.T_MID if T else S.T_SMALL, 2, 2):
            for b in BASES_CORE + ["http://u@h/ ", "file:///C|/x", "http://0x1/^", "file://C|/"]:
                yield (s, b)
        for b in S.edits(S.SEEDS[::3], S.T_SMALL):
            yield ("y", b)
        for b in S.shapes()[:: 1 if T else 3]:
            for r in S.SHAPE_REFS:
                yield (r, b)

    def schemes():
        for s in sorted(REGISTERED):
            yield s
            yield s.upper()
            for a, b in (("k", "\u212a"), ("i", "\u0130"), ("s", "\u017f"), ("ss", "\xdf"), ("i", "\u0131"), ("fi", "\ufb01"), ("a", "\uff41"), ("A", "\uff21")):
                yield s.replace(a, b)
                yield s.upper().replace(a.upper(), b)
            yield s + "x"
            yield s[:-1]
            yield " " + s
            yield s + ":"
        yield from S.strings(list("abcdefghijklmnopqrstuvwxyz+-.1 "), 3 if T else 2)
        yield from S.strings(S.T_MID, 1)
        for k in ("invalid-URL-unit", "host-missing", "x-y", "a-b-c", "IPv4-empty-part", "%s", "%d-x", "%"):
            for f in ("%s", "%s:", "%s: x", "x %s: y"):
                yield f.replace("%s", k, 1)
        yield "shttp (OBSOLETE)"
        yield "shttp (obsolete)"
        yield "shttp"

    def scheme_urls():
        for s in sorted(REGISTERED):
            for t in (s, s.upper(), s + "q", "q" + s, s[:-1]):
                yield t + "://h/"
                yield t + ":x"

    def points():
        for c in S.code_points(0, 0x110000 if T else 0x3100):
            for t in S.SLOTS + S.HOST_SLOTS:
                if T or t in (S.SLOTS[0], S.SLOTS[2], S.HOST_SLOTS[0]):
                    yield t.replace("{0}", c)
        for p in range(0, 0x110000, 0x10000):
            for o in list(range(0xFFF0, 0x10000)) + list(range(0xFDC8, 0xFDF8)):
                yield "http://h/" + chr(p + o)
                yield "a://h" + chr(p + o)

    def how():
        refs = S.SHAPE_REFS + S.SEEDS + ["?<", "x?\xe9 |", "?%zz", "#<", "http://h/?\u3042<", "ws://h/?\xe9`", "a:b?\xe9^"]
        bases = BASES_CORE + ["http://u@h/ ", "file:///C|/x", "http://0x1/^", "file://C|/", "http:h?\xe9<", None]
        for r in refs:
            for b in bases:
                for k in VALIDITY_LABELS:
                    yield (r, b, k)
        for s in S.edits(S.SEEDS[:: 1 if T else 9], S.T_SMALL):
            for k in VALIDITY_LABELS if T else VALIDITY_LABELS[:3]:
                yield (s, None, k)
        for s in S.strings(S.T_MID, 2 if T else 1):
            for b in BASES:
                yield (s, b, "utf-8")

    def hosts():
        for h in S.v4_strings(S.V4_PARTS, S.V4_SMALL, 4 if T else 3, 2):
            yield "http://%s/" % h
        for h in S.strings(S.V6_TOKENS, 4 if T else 3):
            yield "http://[%s]/" % h
        for h in S.strings(S.DOMAIN_TOKENS, 2):
            yield "http://%s/" % h
            yield "tv://%s/" % h

    return dict(
        families=[
            fam("constants", lambda: (x for g in (S.const_urls(), ("http://%s/" % h for h in S.const_hosts())) for x in g), judge_validity_abs, "every constant of the code under test and look-alike code point (%d) in contexts, rich URLs and hosts" % len(S.CONST)),
            fam("const-schemes", lambda: S.CONST_WORDS, judge_scheme, "the same as schemes"),
            fam("strings", abs_strings, judge_validity_abs, "contexts x every token of %d; pairs over %d; triples over 18" % (len(S.T_EDIT), len(S.T_MID))),
            fam("edits", lambda: S.edits(S.SEEDS, S.T_EDIT if T else S.T_MID), judge_validity_abs, "single edits of %d rich URLs" % len(S.SEEDS)),
            fam("relative", rel, judge_validity, "references x bases given as strings, with and without errors of their own"),
            fam("code-points", points, judge_validity_abs, "every code point up to U+%X in every component; all noncharacters" % (0x10FFFF if T else 0x30FF)),
            fam("hosts", hosts, judge_validity_abs, "IPv4, IPv6, domain and opaque hosts"),
            fam("scheme-urls", scheme_urls, judge_validity_abs, "URLs of every registered scheme and near misses"),
            fam("schemes", schemes, judge_scheme, "every registered scheme, near misses, all strings of <= %d over 31 characters" % (3 if T else 2)),
            fam("pumps", lambda: S.pump(S.PUMPS, S.PUMP_LENGTHS if T else [0, 1, 2, 3, 9, 17, 33, 65, 257]), judge_validity_abs, "repetition templates"),
            fam("how-given", how, judge_validity_how, "references x bases x base given as string, record and URL object x %d encodings" % len(VALIDITY_LABELS)),
            fam("sums", lambda: product(range(len(REPORT_CALLS)), repeat=2), judge_sum, "all pairs of %d reports added" % len(REPORT_CALLS)),
            fam("reuse", lambda: (list(t) for n in (1, 2, 3) for t in product(range(len(REPORT_CALLS)), repeat=n)), judge_reuse, "all sequences of <= 3 of %d calls sharing one report" % len(REPORT_CALLS)),
        ],
        validated=VALIDATED,
        assumptions=[
            "the registry is the data file shipped with the library, read independently",
            "strings with lone surrogates are not compared (the standard's input are scalar values)",
            ASSUME_ICU,
        ],
    )


# ------------------------------------------------------------------------ C17


def origin_key(o):
    return None if o is None else (o.scheme, impl.host_key(o.host), o.port, o.domain)


def model_origin(href):
    return model.parse(href).origin()


def judge_origin(s, ctx):
    try:
        r = impl.parse_url(s)
    except impl.URLParseError:
        ctx.outcome("fail")
        return None
    return check_origin(s, r, impl.URL(s), model.parse(s), ctx)


def check_origin(what, r, u, m, ctx):
    """r: URL record or None, u: URL, m: model record"""
    want = m.origin()
    ws = model.origin_serialize(want)
    ctx.traces += 1
    ctx.transitions += 1
    ctx.state((m.scheme, ws))
    ctx.outcome("opaque" if want is None else "blob" if m.scheme == "blob" else "tuple")
    if u.origin != ws:
        return "%s: origin %s, the standard says %s" % (ascii(what)[:300], ascii(u.origin), ascii(ws))
    if r is not None:
        o = r.origin
        k = origin_key(o)
        w = None if want is None else tuple(want[:3]) + (None,)
        if k != w:
            return "%s: origin tuple %s, the standard says %s" % (ascii(what)[:300], ascii(k), ascii(w))
        if o is not None and str(o) != ws:
            return "%s: str(origin) %s" % (ascii(what)[:300], ascii(str(o)))
    return None


def judge_origin_hist(case, ctx):
    start, ops = case
    u, m = impl.URL(start), model.Url(start)
    for k, v in ops:
        H.impl_set(u, k, v)
        m.set(k, v)
        ctx.transitions += 1
        r = check_origin("%s after %s" % (ascii(start), ascii(ops)), None, u, m.rec, ctx)
        if r:
            return r
    return None


SCH = ["http", "https", "ws", "wss", "ftp"]
OHOSTS = ["h", "g", 16909060, (0, 0, 0, 0, 0, 0, 0, 1), "h."]
OPORTS = [None, 80, 443, 21, 8080, 0]
ODOMS = [None, "h", "example", ""]


def origins():
    return [
        (s, h, p, d)
        for s in SCH[:3]
        for h in OHOSTS[:4]
        for p in OPORTS[:3] + [0]
        for d in ODOMS
    ] + [
        # values that print alike
        (s, h, p, d)
        for s in ("http", "")
        for h in ("16909060", "1.2.3.4", None, "None", "", "[::1]", 0, "0", "(0, 0, 0, 0, 0, 0, 0, 1)")
        for p in (None, 80)
        for d in (None, "h", "None")
    ]


_olist = origins()


def judge_origin_pair(case, ctx):
    i, j = case
    a, b = _olist[i], _olist[j]
    oa, ob = up.Origin(*a), up.Origin(*b)
    so = a[:3] == b[:3]
    if a[3] is not None and b[3] is not None:
        sod = a[0] == b[0] and a[3] == b[3]
    elif a[3] is None and b[3] is None:
        sod = so
    else:
        sod = False
    ctx.traces += 1
    ctx.transitions += 2
    ctx.state((a, b))
    ctx.outcome("same" if so else "same domain" if sod else "different")
    if oa.is_same_origin(ob) is not so:
        return "%r.is_same_origin(%r) is not %r" % (oa, ob, so)
    if oa.is_same_origin_domain(ob) is not sod:
        return "%r.is_same_origin_domain(%r) is not %r" % (oa, ob, sod)
    return None


_purls = None


def pair_urls():
    global _purls
    if _purls is None:
        out = []
        for s in SCH + ["blob:http", "blob:https"]:
            for h in ("h", "H", "u:p@h", "g", "1.2.3.4", "16909060", "[::1]", "h.", "bücher"):
                for p in ("", ":80", ":443", ":21", ":0", ":8080"):
                    for t in ("/", "/x?y#z"):
                        try:
                            r = impl.parse_url("%s://%s%s%s" % (s, h, p, t))
                        except impl.URLParseError:
                            continue
                        out.append((str(r), r.origin, model_origin(str(r))))
        _purls = out
    return _purls


def judge_url_pair(case, ctx):
    i, j = case
    (sa, oa, ma), (sb, ob, mb) = pair_urls()[i], pair_urls()[j]
    ctx.traces += 1
    ctx.transitions += 2
    if ma is None or mb is None:
        return "%s, %s: opaque origin expected?" % (sa, sb)
    want = ma[:3] == mb[:3]
    ctx.state((sa, sb))
    ctx.outcome("same" if want else "different")
    if oa.is_same_origin(ob) is not want or oa.is_same_origin_domain(ob) is not want:
        return "%s and %s: same origin %r, same origin-domain %r, want %r" % (sa, sb, oa.is_same_origin(ob), oa.is_same_origin_domain(ob), want)
    return None


def judge_origin_serial(case, ctx):
    s, h, p, d = case
    o = up.Origin(s, h, p, d)
    want = s + "://" + model.host_serialize(h) + ("" if p is None else ":%d" % p)
    ctx.traces += 1
    ctx.transitions += 1
    ctx.state(want)
    ctx.outcome("serialized")
    if str(o) != want:
        return "str(%r) = %s, want %s" % (o, str(o), want)
    return None


def c17(tier):
    T = tier == "thorough"
    toks = ["a", "/", ":", "http:", "https:", "file:", "blob:", "ws:", "//", "h", "?", "#", "@", "80", "%41", "[::1]", " ", "\\", "ftp:", "é"]

    def blobs():
        for s in S.strings(toks, 4 if T else 3):
            yield "blob:" + s
        for s in corpus():
            yield "blob:" + s
            yield "blob:blob:" + s
            yield "BLOB:" + s + "?q#f"

    def rel_urls():
        for sc in SCH + ["file", "a", "blob", "data", "about", "filesystem"]:
            for rest in ("//h", "//u:p@h:80/x", "//h:443/?q#f", "//1.2/", "//[::1]:21/", "/x", "x", "//h:0/", "///x", ""):
                yield sc + ":" + rest
        for n in range(0, 65536, 1 if T else 5):
            yield "http://h:%d/" % n
            yield "blob:https://h:%d/x" % n

    ops = [op for op in H.OPS if op[0] in ("protocol", "host", "hostname", "port", "username", "password", "href", "pathname")]
    no = len(_olist)
    npairs = len(pair_urls())
    return dict(
        families=[
            fam("constants", lambda: (f.replace("%s", w) for w in S.CONST_WORDS for f in ("blob:%s", "blob:http://%s", "%s://h:80/", "%s:x", "http://%s", "https://u@h:%s/", "http://h/%s", "blob:https://h/%s", "ws://h?%s#%s")), judge_origin, "every constant of the code under test and look-alike code point (%d) in 9 frames" % len(S.CONST)),
            fam("const-histories", lambda: H.seqs((H.STARTS[0], H.STARTS[9]), H.const_ops(), 1), judge_origin_hist, "the same assigned"),
            fam("corpus", lambda: (s for g in (S.shapes(), corpus(), S.SEEDS, rel_urls(), S.edits(S.SEEDS, S.T_MID if T else S.T_SMALL)) for s in g), judge_origin, "diverse URLs, single edits of rich URLs, every scheme class, ports"),
            fam("blob", blobs, judge_origin, "blob: followed by all strings of <= %d tokens over %d, and by %d URLs" % (4 if T else 3, len(toks), len(corpus()))),
            fam("histories", lambda: H.seqs(H.STARTS, ops, 2), judge_origin_hist, "%d starts x all sequences of <= 2 of %d assignments" % (len(H.STARTS), len(ops))),
            fam("origin-pairs", lambda: ((i, j) for i in range(no) for j in range(no)), judge_origin_pair, "all ordered pairs of %d origin tuples" % no),
            fam("url-pairs", lambda: ((i, j) for i in range(npairs) for j in range(0, npairs, 1 if T else 2)), judge_url_pair, "pairs of the origins of %d URLs" % npairs),
            fam("serialize", lambda: ((s, h, p, d) for s in SCH for h in OHOSTS for p in OPORTS for d in ODOMS), judge_origin_serial, "origin tuples"),
        ],
        validated=VALIDATED,
        assumptions=[ASSUME_ICU],
    )
