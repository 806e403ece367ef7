"""C09 (IPv4), C10 (IPv6), C11 (domains, opaque hosts), C14 (host validators)."""

from __future__ import annotations

from itertools import product

from .. import impl, model
from .. import spaces as S
from .common import ASSUME_ICU, FAIL, VALIDATED, fam

up = impl.up


def impl_host(s, opaque):
    try:
        h = up.Host.parse(s, opaque)
    except impl.URLParseError:
        return FAIL
    return ("ok", impl.host_key(h), up.Host.serialize(h))


def model_host(s, opaque):
    if s == "":
        return ("ok", "", "")
    s = model.scalars(s)
    try:
        h = model.host_parse(s, opaque, [])
    except model.Failure:
        return FAIL
    return ("ok", h, model.host_serialize(h))


# characters that end the host in a URL before the host parser sees it
NOT_IN_URL = set("/\\?#@:\t\n\r")


def in_url(s, opaque):
    """URL.hostname for the same host, where a URL can carry it verbatim"""
    if s == "" or any(c in NOT_IN_URL for c in s if c != ":"):
        return None
    if ":" in s and not (s.startswith("[") and s.find("]") == len(s) - 1):
        return None
    return ("a://%s/" if opaque else "http://%s/") % s


def judge_host(case, ctx):
    s, opaque = case
    want = model_host(s, opaque)
    got = impl_host(s, opaque)
    ctx.traces += 1
    ctx.transitions += 1
    ctx.state((opaque, want))
    ctx.outcome(
        "fail"
        if want is FAIL
        else {int: "ipv4", str: "name", tuple: "ipv6"}[type(want[1])]
    )
    if got != want:
        return "Host.parse(%s, %s): %s, the standard says %s" % (ascii(s)[:300], opaque, ascii(got)[:300], ascii(want)[:300])
    t = in_url(s, opaque)
    if t is not None:
        g = impl.guard(lambda: impl.URL(t).hostname)
        w = FAIL if want is FAIL else ("ok", want[2])
        if g != w:
            return "URL(%s): hostname %s, the standard says %s" % (ascii(t)[:300], ascii(g)[:300], ascii(w)[:300])
    if want is not FAIL and s:
        # the canonical form is a fixed point with the same value
        again = impl_host(want[2], opaque)
        if again != want:
            return "Host.parse(%s, %s) serializes as %s which parses as %s" % (ascii(s)[:300], opaque, ascii(want[2])[:300], ascii(again)[:300])
    return None


def judge_host_set(case, ctx):
    """through the hostname setter"""
    s, opaque = case
    t = in_url(s, opaque)
    if t is None:
        return None
    want = model_host(s, opaque)
    u = impl.URL("a://z:1/p" if opaque else "http://z:1/p")
    try:
        u.hostname = s
    except impl.URLParseError:
        pass
    ctx.traces += 1
    ctx.transitions += 1
    ctx.state((opaque, want))
    ctx.outcome("assigned" if want is not FAIL else "refused")
    w = "z" if want is FAIL else want[2]
    if u.hostname != w or u.host != w + ":1":
        return "hostname = %s gives %s, want %s" % (ascii(s)[:300], ascii(u.host)[:300], ascii(w)[:300])
    return None


def judge_v4_value(n, ctx):
    ctx.traces += 1
    ctx.transitions += 2
    ctx.outcome("value")
    ctx.state(n)
    t = "%d.%d.%d.%d" % (n >> 24, n >> 16 & 255, n >> 8 & 255, n & 255)
    if up.Host.serialize(n) != t:
        return "Host.serialize(%d) = %r" % (n, up.Host.serialize(n))
    for s in (t, str(n), hex(n), "0%o" % n, t + "."):
        if up.Host.parse(s) != n:
            return "Host.parse(%r) = %r, want %d" % (s, up.Host.parse(s), n)
    return None


def both(gen):
    return ((s, o) for s in gen for o in (False, True))


def special(gen):
    return ((s, False) for s in gen)


V4_CHARS = ["0", "1", "8", "x", "f", ".", "9", "a"]
V4_NUMS = sorted(
    {
        v
        for k in (0, 3, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65)
        for v in (2**k - 1, 2**k, 2**k + 1)
    }
    | {10, 99, 100, 255, 256, 257, 999}
)


def c09(tier):
    T = tier == "thorough"

    def parts():
        yield from special(S.v4_strings(S.V4_PARTS, S.V4_SMALL, 5 if T else 4, 3 if T else 2))
        for t in product(S.V4_PARTS[::2], repeat=3):
            yield (".".join(t), False)
        for t in product(["0", "1", "0x", ""], repeat=5):
            yield (".".join(t), False)
        for t in product(["0", "255", "a", "0x", "08"], repeat=3):
            yield (".".join(t) + ".", False)
            yield (".".join(t) + "..", False)
            yield ("a.b." + ".".join(t), False)

    def chars():
        yield from special(S.strings(V4_CHARS, 6 if T else 5))

    def nums():
        fmts = [str, hex, lambda n: "0%o" % n, lambda n: "0X%X" % n, lambda n: "00%o" % n, lambda n: "0x000%x" % n, lambda n: "%d " % n, lambda n: "0" * 30 + "%o" % n]
        for n in V4_NUMS:
            for f in fmts:
                x = f(n)
                for pre in ("", "1.", "0x1.02.", "1.2.3.", "255.255.255.", "a.", "256.", "1.2.3.4."):
                    yield (pre + x, False)
                    yield (pre + x + ".", False)
                    yield (x + "." + pre + "1", False)

    def values():
        octets = [0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 254, 255]
        for t in product(octets, repeat=4):
            yield t[0] << 24 | t[1] << 16 | t[2] << 8 | t[3]
        for i in range(65536):
            if T or i % 7 == 0:
                yield i
                yield i << 16
                yield 0xFFFF0000 | i
                yield i << 8 | 0x7F000001
        if T:
            for i in range(1 << 21):
                yield i << 11 | (i & 2047)

    def code_points():
        for c in S.code_points(0, 0x110000 if T else 0x20000):
            yield ("1.2.3." + c, False)
            if T:
                yield ("0x" + c, False)
                yield (c + ".1", False)

    def pumps():
        for n in S.PUMP_LENGTHS:
            for u in ("0", "9", "1", "f", "0x", "1.", ".", "00.", "%30", "０"):
                for pre, suf in (("", ""), ("0x", ""), ("1.2.3.", ""), ("0", "1"), ("", ".1"), ("0x", ".0x1"), ("", "0x7f")):
                    yield (pre + u * n + suf, False)

    def escapes():
        for d in ["%3{0}", "%3{0}.1", "1.%3{0}", "0%78{0}", "1%2e{0}", "{0}%2E", "%30%7{0}", "１.{0}", "{0}。1", "1．{0}", "{0}%00", "{0}%20", "{0}\xad", "0\xadx{0}"]:
            for x in "0123456789abcdefg":
                yield (d.replace("{0}", x), False)
                yield (d.replace("{0}", x), True)

    def opaque():
        yield from ((s, True) for s in S.v4_strings(S.V4_PARTS, S.V4_SMALL, 3, 2))

    return dict(
        families=[
            fam("constants", lambda: special(S.const_hosts()), judge_host, "every constant of the code under test and look-alike code point (%d) in 13 frames" % len(S.CONST)),
            fam("parts", parts, judge_host, "dotted strings: all of <= %d parts over %d spellings, <= %d over %d, trailing dots, names in front" % (3 if T else 2, len(S.V4_PARTS), 5 if T else 4, len(S.V4_SMALL))),
            fam("characters", chars, judge_host, "all strings of <= %d characters over %d" % (6 if T else 5, len(V4_CHARS))),
            fam("numbers", nums, judge_host, "%d boundary values up to 2^65 in 8 notations x 8 prefixes x positions" % len(V4_NUMS)),
            fam("values", values, judge_v4_value, "address values: 12^4 octet combinations, 4 x %d sweeps; canonical form and 4 other notations" % (65536 if T else 9363)),
            fam("code-points", code_points, judge_host, "every code point up to U+%X as last part" % (0x10FFFF if T else 0x1FFFF)),
            fam("lengths", pumps, judge_host, "10 units repeated up to %d times in 7 frames" % S.PUMP_LENGTHS[-1]),
            fam("escapes", escapes, judge_host, "percent-encoded, full-width and separator spellings of digits"),
            fam("opaque", opaque, judge_host, "the same strings as opaque hosts stay verbatim"),
            fam("assigned", lambda: special(S.v4_strings(S.V4_PARTS, S.V4_SMALL, 3, 2)), judge_host_set, "the same strings assigned to hostname"),
        ],
        validated=VALIDATED,
        assumptions=[ASSUME_ICU],
    )


# ------------------------------------------------------------------------ C10

V6_SEEDS = [
    "1:2:3:4:5:6:7:8",
    "::",
    "::1",
    "1::",
    "2001:db8::ff00:42:8329",
    "0:0:1:0:0:0:1:0",
    "1:0:0:2:0:0:3:4",
    "::ffff:192.168.0.1",
    "64:ff9b::1.2.3.4",
    "1:2:3:4:5:6:1.2.3.4",
    "1:2:3:4:5:6:7::",
    "::2:3:4:5:6:7:8",
    "fFfF:0000:00a0:0:0:0:0:1",
]


def judge_v6_value(t, ctx):
    t = tuple(t)
    want = model.ipv6_serialize(t)
    ctx.traces += 1
    ctx.transitions += 3
    ctx.outcome("value")
    ctx.state(t)
    for x in (t, list(t)):
        if up.Host.serialize(x) != "[" + want + "]":
            return "Host.serialize(%r) = %r, want [%s]" % (x, up.Host.serialize(x), want)
    full = ":".join("%04X" % x for x in t)
    v4 = ":".join("%x" % x for x in t[:6]) + ":%d.%d.%d.%d" % (t[6] >> 8, t[6] & 255, t[7] >> 8, t[7] & 255)
    for s in (want, full, v4):
        if tuple(up.Host.parse("[" + s + "]")) != t:
            return "Host.parse('[%s]') = %r, want %r" % (s, up.Host.parse("[" + s + "]"), t)
    return None


def c10(tier):
    T = tier == "thorough"

    def br(gen):
        return (("[" + s + "]", False) for s in gen)

    def texts():
        yield from br(S.strings(S.V6_TOKENS, 5 if T else 4))
        yield from br(S.strings(S.V6_CHARS, 7 if T else 5))

    def groups():
        yield from br(S.v6_groups())
        yield from br(S.v6_masks(("0", "1", "")))
        yield from br(S.v6_tails())

    def edits():
        toks = S.T_EDIT if T else S.ASCII + ["::", "é", "1.2.3.4", "%31", "１", "\ud800"]
        for s in S.edits(V6_SEEDS, toks):
            yield ("[" + s + "]", False)
        for s in S.edits(["[" + x + "]" for x in V6_SEEDS[:5]], ["[", "]", ":", "a", "%", "."]):
            yield (s, False)
            yield (s, True)

    def edits2():
        yield from br(S.edits2(V6_SEEDS if T else V6_SEEDS[1:6], [":", "::", "0", ".", "1.2.3.4"] if T else [":", "0", "."]))

    def values():
        for t in product((0, 1, 0xFFFF) if T else (0, 0xABC), repeat=8):
            yield t
        for t in product((0, 1), repeat=8):
            for v in (1, 0xA, 0x10, 0xFF, 0x100, 0xFFF, 0x1000, 0xFFFF):
                yield tuple(x * v for x in t)
        for v in range(65536):
            k = v % 8
            yield tuple(v if i == k else (0 if (v >> i) & 1 else 1) for i in range(8))
            if T:
                for k in range(8):
                    yield tuple(v if i == k else 0 for i in range(8))

    def tails():
        octs = ["0", "1", "9", "10", "99", "100", "199", "200", "249", "250", "255", "256", "00", "01", "", "a", "1a", "-1", "999", "0x1", "١"]
        for a in octs:
            for b in octs:
                for t in ("%s.%s.3.4", "1.%s.%s.4", "1.2.%s.%s", "%s.2.3.%s"):
                    for h in ("::", "1:2:3:4:5:6:", "::f:", "1:2:3:4:5::", "1:2:3:4:5:", "1:2:3:4:5:6:7:"):
                        yield ("[" + h + t % (a, b) + "]", False)
        for n in range(256):
            for i in range(4):
                x = ["7"] * 4
                x[i] = str(n)
                yield ("[::" + ".".join(x) + "]", False)

    def lengths():
        for n in S.PUMP_LENGTHS:
            for u in ("0", "1", "f", ":", "1:", "::", "1.", "0:", "."):
                for pre, suf in (("", ""), ("::", ""), ("1:2:3:4:5:6:7:", ""), ("", "::1"), ("::1.2.3.", ""), ("1", ":1::")):
                    yield ("[" + pre + u * n + suf + "]", False)

    def points():
        for c in S.code_points(0, 0x110000 if T else 0x3100):
            yield ("[::" + c + "]", False)
            yield ("[" + c + "::1]", False)
            yield ("[::1]" + c, False)

    return dict(
        families=[
            fam("constants", lambda: special(S.const_hosts()), judge_host, "every constant of the code under test and look-alike code point (%d) in 13 frames" % len(S.CONST)),
            fam("texts", texts, judge_host, "all of <= %d tokens over %d and <= %d characters over %d" % (5 if T else 4, len(S.V6_TOKENS), 7 if T else 5, len(S.V6_CHARS))),
            fam("groups", groups, judge_host, "all sequences of 1..9 groups over {0,1,empty}; 511 heads x 21 IPv4 tails"),
            fam("edits", edits, judge_host, "every single edit of %d addresses with all of ASCII" % len(V6_SEEDS)),
            fam("edits2", edits2, judge_host, "every two edits of addresses"),
            fam("values", values, judge_v6_value, "all 256 zero patterns x 9 values; every piece value 0..65535; parsed from 3 notations, serialized from tuple and list"),
            fam("tails", tails, judge_host, "embedded IPv4: 21^2 octet spellings x 4 positions x 6 heads; every octet value"),
            fam("lengths", lengths, judge_host, "9 units repeated up to %d times in 6 frames" % S.PUMP_LENGTHS[-1]),
            fam("code-points", points, judge_host, "every code point up to U+%X in 3 positions" % (0x10FFFF if T else 0x30FF)),
            fam("opaque", lambda: ((s, True) for s, _ in groups()) if T else ((s, True) for i, (s, _) in enumerate(groups()) if i % 5 == 0), judge_host, "the same groups in a URL that is not special"),
            fam("assigned", lambda: ((s, False) for i, (s, _) in enumerate(groups()) if T or i % 5 == 0), judge_host_set, "the same groups assigned to hostname"),
        ],
        validated=VALIDATED,
        assumptions=[],
    )


# ------------------------------------------------------------------------ C11

PLAIN = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;=\"{}`")


def judge_domain(case, ctx):
    r = judge_host(case, ctx)
    if r:
        return r
    s, opaque = case
    got = impl_host(s, opaque)
    if got is FAIL or not isinstance(got[1], str) or not s:
        return None
    h = got[1]
    if opaque:
        if any(c in model.FORBIDDEN_HOST or not "!" <= c <= "~" for c in h):
            return "opaque host %s from %s" % (ascii(h), ascii(s))
    else:
        if any(c in model.FORBIDDEN_DOMAIN or not "!" <= c <= "~" for c in h):
            return "domain %s from %s" % (ascii(h), ascii(s))
        if h != h.lower():
            return "domain %s from %s is not lower case" % (ascii(h), ascii(s))
        # needs no UTS #46 tables: plain ASCII is only lower-cased
        if all(c in PLAIN for c in s) and "xn--" not in s.lower() and h != s.lower():
            return "plain domain %s became %s" % (ascii(s), ascii(h))
    return None


def judge_idna(s, ctx):
    ctx.traces += 1
    ctx.transitions += 4
    sc = model.scalars(s)
    for strict in (False, True):
        try:
            want = ("ok", model.Idna.to_ascii(sc, strict))
        except model.Failure:
            want = FAIL
        got = impl.guard(up.IDNA.domain_to_ascii, s, strict)
        ctx.state((strict, want))
        ctx.outcome("ascii " + want[0])
        if got != want:
            return "IDNA.domain_to_ascii(%s, %s): %s, want %s" % (ascii(s)[:300], strict, ascii(got)[:300], ascii(want)[:300])
        uni, err = model.Idna.to_unicode(sc, strict)
        if err and not uni and sc:
            continue  # ICU refuses to process it at all
        got = impl.guard(up.IDNA.domain_to_unicode, s, strict)
        if got != ("ok", uni):
            return "IDNA.domain_to_unicode(%s, %s): %s, want %s" % (ascii(s)[:300], strict, ascii(got)[:300], ascii(uni)[:300])
    if want is FAIL and not strict:
        return None
    return None


LABELS = ["a", "A-b", "-a", "a-", "ab--c", "xn--a", "xn--bcher-kva", "XN--ZCA", "xn--", "bücher", "ß", "ς", "\u0644\u0627", "א1", "1א", "a\u200d", "\u094d\u200d", "\u0308x", "_", "", "x" * 63, "x" * 64, "é" * 20, "①", "℀", "Ⅳ", "\u2260", "\U0001f308", "日本", "xn--n3h", "0x1", "٣"]


def c11(tier):
    T = tier == "thorough"

    def tokens():
        yield from both(S.strings(S.DOMAIN_TOKENS, 2))
        small = S.DOMAIN_TOKENS if T else S.DOMAIN_TOKENS[::2]
        yield from special(S.strings(small, 3, 3))

    def labels():
        for a in LABELS:
            for b in LABELS:
                for sep in (".", "。", "．", "｡", "%2e", "-"):
                    yield (a + sep + b, False)
                yield (a + "." + b, True)
                yield (a + "." + b + ".", False)
                if T:
                    for c in LABELS:
                        yield (a + "." + b + "." + c, False)

    def points():
        for c in S.code_points(0, 0x110000 if T else 0x30000):
            yield (c, False)
            yield ("a" + c + "b", False)
            if T or ord(c) < 0x3100:
                yield (c, True)
                yield ("a" + c + ".b", False)
                yield ("%s1" % c, False)

    def opaque_chunks():
        for c in S.chunks(64):
            yield ("x" + "".join(x for x in c if x not in model.FORBIDDEN_HOST) + "y", True)

    def escapes():
        for i in range(256):
            yield ("a%%%02X" % i, False)
            yield ("%%%02xb" % i, True)
            for j in range(256):
                yield ("%%%02x%%%02X" % (i, j), False)
        for n in (3, 4):
            for t in product([0x41, 0x80, 0xBF, 0xC3, 0xE3, 0x82, 0x81, 0xED, 0xA0, 0xF0, 0x9F], repeat=n):
                if n == 3 or T:
                    yield ("".join("%%%02X" % x for x in t), False)
        # escapes of escapes, incomplete ones, in every order
        yield from both(S.strings(["%", "2", "5", "4", "1", "E"] + (["a", "."] if T else []), 6, 3))
        for c in S.code_points(0x80, 0x3100 if not T else 0x20000):
            if not 0xD800 <= ord(c) <= 0xDFFF:
                yield ("".join("%%%02X" % x for x in model.utf8(c)) + "a", False)

    def lengths():
        for n in S.PUMP_LENGTHS:
            for u in ("a", "a.", "é", ".", "-", "xn--", "%61", "ß.", "1.", "\xad", "日", "_", "aA"):
                yield (u * n, False)
                yield (u * n, True)
                yield (u * n + "b", False)
                yield ("b." + u * n, False)

    def idna():
        yield from S.strings(S.DOMAIN_TOKENS, 2)
        for a in LABELS:
            for b in LABELS:
                yield a + "." + b
        for c in S.code_points(0, 0x110000 if T else 0x30000):
            yield c
            if T:
                yield "a" + c
        for n in S.PUMP_LENGTHS:
            for u in ("a", "a.", "é", ".", "日", "ß.", "aaaaaaaaa."):
                yield u * n
                yield u * n + "b"

    return dict(
        families=[
            fam("constants", lambda: both(S.const_hosts()), judge_domain, "every constant of the code under test and look-alike code point (%d) in 13 frames, special and opaque" % len(S.CONST)),
            fam("tokens", tokens, judge_domain, "hosts of <= 2 tokens over %d (special and opaque), 3 over %d" % (len(S.DOMAIN_TOKENS), len(S.DOMAIN_TOKENS) if T else len(S.DOMAIN_TOKENS[::2]))),
            fam("labels", labels, judge_domain, "%s of %d labels x 6 separators" % ("triples" if T else "pairs", len(LABELS))),
            fam("code-points", points, judge_domain, "every code point up to U+%X alone and inside a label" % (0x10FFFF if T else 0x2FFFF)),
            fam("opaque-chunks", opaque_chunks, judge_domain, "all scalar values in opaque hosts in chunks of 64"),
            fam("escapes", escapes, judge_domain, "every escape, every pair of escapes, UTF-8 boundary sequences, escaped code points"),
            fam("lengths", lengths, judge_domain, "13 units repeated up to %d times" % S.PUMP_LENGTHS[-1]),
            fam("assigned", lambda: both(S.strings(S.DOMAIN_TOKENS, 2)), judge_host_set, "the 2-token hosts assigned to hostname"),
            fam("idna", idna, judge_idna, "domain_to_ascii and domain_to_unicode, strict and not: 2 tokens, label pairs, every code point up to U+%X, lengths" % (0x10FFFF if T else 0x2FFFF)),
        ],
        validated=VALIDATED,
        assumptions=[ASSUME_ICU],
    )


# ------------------------------------------------------------------------ C14


def v4_valid(s):
    parts = s.split(".")
    return len(parts) == 4 and all(
        p
        and all(c in model.DIGIT for c in p)
        and (p == "0" or p[0] != "0")
        and len(p) <= 3
        and int(p) <= 255
        for p in parts
    )


def v6_valid(s):
    try:
        model.ipv6_parse(s, [])
        return True
    except model.Failure:
        return False


def domain_valid(s):
    """True | False | None where the two readings of the standard differ"""
    s = model.scalars(s)
    try:
        a = model.Idna.to_ascii(s, True)
    except model.Failure:
        return False
    x = model.Idna.to_unicode(s, True)[1]
    y = model.Idna.to_unicode(a, True)[1]
    return None if x != y else not x


def opaque_valid(s):
    if s == "":
        return False
    if s[0] == "[" and s[-1] == "]":
        return v6_valid(s[1:-1])
    return not any(
        c in model.FORBIDDEN_HOST or c != "%" and not model.is_url_cp(c) for c in s
    ) and not model.bad_percent(s)


def host_valid(s):
    if s[:1] == "[" and s[-1:] == "]":
        return v6_valid(s[1:-1])
    if model.ends_in_number(s):
        return v4_valid(s)
    d = domain_valid(s)
    if d and model.ends_in_number(model.Idna.to_ascii(model.scalars(s), True)):
        return None  # written as a domain, parsed as an IPv4 address
    return d


V = up.HostValidator
VALIDATORS = [
    ("is_valid", V.is_valid, host_valid),
    ("is_valid_domain", V.is_valid_domain, domain_valid),
    ("is_valid_ipv4_address", V.is_valid_ipv4_address, v4_valid),
    ("is_valid_ipv6_address", V.is_valid_ipv6_address, v6_valid),
    ("is_valid_opaque_host", V.is_valid_opaque_host, opaque_valid),
]
_reused = up.ValidityState()


def report_ok(v, verdict):
    n = v.validation_errors
    return (
        v.valid is verdict
        and (n == 0) is verdict
        and isinstance(n, int)
        and len(v.error_types) == n
        and len(v.descriptions) == n
    )


def judge_validators(s, ctx):
    ctx.traces += 1
    for name, f, oracle in VALIDATORS:
        ctx.transitions += 3
        want = oracle(s)
        a = f(s)
        fresh = up.ValidityState()
        b = f(s, validity=fresh)
        c = f(s, validity=_reused)
        what = "HostValidator.%s(%s)" % (name, ascii(s)[:300])
        ctx.state((name, want, tuple(fresh.error_types)))
        ctx.outcome("%s %s" % (name, a))
        if not isinstance(a, bool) or a is not b or a is not c:
            return "%s gives %r, %r with a report, %r with a reused report" % (what, a, b, c)
        if want is not None and a is not want:
            return "%s is %r" % (what, a)
        for v in (fresh, _reused):
            if not report_ok(v, a):
                return "%s is %r but reports %r" % (what, a, v)
        if fresh.error_types != _reused.error_types or fresh.descriptions != _reused.descriptions:
            return "%s: fresh and reused reports differ: %r %r" % (what, fresh, _reused)
        if a and name in ("is_valid", "is_valid_opaque_host"):
            if impl_host(s, name != "is_valid") is FAIL:
                return "%s is True but the host does not parse" % what
    return None


def c14(tier):
    T = tier == "thorough"

    def texts():
        yield from S.strings(S.T_EDIT, 1)
        yield from S.strings(S.T_MID, 2)
        if T:
            yield from S.strings(S.T_SMALL, 4, 3)

    def v4():
        yield from S.v4_strings(S.V4_PARTS, S.V4_SMALL, 4, 2)
        yield from S.strings(["0", "1", ".", "9", "x"], 7 if T else 6)
        octs = ["0", "1", "255", "256", "00", "01", "", "a", "１", "0x1"]
        for t in product(octs, repeat=4):
            yield ".".join(t)
        for i in range(1100):
            yield "1.%d.3.4" % i
            yield "1.2.3.%d" % i

    def v6():
        for s in S.v6_groups():
            yield s
        for s in S.edits(V6_SEEDS, [":", "0", ".", "g", "::", "%", "[", "]", "1.2.3.4", "é"]):
            yield s
            yield "[" + s + "]"
        yield from S.v6_tails()
        yield from S.strings(["[", "]", ":", "1", "a"], 6 if T else 5)

    def names():
        yield from S.strings(S.DOMAIN_TOKENS, 2)
        for a in LABELS:
            for b in LABELS:
                yield a + "." + b
        for c in S.code_points(0, 0x110000 if T else 0x10000):
            yield c
            if T or ord(c) < 0x3100:
                yield "a" + c + "b"
        for c in S.chunks(64):
            yield c
        for n in S.PUMP_LENGTHS:
            for u in ("a", "a.", "1", "1.", ":", "%41", "%", "é", "[", "0", "x" * 9 + "."):
                yield u * n
                yield u * n + "b"

    def opaques():
        yield from S.strings(["a", "%", "%41", "%4", "é", "\ufdd0", "|", "^", "~", '"', "[", "\x7f", ":", "\ud800", " ", "\U0001fffe"], 4 if T else 3)
        for p in range(0, 0x110000, 0x10000):
            for o in range(0xFFC0, 0x10000):
                yield "a" + chr(p + o)
        for o in range(0xFDC0, 0xFE00):
            yield chr(o)

    return dict(
        families=[
            fam("constants", S.const_hosts, judge_validators, "every constant of the code under test and look-alike code point (%d) in 13 frames" % len(S.CONST)),
            fam("texts", texts, judge_validators, "every token of %d, pairs over %d%s" % (len(S.T_EDIT), len(S.T_MID), ", <= 4 over 18" if T else "")),
            fam("ipv4", v4, judge_validators, "dotted strings and <= %d characters over 5; 10^4 octet spellings; 0..1099" % (7 if T else 6)),
            fam("ipv6", v6, judge_validators, "groups, edits, IPv4 tails, bracket strings"),
            fam("names", names, judge_validators, "domain tokens, label pairs, every code point up to U+%X, chunks, lengths" % (0x10FFFF if T else 0xFFFF)),
            fam("opaque", opaques, judge_validators, "URL unit strings of <= %d tokens, all noncharacters" % (4 if T else 3)),
        ],
        validated="every verdict (with no report, a fresh and a reused report) is compared with the grammar evaluated on the model's primitives",
        assumptions=[ASSUME_ICU],
    )
