"""C07 (form codec), C08 (percent-encode sets), C18 (encodings), C19 (urlparse)."""

from __future__ import annotations

import codecs
from itertools import product

from .. import impl, model
from .. import spaces as S
from .common import ASSUME_ICU, BASES, BASES_CORE, FAIL, VALIDATED, corpus, fam

up = impl.up

# ------------------------------------------------------------------------ C07

FORM_BYTES = [b"a", b"=", b"&", b"+", b"%", b"%41", b"%4", b"%2B", b"%26", b"%3d", b"%C3", b"%a9", b"\xc3", b"\xa9", b"\xff", b"\x00", b" ", b"#", b"?"]
U8_BYTES = [0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF, 0xBB, 0xFE]
FORM_OK = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789*-._+&=%")
PAIR_TOKENS = ["a", "é", "&", "=", "+", "%", "%41", " ", "~", "\x00", "\ud800", "\U0001f308", "*", "'", "?", "#", "\n", "/", "!", "\ufeff"]


def judge_form_parse(b, ctx):
    want = model.form_parse(b)
    got = up.parse_qsl(b)
    ctx.traces += 1
    ctx.transitions += len(want) + 1
    ctx.state(tuple(want))
    ctx.outcome("%d pairs" % len(want) if len(want) < 4 else ">3 pairs")
    if got != want:
        return "parse_qsl(%r) = %s, the standard says %s" % (b[:200], ascii(got)[:300], ascii(want)[:300])
    if [tuple(x) for x in got] != want or not isinstance(got, list):
        return "parse_qsl(%r): %r" % (b[:200], got)
    return None


def judge_form_text(s, ctx):
    """the same through URLSearchParams, and re-serialization"""
    want = model.form_parse(model.utf8(s[1:] if s.startswith("?") else s))
    p = up.URLSearchParams(s)
    ctx.traces += 1
    ctx.transitions += 2
    ctx.state(tuple(want))
    ctx.outcome("text")
    if list(p) != want:
        return "URLSearchParams(%s) lists %s, want %s" % (ascii(s)[:200], ascii(list(p))[:300], ascii(want)[:300])
    t = str(p)
    if t != model.form_serialize(want):
        return "str(URLSearchParams(%s)) = %s" % (ascii(s)[:200], ascii(t)[:300])
    if list(up.URLSearchParams(t)) != want and not t.startswith("?"):
        return "URLSearchParams(%s) does not survive serialization" % ascii(s)[:200]
    return None


def judge_form_serialize(pairs, ctx):
    pairs = [tuple(p) for p in pairs]
    want = model.form_serialize(pairs)
    got = up.urlencode(pairs)
    ctx.traces += 1
    ctx.transitions += len(pairs) + 1
    ctx.state(want)
    ctx.outcome("serialized")
    what = "urlencode(%s)" % ascii(pairs)[:300]
    if got != want:
        return "%s = %s, the standard says %s" % (what, ascii(got)[:300], ascii(want)[:300])
    if not set(got) <= FORM_OK:
        return "%s = %s" % (what, ascii(got)[:300])
    back = up.parse_qsl(got.encode("ascii"))
    clean = [(model.scalars(a), model.scalars(b)) for a, b in pairs]
    if back != clean:
        return "%s parses back as %s" % (what, ascii(back)[:300])
    p = up.URLSearchParams([list(x) for x in pairs])
    if str(p) != want or list(p) != clean:
        return "%s: URLSearchParams gives %s" % (what, ascii(str(p))[:300])
    u = impl.URL("http://h/")
    for a, b in pairs:
        u.search_params.append(a, b)
    if u.search != ("?" + want if pairs else ""):
        return "%s: as a query %s" % (what, ascii(u.search)[:300])
    if list(impl.URL(u.href).search_params) != clean:
        return "%s: read from the URL %s" % (what, ascii(u.href)[:300])
    return None


def c07(tier):
    T = tier == "thorough"

    def raw():
        for n in range(0, 5 if T else 4):
            for t in product(FORM_BYTES, repeat=n):
                yield b"".join(t)
        for i in range(256):
            for j in range(256):
                yield bytes((i, j))
        for i in range(256):
            yield b"%%%02x" % i
            for j in range(256):
                yield b"%%%02X%%%02x=v" % (i, j)

    def utf8():
        for n in (3, 4):
            for t in product(U8_BYTES if n == 3 or T else U8_BYTES[3::2], repeat=n):
                yield bytes(t)
                if n == 3:
                    yield b"k=" + b"".join(b"%%%02X" % x for x in t)

    def escapes():
        for i in range(256):
            for j in range(256):
                yield b"%" + bytes((i, j)) + b"a"

    def texts():
        for s in S.strings(PAIR_TOKENS, 4 if T else 3):
            yield s
        for c in S.code_points(0, 0x110000 if T else 0x3100):
            yield c + "=" + c
            yield "?" + c

    def lists():
        one = list(S.strings(PAIR_TOKENS, 1))
        two = list(S.strings(PAIR_TOKENS, 2))
        for a in two:
            yield [(a, "")]
            yield [("", a)]
            yield [(a, a)]
        for a in one:
            for b in one:
                yield [(a, b)]
                for c in one[::3]:
                    yield [(a, b), (c, a)]
                    if T:
                        for d in one[::2]:
                            yield [(a, b), (c, d), (d, a)]
        for c in S.code_points(0, 0x110000 if T else 0x3100):
            yield [(c, "x" + c)]
        for c in S.chunks(64):
            yield [(c, c[::-1])]
        for n in S.PUMP_LENGTHS:
            if n > (2100 if T else 600):
                continue
            yield [("k%d" % (i % 5), "é" * (i % 3)) for i in range(n)]
            yield [("~" * n, "+ " * n), ("", "\ud800" * n)]
            yield [("", "")] * n

    def const_bytes():
        for w in S.CONST_WORDS:
            b = model.utf8(w)
            for f in (b"%s", b"%s=1", b"a=%s", b"a&%s&b", b"%%4%s", b"+%s+"):
                yield f.replace(b"%s", b)
            yield b"".join(b"%%%02X" % x for x in b)

    def const_lists():
        for w in S.CONST_WORDS:
            yield [(w, w)]
            yield [("a", w), (w, "")]

    def long_bytes():
        for n in S.PUMP_LENGTHS:
            for u in (b"&", b"=", b"a=b&", b"%", b"%4", b"%41", b"+", b"\xe2\x82", b"\xf0\x9f\x8c\x88", b"%F0%9F%8C", b"%%41"):
                yield u * n
                yield b"a=" + u * n + b"&b"

    return dict(
        families=[
            fam("bytes", raw, judge_form_parse, "all byte strings of <= %d tokens over %d, all 2-byte strings, all pairs of escapes" % (4 if T else 3, len(FORM_BYTES))),
            fam("utf-8", utf8, judge_form_parse, "all 3- and 4-byte strings over the UTF-8 boundary bytes (%d), raw and escaped" % len(U8_BYTES)),
            fam("escapes", escapes, judge_form_parse, "'%' followed by every two bytes"),
            fam("long", long_bytes, judge_form_parse, "11 units repeated up to %d times" % S.PUMP_LENGTHS[-1]),
            fam("constants", const_bytes, judge_form_parse, "every constant of the code under test and look-alike code point (%d) in 7 frames" % len(S.CONST)),
            fam("const-texts", lambda: (f.replace("%s", w) for w in S.CONST_WORDS for f in ("%s", "?%s", "a=%s&%s=b")), judge_form_text, "the same as text"),
            fam("const-lists", const_lists, judge_form_serialize, "the same as names and values"),
            fam("texts", texts, judge_form_text, "all strings of <= %d tokens over %d; every code point up to U+%X" % (4 if T else 3, len(PAIR_TOKENS), 0x10FFFF if T else 0x30FF)),
            fam("lists", lists, judge_form_serialize, "lists of <= %d pairs over %d tokens, every code point, all 1,112,064 scalar values in chunks, lists up to %d pairs" % (3 if T else 2, len(PAIR_TOKENS), 2049 if T else 513)),
        ],
        validated=VALIDATED,
        assumptions=[],
    )


# ------------------------------------------------------------------------ C08

# (template, attribute, prefix stripped from the attribute, percent-encode set)
ENC_SLOTS = [
    ("http://{0}@h/", "username", "", model.USERINFO_SET),
    ("http://u:{0}@h/", "password", "", model.USERINFO_SET),
    ("a://u{0}v:w{0}x@h/", "username", "", model.USERINFO_SET),
    ("http://h/{0}", "pathname", "/", model.PATH_SET),
    ("http://h/x{0}y?q", "pathname", "/", model.PATH_SET),
    ("file:///x{0}y/z", "pathname", "/", model.PATH_SET),
    ("a:/x{0}y", "pathname", "/", model.PATH_SET),
    ("a://h/p/x{0}y", "pathname", "/p/", model.PATH_SET),
    ("a:x{0}y", "pathname", "", model.C0_SET),
    ("a:x{0}y?", "pathname", "", model.C0_SET),
    ("http://h/?{0}", "search", "?", model.SPECIAL_QUERY_SET),
    ("file:///?x{0}y", "search", "?", model.SPECIAL_QUERY_SET),
    ("wss://h/?x{0}y", "search", "?", model.SPECIAL_QUERY_SET),
    ("a://h?x{0}y", "search", "?", model.QUERY_SET),
    ("a:b?{0}#f", "search", "?", model.QUERY_SET),
    ("http://h/#{0}", "hash", "#", model.FRAGMENT_SET),
    ("a:b#x{0}y", "hash", "#", model.FRAGMENT_SET),
    ("a://x{0}y/", "hostname", "", model.C0_SET),
    ("a://{0}:80/", "hostname", "", model.C0_SET),
]
# what ends or splits the component, or is dropped from the input
STRUCT = {
    "username": ":/?#@\\",
    "password": "/?#@\\",
    "pathname": "/\\?#",
    "search": "#",
    "hash": "",
    "hostname": "".join(sorted(model.FORBIDDEN_HOST)) + "@",
}
SET_SLOTS = [
    ("http://h/", "username", "", "", model.USERINFO_SET),
    ("a://h/", "username", "", "", model.USERINFO_SET),
    ("http://h/", "password", "", "", model.USERINFO_SET),
    ("http://h/", "pathname", "/", "/", model.PATH_SET | {"#", "?"}),
    ("a:/x", "pathname", "/", "/", model.PATH_SET | {"#", "?"}),
    ("file:///x", "pathname", "/p/", "/p/", model.PATH_SET | {"#", "?"}),
    ("http://h/", "search", "?", "?", model.SPECIAL_QUERY_SET | {"#"}),
    ("a:b", "search", "?", "?", model.QUERY_SET | {"#"}),
    ("http://h/", "hash", "#", "#", model.FRAGMENT_SET),
    ("a:b", "hash", "#", "#", model.FRAGMENT_SET),
    ("a://h/", "hostname", "x", "x", model.C0_SET),
]


def dots(seg):
    """a dot segment, which is not kept (C21)"""
    return seg.lower().replace("%2e", ".") in (".", "..")


def judge_enc(case, ctx):
    """one code point (or several) in one slot: exactly the set is encoded"""
    slot, text = case
    tpl, attr, pre, pset = ENC_SLOTS[slot]
    struct = STRUCT[attr]
    if not text or any(c in struct or c in "\t\n\r" for c in text):
        return None
    s = tpl.replace("{0}", text)
    if s[-1] <= " " or s[0] <= " ":
        return None
    u = impl.URL(s)
    got = getattr(u, attr)
    enc = model.pe(text, pset)
    # the fixed characters around the slot, in this component
    i = tpl.index("{0}")
    left = tpl[:i]
    right = tpl[i + 3 :]
    k = 0
    while k < len(left) and left[-1 - k] in "xyuvwz":
        k += 1
    lead = left[len(left) - k :] if k else ""
    j = 0
    while j < len(right) and right[j] in "xyuvwz":
        j += 1
    tail = right[:j]
    if tpl == "file:///x{0}y/z":
        tail = "y/z"
    want = pre + lead + enc + tail
    ctx.traces += 1
    ctx.transitions += 1
    ctx.state((slot, enc))
    ctx.outcome("encoded" if enc != text else "verbatim")
    if dots(text) and attr == "pathname":
        return None
    if got != want:
        return "URL(%s).%s = %s, want %s" % (ascii(s)[:300], attr, ascii(got)[:300], ascii(want)[:300])
    if attr == "username" and tpl.startswith("a://u{0}"):
        want = "w" + enc + "x"
        if u.password != want:
            return "URL(%s).password = %s, want %s" % (ascii(s)[:300], ascii(u.password)[:300], ascii(want)[:300])
    return None


def judge_enc_set(case, ctx):
    slot, text = case
    start, attr, vpre, gpre, pset = SET_SLOTS[slot]
    if any(c in "\t\n\r" for c in text) and attr not in ("username", "password"):
        return None
    u = impl.URL(start)
    if attr == "hostname" and any(c in model.FORBIDDEN_HOST for c in text):
        return None
    if attr == "pathname":
        if "/" in text or "\\" in text and u.protocol in ("http:", "file:"):
            return None
        if dots(text):
            return None
    want = gpre + model.pe(text, pset)
    if want in ("?", "#"):
        want = ""
    setattr(u, attr, vpre + text)
    got = getattr(u, attr)
    ctx.traces += 1
    ctx.transitions += 1
    ctx.state((slot, want))
    ctx.outcome("assigned")
    if got != want:
        return "%s, %s = %s gives %s, want %s" % (start, attr, ascii(vpre + text)[:300], ascii(got)[:300], ascii(want)[:300])
    return None


# every component in URLs of every shape: which others are there and which not
def enc_shapes():
    """(URL with one slot {0}, attribute, start and end of its value, set)"""
    auths = []
    for sch in ("http", "https", "ws", "wss", "ftp"):
        for cr in ("", "u@", "u:p@", ":p@"):
            for h in ("h", "[::1]", "1.2.3.4"):
                for port in ("", ":8"):
                    auths.append((sch, cr, h, port))
    auths += [("file", "", h, "") for h in ("", "h", "[::1]")]
    auths += [("a", cr, h, port) for cr in ("", "u:p@", ":p@") for h in ("h", "[::1]", "1.2.3.4") for port in ("", ":8")]
    auths += [("a", "", "", "")]
    heads = [(sch, "%s://%s%s%s" % (sch, cr, h, port), cr, h, port) for sch, cr, h, port in auths]
    heads += [("a", "a:", None, None, None), ("blob", "blob:", None, None, None)]
    tails = [(q, f) for q in (None, "", "q") for f in (None, "", "f")]

    def tail(q, f):
        return ("" if q is None else "?" + q) + ("" if f is None else "#" + f)

    for sch, head, cr, h, port in heads:
        special = sch not in ("a", "blob")
        qset = model.SPECIAL_QUERY_SET if special else model.QUERY_SET
        paths = ["/", "/p", "/p/q"] + (["", "/C:/x"] if h is not None else ["p", "p q"])
        for q, f in tails:
            t = tail(q, f)
            for pre, post in (("/", ""), ("/", "/"), ("/p/", ""), ("/p/x", "y/q"), ("/C:/", "")):
                yield head + pre + "{0}" + post + t, "pathname", pre, post, model.PATH_SET
            if h is None:
                for pre, post in (("", "z"), ("x", ""), ("x/", "/../y"), ("p q", "z")):
                    if post or t:
                        yield head + pre + "{0}" + post + t, "pathname", pre, post, model.C0_SET
            if sch == "a" and h == "h":
                for pre, post in (("", ""), ("x", "y")):
                    yield "a://%s%s{0}%s%s" % (cr, pre, post, port) + "/p" + t, "hostname", pre, post, model.C0_SET
            if h and sch != "file":
                rest = "@%s%s" % (h, port) + "/p" + t
                for pre, post in (("", ""), ("x", "y")):
                    yield "%s://%s{0}%s" % (sch, pre, post) + rest, "username", pre, post, model.USERINFO_SET
                    yield "%s://%s{0}%s:p" % (sch, pre, post) + rest, "username", pre, post, model.USERINFO_SET
                    yield "%s://u:%s{0}%s" % (sch, pre, post) + rest, "password", pre, post, model.USERINFO_SET
                    yield "%s://:%s{0}%s" % (sch, pre, post) + rest, "password", pre, post, model.USERINFO_SET
        for p in paths:
            for f in (None, "", "f"):
                for pre, post in (("", ""), ("a=1&", "x"), ("?", "x")):
                    yield head + p + "?" + pre + "{0}" + post + tail(None, f), "search", "?" + pre, post, qset
            for q in (None, "", "q"):
                for pre, post in (("", ""), ("x", "#y")):
                    yield head + p + tail(q, None) + "#" + pre + "{0}" + post, "hash", "#" + pre, post, model.FRAGMENT_SET


ENC_CHARS = [chr(i) for i in range(0x80)] + ["\x80", "\xa0", "\xe9", "\u212a", "\ufeff", "\uffff", "\U0001f308", "\ud800"]


def enc_text(url, attr):
    """every ASCII character and some others that the component can hold"""
    drop = STRUCT[attr]
    if attr == "pathname" and url.split(":")[0] in ("a", "blob"):
        drop = "?#" if url[url.index(":") + 1] != "/" else "/?#"
    cs = [c for c in ENC_CHARS if c not in drop and c not in "\t\n\r"]
    return cs


def judge_enc_shape(case, ctx):
    url, attr, pre, post, pset, mode = case
    cs = enc_text(url, attr)
    text = {"up": "".join(cs), "down": "".join(reversed(cs)), "one": None}.get(mode)
    for t in [text] if text is not None else cs:
        if t is None:
            continue
        if mode == "one" and (dots(t) or url.endswith("{0}") and t <= " " or t in ":" and attr == "hostname"):
            continue
        if url.endswith("{0}") and t[-1] <= " ":
            t = t + "x"
        s = url.replace("{0}", t)
        want = pre + model.pe(t, pset) + post
        got = getattr(impl.URL(s), attr)
        ctx.traces += 1
        ctx.transitions += 1
        ctx.outcome(attr)
        if got != want:
            return "URL(%s).%s = %s, want %s" % (ascii(s)[:400], attr, ascii(got)[:400], ascii(want)[:400])
    ctx.state((attr, want) if text is not None else url)
    return None


def set_shapes():
    """every assignable component of URLs of every shape"""
    for start in S.shapes(["", "?", "?q=1"], ["", "#", "#f"]):
        for attr in ("username", "password", "pathname", "search", "hash", "hostname"):
            for vpre in ("", "x"):
                yield start, attr, vpre


def judge_set_shape(case, ctx):
    start, attr, vpre = case
    u = impl.URL(start)
    special = u.protocol in ("http:", "https:", "ws:", "wss:", "ftp:", "file:")
    opaque = not u.pathname.startswith("/") and start.split(":")[1][:2] != "//"
    bare = u.hostname == "" or u.protocol == "file:"
    sets = {
        "username": model.USERINFO_SET, "password": model.USERINFO_SET, "pathname": model.PATH_SET | {"?", "#"},
        "search": (model.SPECIAL_QUERY_SET if special else model.QUERY_SET) | {"#"}, "hash": model.FRAGMENT_SET, "hostname": model.C0_SET,
    }  # fmt: skip
    if attr in ("username", "password") and bare or attr in ("pathname", "hostname") and opaque or attr == "hostname" and special:
        ctx.outcome("does not apply")
        return None
    drop = "" if attr in ("username", "password") else "\t\n\r"
    if attr == "pathname":
        drop += "/" + ("\\" if special else "")
    if attr == "hostname":
        drop += "".join(sorted(model.FORBIDDEN_HOST)) + "/?#:"
    lead = {"pathname": "/", "search": "?", "hash": "#"}.get(attr, "")
    cs = "".join(c for c in ENC_CHARS if c not in drop)
    for t in (cs, cs[::-1]):
        u = impl.URL(start)
        setattr(u, attr, lead + vpre + t)
        want = lead + vpre + model.pe(t, sets[attr])
        got = getattr(u, attr)
        ctx.traces += 1
        ctx.transitions += 1
        ctx.outcome("assigned " + attr)
        if got != want:
            return "%s, %s = %s gives %s, want %s" % (ascii(start), attr, ascii(lead + vpre + t)[:300], ascii(got)[:400], ascii(want)[:400])
    ctx.state((start, attr, vpre))
    return None


PRINTABLE = "".join(map(chr, range(0x20, 0x7F)))
SETS = {
    "c0": model.C0_SET,
    "fragment": model.FRAGMENT_SET,
    "query": model.QUERY_SET,
    "special-query": model.SPECIAL_QUERY_SET,
    "path": model.PATH_SET,
    "userinfo": model.USERINFO_SET,
    "component": model.COMPONENT_SET,
}


def judge_enc_func(case, ctx):
    name, text, plus = case
    pset = SETS[name]
    safe = "".join(c for c in PRINTABLE if c not in pset)
    want = model.pe_encoded(text, None, pset, plus and " " not in safe)
    ctx.traces += 1
    ctx.transitions += 1
    ctx.state((name, want))
    ctx.outcome("encode function")
    if plus and ("+" in safe or " " in safe):
        return None  # '+' and space could not be told apart: not a use case
    for f in (up.string_percent_encode, up.utf8_percent_encode):
        got = f(text, safe, space_as_plus=plus)
        if got != want:
            return "%s(%s, safe for the %s set, space_as_plus=%s) = %s, want %s" % (
                f.__name__, ascii(text)[:300], name, plus, ascii(got)[:300], ascii(want)[:300])  # fmt: skip
    return None


def judge_dec(s, ctx):
    want = model.percent_decode(model.utf8(s))
    got = up.string_percent_decode(s)
    ctx.traces += 1
    ctx.transitions += 1
    ctx.state(want)
    ctx.outcome("decoded" if "%" in s else "verbatim")
    if got != want or not isinstance(got, bytes):
        return "string_percent_decode(%s) = %r, want %r" % (ascii(s)[:300], got[:300], want[:300])
    return None


def c08(tier):
    T = tier == "thorough"
    cps = 0x110000 if T else 0x1000
    toks = ["%", "%4", "%41", "%zz", "%e9", "a", "é", "\ud800", "\udc00", "\U0001f308", "'", '"', "~", "^", "|", "`", "{", " ", "\x7f", "\x80"]

    def single():
        for i in range(cps):
            for k in range(len(ENC_SLOTS)):
                yield (k, chr(i))

    def chunked():
        for c in S.chunks(64, 0x80):
            for k in range(len(ENC_SLOTS)):
                if T or ord(c[0]) < 0x10000 or k % 4 == 0:
                    yield (k, c)

    def mixed():
        for s in S.strings(toks, 3 if T else 2):
            for k in range(len(ENC_SLOTS)):
                yield (k, s)
        for n in S.PUMP_QUICK:
            for u in ("é", "%", "'", "a\U0001f308", "\ud800", "%41"):
                for k in range(len(ENC_SLOTS)):
                    yield (k, u * n)

    def boundaries():
        # a unit that must not be cut, behind every number of others
        for n in S.PUMP_LENGTHS if T else [n for n in S.PUMP_QUICK if n <= 2049]:
            for a in ("a", "é", "\U0001f308"):
                for u in ("\ud83c\udf08", "é", "%41", "\ud800") if T or a == "a" else ("\ud83c\udf08",):
                    yield a * n + u

    def sets():
        for i in range(cps):
            for k in range(len(SET_SLOTS)):
                yield (k, chr(i))
        for s in S.strings(toks, 3 if T else 2):
            for k in range(len(SET_SLOTS)):
                yield (k, s)
        for c in S.chunks(128, 0x80):
            for k in range(len(SET_SLOTS)):
                if T or ord(c[0]) < 0x10000 or k % 3 == 0:
                    yield (k, c)

    def funcs():
        for i in range(cps):
            for n in SETS:
                yield (n, chr(i), False)
            yield ("component", chr(i) + " ", True)
        for s in S.strings(toks + ["\x00", "+", "&#", "/"], 3 if T else 2):
            for n in SETS:
                yield (n, s, False)
            yield ("component", s, True)

    def dec():
        for a in range(128):
            for b in range(128):
                yield "x%" + chr(a) + chr(b) + "y"
        for a in range(256):
            for b in ("0", "F", "g", "é"):
                yield "%" + chr(a) + b
                yield "%" + b + chr(a)
        yield from S.strings(["%", "4", "1", "e", "G", "%41", "%C3", "é", "\ud800", "+", "%%", " ", "％"], 5 if T else 4)
        for c in S.code_points(0, cps):
            yield c
            yield "%4" + c
        for n in S.PUMP_LENGTHS:
            for u in ("%", "%4", "%41", "é", "%C3", "a"):
                yield u * n

    return dict(
        families=[
            fam("constants", lambda: ((k, w) for w in S.CONST_WORDS for k in range(len(ENC_SLOTS))), judge_enc, "every constant of the code under test and look-alike code point (%d) in %d component positions" % (len(S.CONST), len(ENC_SLOTS))),
            fam("const-assigned", lambda: ((k, w) for w in S.CONST_WORDS for k in range(len(SET_SLOTS))), judge_enc_set, "the same assigned"),
            fam("const-decode", lambda: (f.replace("%s", w) for w in S.CONST_WORDS for f in ("%s", "%4%s", "%%s1", "%41%s%C3")), judge_dec, "the same percent-decoded"),
            fam("shapes", lambda: (x + (m,) for x in enc_shapes() for m in (("up", "down", "one") if T else ("up", "down"))), judge_enc_shape, "all of ASCII and 8 other code points, ascending and descending, in every component of URLs of every shape (scheme class x credentials x host kind x port x path x query x fragment)"),
            fam("shapes-assigned", set_shapes, judge_set_shape, "the same assigned to the six components of URLs of every shape"),
            fam("single", single, judge_enc, "every code point up to U+%X alone in %d component positions" % (cps - 1, len(ENC_SLOTS))),
            fam("chunks", chunked, judge_enc, "all non-ASCII scalar values in chunks of 64 in %d component positions" % len(ENC_SLOTS)),
            fam("mixed", mixed, judge_enc, "strings of <= %d tokens over %d in every position; 6 units up to %d times" % (3 if T else 2, len(toks), S.PUMP_QUICK[-1])),
            fam("boundaries", lambda: ((k, w) for w in boundaries() for k in range(len(ENC_SLOTS))), judge_enc, "3 units in lengths up to %d, and behind them a surrogate pair, a letter, an escape, a lone surrogate, in every position" % (S.PUMP_LENGTHS[-1] if T else 2049)),
            fam("boundaries-assigned", lambda: ((k, w) for w in boundaries() for k in range(len(SET_SLOTS))), judge_enc_set, "the same assigned"),
            fam("assigned", sets, judge_enc_set, "the same through %d setters" % len(SET_SLOTS)),
            fam("functions", funcs, judge_enc_func, "string_percent_encode and utf8_percent_encode with the standard's 7 sets"),
            fam("decode", dec, judge_dec, "'%' followed by all of ASCII x ASCII; strings of <= 4 tokens; every code point; lengths up to 8193"),
        ],
        validated=VALIDATED,
        assumptions=[],
    )


# ------------------------------------------------------------------------ C18

LEGACY = {
    "windows-1252": "cp1252",
    "iso-8859-2": "iso8859_2",
    "windows-1251": "cp1251",
    "koi8-r": "koi8_r",
    "ibm866": "cp866",
    "shift_jis": "shift_jis",
    "euc-jp": "euc_jp",
    "gbk": "gbk",
    "gb18030": "gb18030",
    "big5": "big5",
    "euc-kr": "euc_kr",
    "us-ascii": "ascii",
    "latin-1": "latin_1",
    "macintosh": "mac_roman",
    "koi8-u": "koi8_u",
    "iso-8859-8": "iso8859_8",
    "iso-2022-jp": "iso2022_jp",
}
# encodings with shift states: exercised with an alphabet of their own
STATEFUL = {"iso-2022-jp"}
AS_UTF8 = ["utf-8", "UTF-8", "utf8", "Utf_8", "utf-16le", "UTF-16BE", "utf-16", "UTF16", "utf_16_le"]
AS_UTF8_MORE = ["u8", "U8", "utf", "cp65001", "UTF_16_BE", "utf-16-be", "utf-16-le", "UTF-16-LE", "utf_16", "u16", "U16"]


_AS_UTF8_LOWER = {x.lower() for x in AS_UTF8 + AS_UTF8_MORE}
_encoders: dict = {}


def encoder(label):
    """code point -> bytes | None, per the codec; None for UTF-8"""
    if label.lower() in _AS_UTF8_LOWER:
        return None
    f = _encoders.get(label)
    if f is None:
        codec = codecs.lookup(LEGACY[label.lower()])

        def f(c, codec=codec):
            try:
                return codec.encode(c, "strict")[0]
            except UnicodeEncodeError:
                return None

        f.stateful = label.lower() in STATEFUL
        _encoders[label] = f
    return f


def model_enc(s, base, label):
    try:
        r = model.parse_with_base(s, base, encoder(label))
    except model.Failure:
        return FAIL
    return ("ok", r.key(), r.href())


ENC_BASES = [None, "http://h/a?b#c", "a://h/x", "ws://h/p?q", "file:///C:/x", "http://é.x/é?é中#é", "file:///é?中é", "ws://h/?é中"]


def judge_encoding(case, ctx):
    s, base, label = case
    want = model_enc(s, base, label)
    got = impl.parse_outcome(s, base, label)
    ctx.traces += 1
    ctx.state(want)
    ctx.outcome(want[0])
    what = "parse_url(%s, %s, %s)" % (ascii(s)[:300], ascii(base), label)
    if got != want:
        return "%s: %s, the standard says %s" % (what, ascii(got)[:400], ascii(want)[:400])
    if want is not FAIL:
        plain = impl.parse_outcome(s, base)
        if plain[0] != "ok":
            return "%s succeeds but fails without the encoding" % what
        a, b = list(got[1]), list(plain[1])
        if a[0] not in ("http", "https", "ftp", "file") and a != b:
            return "%s: %s, without the encoding %s" % (what, ascii(a)[:300], ascii(b)[:300])
        a[6] = b[6] = None
        if a != b or (got[1][6] is None) != (plain[1][6] is None):
            return "%s differs outside the query from the result without the encoding: %s %s" % (what, ascii(a)[:300], ascii(b)[:300])
    return None


def judge_form_encoding(case, ctx):
    pairs, label = case
    pairs = [tuple(p) for p in pairs]
    want = model.form_serialize(pairs, encoder(label))
    ctx.traces += 1
    ctx.transitions += 1
    ctx.state(want)
    ctx.outcome("form")
    got = up.urlencode(pairs, encoding=label)
    if got != want:
        return "urlencode(%s, encoding=%s) = %s, the standard says %s" % (ascii(pairs)[:300], label, ascii(got)[:300], ascii(want)[:300])
    return None


def judge_str_encoding(case, ctx):
    s, label = case
    e = encoder(label)
    for name, pset in (("special-query", model.SPECIAL_QUERY_SET), ("component", model.COMPONENT_SET)):
        safe = "".join(c for c in PRINTABLE if c not in pset)
        want = model.pe_encoded(s, e, pset)
        got = up.string_percent_encode(s, safe, encoding=label)
        if got != want:
            return "string_percent_encode(%s, %s set, %s) = %s, want %s" % (ascii(s)[:300], name, label, ascii(got)[:300], ascii(want)[:300])
    ctx.traces += 1
    ctx.transitions += 2
    ctx.state((label, want))
    ctx.outcome("string")
    return None


def c18(tier):
    T = tier == "thorough"
    labels = list(LEGACY) + AS_UTF8
    core = ["windows-1252", "shift_jis", "gb18030", "iso-8859-2", "us-ascii", "iso-2022-jp"]
    tpls = ["http://h/{0}?{0}#{0}", "https://h?a{0}b", "file:///?{0}", "ftp://h/?{0}#x", "ws://h/?{0}", "wss://h/?{0}", "a:b?{0}#{0}", "a://h?{0}"]
    toks = ["a", "é", "ł", "中", "\U0001f308", "'", '"', "#", "?", "&", "%", "%E9", " ", "&#", ";", "€", "\\", "~", "\ud800", "\xa0"]
    # two-byte code points whose bytes are '&#' and '"' in ISO-2022-JP
    shift = ["a", "あ", "Γ", "\U0001f308", "#", "&", "%", " ", "é"]

    def stateful():
        for lab in sorted(STATEFUL):
            for s in S.strings(shift, 6 if T else 5):
                yield ("http://h/?" + s, None, lab)

    def stateful_forms():
        for lab in sorted(STATEFUL):
            for s in S.strings(shift, 5 if T else 4):
                yield ([(s, s)], lab)

    def cased(x):
        return [x, x.upper(), x.capitalize()]

    def words():
        for s in S.strings(toks, 2):
            for t in tpls:
                for lab in labels:
                    yield (t.replace("{0}", s), None, lab)
        for s in S.strings(toks, 4 if T else 3, 3):
            for lab in core:
                yield (tpls[1].replace("{0}", s), None, lab)

    def rel():
        for s in S.strings(["a", "?", "é", "#", "中", "/", "http:", "'"], 4 if T else 3):
            for b in ENC_BASES:
                for lab in core + ["UTF-16", "UTF-8"]:
                    yield (s, b, lab)

    def cps():
        for lab in LEGACY:
            for c in S.code_points(0x80, 0x110000 if T else 0x3100):
                yield ("http://h/?x" + c + "y", None, lab)
        for lab in LEGACY:
            for c in S.chunks(64, 0, 0x30000 if not T else 0x110000):
                c = "".join(x for x in c if x not in "#\t\n\r" and (x not in "\xa5\u203e" or lab not in STATEFUL))
                yield ("http://h/?" + c + "z", None, lab)
                yield ("ws://h/?" + c + "z#" + c + "z", None, lab)

    def rich():
        for s in corpus():
            for lab in core[:3] + ["utf-16"]:
                yield (s, None, lab)
        for lab in labels + AS_UTF8_MORE:
            for x in cased(lab):
                yield ("http://ü/é?é中\U0001f308'#é", None, x)
                yield ("a:é?é中#é", None, x)
                yield ("?é中", "http://h/", x)
        for n in S.PUMP_QUICK:
            for lab in core:
                for u in ("é", "中", "\U0001f308", "a'", "%"):
                    yield ("http://h/?" + u * n + "#" + u, None, lab)

    def forms():
        one = list(S.strings(toks, 2))
        for lab in LEGACY:
            for a in one:
                yield ([(a, "b")], lab)
                yield ([("k", a), (a, a)], lab)
            for c in S.chunks(64, 0, 0x30000):
                c = "".join(x for x in c if x not in "\xa5\u203e" or lab not in STATEFUL)
                yield ([(c, "v"), ("n", c)], lab)
        for lab in AS_UTF8 + AS_UTF8_MORE:
            for a in one:
                yield ([(a, "b"), (a, a)], lab)

    def strs():
        for lab in LEGACY:
            for s in S.strings(toks, 2):
                yield (s, lab)
            for c in S.code_points(0x80, 0x110000 if T else 0x3100):
                yield (c, lab)
            for c in S.chunks(64, 0x3000, 0x30000 if not T else 0x110000):
                yield (c, lab)

    return dict(
        families=[
            fam("constants", lambda: ((t.replace("{0}", w), None, lab) for w in S.CONST_WORDS for t in tpls for lab in ("windows-1252", "gb18030", "UTF-16LE", "utf-8")), judge_encoding, "8 templates x every constant of the code under test and look-alike code point (%d) x 4 labels" % len(S.CONST)),
            fam("const-forms", lambda: (([(w, w)], lab) for w in S.CONST_WORDS for lab in core + AS_UTF8), judge_form_encoding, "the same in urlencode"),
            fam("words", words, judge_encoding, "8 templates x strings of <= 2 tokens over %d x %d labels; 3%s tokens x 5 encodings" % (len(toks), len(labels), "-4" if T else "")),
            fam("relative", rel, judge_encoding, "references of <= %d tokens x 8 bases x 8 labels" % (4 if T else 3)),
            fam("code-points", cps, judge_encoding, "%d legacy encodings x every code point up to U+%X; chunks up to U+%X" % (len(LEGACY), 0x10FFFF if T else 0x30FF, 0x10FFFF if T else 0x2FFFF)),
            fam("rich", rich, judge_encoding, "%d diverse URLs x 4 labels; all labels in 3 letter cases; 5 units in lengths up to 4301" % len(corpus())),
            fam("forms", forms, judge_form_encoding, "urlencode: pairs over <= 2 tokens, chunks of code points x %d encodings" % len(LEGACY)),
            fam("strings", strs, judge_str_encoding, "string_percent_encode x %d encodings" % len(LEGACY)),
            fam("shift-states", stateful, judge_encoding, "ISO-2022-JP: strings of <= %d over %d units, one- and two-byte, unencodable, and of the bytes '&#'" % (6 if T else 5, len(shift))),
            fam("shift-forms", stateful_forms, judge_form_encoding, "the same (<= %d units) in urlencode" % (5 if T else 4)),
        ],
        validated=VALIDATED,
        assumptions=[
            "Python's codecs are the trusted encoders of the legacy encodings; ISO-2022-JP is taken to return to its initial shift state before a character reference (the standard does so except after YEN SIGN and OVERLINE, which are left out next to unencodable code points)",
            "a base given as a string is parsed with the same encoding (as HTML does for a document's base URL)",
            ASSUME_ICU,
        ],
    )


# ------------------------------------------------------------------------ C19


def expected_tuple(r, allow):
    host = model.host_serialize(r.host) + ("" if r.port is None else ":%d" % r.port)
    cred = ""
    if r.username or r.password:
        cred = r.username + (":" + r.password if r.password else "") + "@"
    path, _, params = r.pathname().partition(";")
    q, f = r.query or "", r.fragment or ""
    if not allow and f:
        if q:
            q += "#" + f
        elif params:
            params += "#" + f
        else:
            path += "#" + f
    return (r.scheme, cred + host, path, params, q, f if allow else "")


def judge_urlparse(case, ctx):
    s, base, allow, label = case
    try:
        want = expected_tuple(model.parse_with_base(s, base, encoder(label)), allow)
    except model.Failure:
        want = FAIL
    try:
        x = up.urlparse(s, base, encoding=label, allow_fragments=allow)
        got = (x.scheme, x.netloc, x.path, x.params, x.query, x.fragment)
        if tuple(x) != got:
            return "urlparse(%s): tuple and fields differ" % ascii(s)[:300]
    except impl.URLParseError:
        got = FAIL
    ctx.traces += 1
    ctx.state(want)
    ctx.outcome("fail" if want == FAIL else "split")
    if got != want:
        return "urlparse(%s, %s, %s, allow_fragments=%s) = %s, want %s" % (
            ascii(s)[:300], ascii(base), label, allow, ascii(got)[:400], ascii(want)[:400])  # fmt: skip
    return None


def judge_urlparse_again(case, ctx):
    """one URL taken apart in one way after another"""
    s, base, ways = case
    for n, (allow, label) in enumerate(ways):
        r = judge_urlparse((s, base, allow, label), ctx)
        if r:
            return "after %r: %s" % (ways[:n], r)
    return None


WAYS = [(a, e) for e in ("utf-8", "windows-1252", "shift_jis", "UTF-16LE") for a in (True, False)]


def c19(tier):
    T = tier == "thorough"
    toks = [";", "?", "#", "/", "a", "b;c", "=", "@", ":", "%3b", "é", "1", "&", "..", " ", "\\"]
    ctxs = ["http://h/", "http://u:p@h:8/x", "a://u@h:1/;", "file:///", "a:", "a:/x", "http://h/p;q", "http://h/?q", "http://h/p;q?r", "http://:p@h;/", "mailto:", "a:;", "https://[::1]:9/a;b/c"]

    def words():
        for s in S.strings(toks, 4 if T else 3):
            for c in ctxs:
                for allow in (True, False):
                    yield (c + s, None, allow, "utf-8")

    def rel():
        for s in S.strings(toks, 2):
            for b in BASES:
                for allow in (True, False):
                    yield (s, b, allow, "utf-8")
        if T:
            for s in S.strings(toks, 3, 3):
                for b in BASES_CORE:
                    for allow in (True, False):
                        yield (s, b, allow, "utf-8")

    def rich():
        for s in S.edits(S.SEEDS, S.T_EDIT if T else S.T_SMALL + [";"]):
            yield (s, None, True, "utf-8")
            yield (s, None, False, "utf-8")
        for s in corpus():
            for allow in (True, False):
                yield (s, None, allow, "windows-1252")
                yield (s, "http://h/p;q?r#s", allow, "utf-8")

    def shaped():
        for s in S.shapes() + S.shapes([";q", ";?a;b"], ["", "#", "#f;g"]):
            for allow in (True, False):
                yield (s, None, allow, "utf-8")
        for b in S.shapes(["", "?", "?q=1"], ["", "#f"]):
            for r in S.SHAPE_REFS:
                yield (r, b, False, "utf-8")

    def again():
        for s in ["http://h/p;q?é=中#f", "http://é/;é?é#é", "a:b;é?é#é", "a://h/;?é", "file:///é?é", "http://h", "é:", "http://h/?é#\ud800"] + S.SEEDS:
            for b in (None, "http://b/c;d?é#f"):
                for t in product(WAYS, repeat=2):
                    yield (s, b, t + t[:1])
                for i in range(len(WAYS)):
                    yield (s, b, tuple(WAYS[i:] + WAYS[:i]))
                    yield (s, b, tuple(WAYS[i::-1] + WAYS[:i:-1]))

    def long():
        for s in S.pump(S.PUMPS + [("http://h/", ";", "?q#f"), ("http://h/a;", "b;", "#f"), ("a:", ";", "#f")], S.PUMP_LENGTHS if T else S.PUMP_QUICK):
            yield (s, None, True, "utf-8")
            yield (s, None, False, "utf-8")

    return dict(
        families=[
            fam("constants", lambda: ((s, b, a, "utf-8") for w in S.CONST_WORDS for s, b in [(c + w, None) for c in ctxs] + [(w, x) for x in BASES_CORE] for a in (True, False)), judge_urlparse, "every constant of the code under test and look-alike code point (%d) in %d contexts and against %d bases x allow_fragments" % (len(S.CONST), len(ctxs), len(BASES_CORE))),
            fam("words", words, judge_urlparse, "%d contexts x strings of <= %d tokens over %d x allow_fragments" % (len(ctxs), 4 if T else 3, len(toks))),
            fam("relative", rel, judge_urlparse, "references of <= %d tokens x %d bases x allow_fragments" % (3 if T else 2, len(BASES))),
            fam("rich", rich, judge_urlparse, "single edits of %d rich URLs; diverse URLs with an encoding and a base" % len(S.SEEDS)),
            fam("shapes", shaped, judge_urlparse, "URLs of every shape x allow_fragments; bases of every shape x %d references" % len(S.SHAPE_REFS)),
            fam("again", again, judge_urlparse_again, "the same URL under every two of %d configurations (encoding, allow_fragments), and all of them in 16 orders" % len(WAYS)),
            fam("long", long, judge_urlparse, "repetition templates in many lengths"),
        ],
        validated=VALIDATED,
        assumptions=[ASSUME_ICU],
    )
