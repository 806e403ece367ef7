"""Reference model: the WHATWG URL Standard (commit snapshot fff33c3, July 2023,
the one urlstd's changelog names), written as the standard writes it: one state
machine that consumes one code point per step.

Nothing in here imports urlstd.  The only environment function shared with the
implementation is ICU's UTS #46 processing, reached through icupy with
instances of its own (see `Idna`).

`parse()` returns a `Rec` or raises `Failure`; `STEPS` counts the transitions
taken and `TRACE_STATES`, when it is a set, collects the machine states
visited.  Validation errors are appended by name to the list passed as `ve`.
"""

from __future__ import annotations

import re

import icupy.icu as icu

# --------------------------------------------------------------------- basics

ALPHA = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGIT = frozenset("0123456789")
HEX = frozenset("0123456789abcdefABCDEF")
SCHEME_REST = ALPHA | DIGIT | frozenset("+-.")
EOF = None

SPECIAL = {
    "ftp": 21,
    "file": None,
    "http": 80,
    "https": 443,
    "ws": 80,
    "wss": 443,
}

FORBIDDEN_HOST = frozenset("\x00\x09\x0a\x0d #/:<>?@[\\]^|")
FORBIDDEN_DOMAIN = (
    FORBIDDEN_HOST | frozenset(chr(i) for i in range(0x20)) | frozenset("%\x7f")
)

# percent-encode sets: members of the set, ASCII part, as the standard lists
# them (everything above U+007E is always in every set)
C0_SET = frozenset(chr(i) for i in range(0x20)) | {"\x7f"}
FRAGMENT_SET = C0_SET | frozenset(' "<>`')
QUERY_SET = C0_SET | frozenset(' "#<>')
SPECIAL_QUERY_SET = QUERY_SET | {"'"}
PATH_SET = QUERY_SET | frozenset("?`{}")
USERINFO_SET = PATH_SET | frozenset("/:;=@[\\]^|")
COMPONENT_SET = USERINFO_SET | frozenset("$%&+,")
FORM_SET = COMPONENT_SET | frozenset("!'()~")

URL_CP_ASCII = ALPHA | DIGIT | frozenset("!$&'()*+,-./:;=?@_~")


def is_url_cp(c: str) -> bool:
    if c in URL_CP_ASCII:
        return True
    o = ord(c)
    if not 0xA0 <= o <= 0x10FFFD:
        return False
    if 0xD800 <= o <= 0xDFFF or 0xFDD0 <= o <= 0xFDEF:
        return False
    return (o & 0xFFFE) != 0xFFFE


class Failure(Exception):
    """The standard's `failure`."""


STEPS = 0
TRACE_STATES = None


_SURROGATE = re.compile("[\ud800-\udfff]")


def scalars(s: str) -> str:
    """Python str -> scalar value string: pair up surrogates, lone ones become
    U+FFFD (what the API documents)."""
    if s.isascii() or not _SURROGATE.search(s):
        return s
    out = []
    i, n = 0, len(s)
    clean = True
    while i < n:
        o = ord(s[i])
        if 0xD800 <= o <= 0xDFFF:
            clean = False
            if o <= 0xDBFF and i + 1 < n and 0xDC00 <= ord(s[i + 1]) <= 0xDFFF:
                out.append(
                    chr(0x10000 + ((o - 0xD800) << 10) + (ord(s[i + 1]) - 0xDC00))
                )
                i += 2
                continue
            out.append("\ufffd")
        else:
            out.append(s[i])
        i += 1
    return s if clean else "".join(out)


def utf8(s: str) -> bytes:
    """UTF-8 encoder, spelled out."""
    if s.isascii():
        return s.encode("ascii")
    out = bytearray()
    for c in scalars(s):
        o = ord(c)
        if o < 0x80:
            out.append(o)
        elif o < 0x800:
            out += bytes((0xC0 | o >> 6, 0x80 | o & 63))
        elif o < 0x10000:
            out += bytes((0xE0 | o >> 12, 0x80 | o >> 6 & 63, 0x80 | o & 63))
        else:
            out += bytes(
                (
                    0xF0 | o >> 18,
                    0x80 | o >> 12 & 63,
                    0x80 | o >> 6 & 63,
                    0x80 | o & 63,
                )
            )
    return bytes(out)


def utf8_decode(b: bytes) -> str:
    """The Encoding Standard's UTF-8 decoder with error mode replacement, no
    BOM handling."""
    if b.isascii():
        return b.decode("ascii")
    out = []
    cp = seen = needed = 0
    lower, upper = 0x80, 0xBF
    i, n = 0, len(b)
    while i < n:
        x = b[i]
        if needed == 0:
            if x <= 0x7F:
                out.append(chr(x))
            elif 0xC2 <= x <= 0xDF:
                needed, cp = 1, x & 0x1F
            elif 0xE0 <= x <= 0xEF:
                if x == 0xE0:
                    lower = 0xA0
                if x == 0xED:
                    upper = 0x9F
                needed, cp = 2, x & 0xF
            elif 0xF0 <= x <= 0xF4:
                if x == 0xF0:
                    lower = 0x90
                if x == 0xF4:
                    upper = 0x8F
                needed, cp = 3, x & 7
            else:
                out.append("\ufffd")
            i += 1
            continue
        if not lower <= x <= upper:
            cp = needed = seen = 0
            lower, upper = 0x80, 0xBF
            out.append("\ufffd")
            continue  # the byte is handled again
        lower, upper = 0x80, 0xBF
        cp = cp << 6 | x & 0x3F
        seen += 1
        i += 1
        if seen == needed:
            out.append(chr(cp))
            cp = needed = seen = 0
    if needed:
        out.append("\ufffd")
    return "".join(out)


def pct(byte: int) -> str:
    return "%%%02X" % byte


_PE_CACHE: dict = {}


def _pe_char(c: str, pset: frozenset) -> str:
    key = (c, pset)
    r = _PE_CACHE.get(key)
    if r is None:
        if ord(c) < 0x80:
            r = pct(ord(c)) if c in pset else c
        else:
            r = "".join(pct(x) for x in utf8(c))
        if len(_PE_CACHE) < 20000:
            _PE_CACHE[key] = r
    return r


def pe(s: str, pset: frozenset) -> str:
    """UTF-8 percent-encode a string."""
    return "".join([_pe_char(c, pset) for c in scalars(s)])


def pe_encoded(s: str, encoding, pset: frozenset, space_as_plus=False) -> str:
    """Percent-encode after encoding.  `encoding` is None (UTF-8) or a function
    str(one code point) -> bytes | None (unencodable)."""
    if encoding is None and not space_as_plus:
        return pe(s, pset)
    out = []
    items = scalars(s)
    if getattr(encoding, "stateful", False):
        # a run of encodable code points is encoded as a whole and ends in the
        # initial shift state
        items, run = [], ""
        for c in scalars(s):
            if encoding(c) is None:
                items += ([run] if run else []) + [c]
                run = ""
            else:
                run += c
        items += [run] if run else []
    for c in items:
        b = utf8(c) if encoding is None else encoding(c)
        if b is None:
            out.append("%26%23" + str(ord(c)) + "%3B")
            continue
        for x in b:
            if space_as_plus and x == 0x20:
                out.append("+")
            elif x > 0x7E or chr(x) in pset:
                out.append(pct(x))
            else:
                out.append(chr(x))
    return "".join(out)


def percent_decode(b: bytes) -> bytes:
    if b"%" not in b:
        return b
    out = bytearray()
    i, n = 0, len(b)
    while i < n:
        x = b[i]
        if (
            x == 0x25
            and i + 2 < n
            and chr(b[i + 1]) in HEX
            and chr(b[i + 2]) in HEX
        ):
            out.append(int(chr(b[i + 1]) + chr(b[i + 2]), 16))
            i += 3
        else:
            out.append(x)
            i += 1
    return bytes(out)


# ----------------------------------------------------------------------- IDNA


class Idna:
    """UTS #46 through ICU.  Non-transitional, CheckBidi, CheckJoiners, never
    CheckHyphens; UseSTD3ASCIIRules = VerifyDnsLength = strict."""

    HYPHENS = (
        icu.UIDNA_ERROR_HYPHEN_3_4
        | icu.UIDNA_ERROR_LEADING_HYPHEN
        | icu.UIDNA_ERROR_TRAILING_HYPHEN
    )
    LENGTHS = (
        icu.UIDNA_ERROR_EMPTY_LABEL
        | icu.UIDNA_ERROR_LABEL_TOO_LONG
        | icu.UIDNA_ERROR_DOMAIN_NAME_TOO_LONG
    )
    COMMON = icu.UIDNA_CHECK_BIDI | icu.UIDNA_CHECK_CONTEXTJ
    _inst: dict = {}
    _memo: dict = {}

    @classmethod
    def instance(cls, opts):
        x = cls._inst.get(opts)
        if x is None:
            x = cls._inst[opts] = icu.IDNA.create_uts46_instance(opts)
        return x

    @classmethod
    def _run(cls, domain, opts, ascii_):
        key = (domain, opts, ascii_)
        r = cls._memo.get(key)
        if r is not None:
            return r
        info, dest = icu.IDNAInfo(), icu.UnicodeString()
        n16 = len(domain.encode("utf-16-le", "surrogatepass")) // 2
        src = icu.UnicodeString(domain, n16)
        inst = cls.instance(opts)
        try:
            (inst.name_to_ascii if ascii_ else inst.name_to_unicode)(src, dest, info)
            r = (str(dest), info.get_errors())
        except icu.ICUError:  # e.g. longer than ICU can process: failure
            r = ("", 1 << 30)
        if len(cls._memo) < 200000:
            cls._memo[key] = r
        return r

    @classmethod
    def to_ascii(cls, domain: str, strict: bool = False) -> str:
        opts = cls.COMMON | icu.UIDNA_NONTRANSITIONAL_TO_ASCII
        allowed = cls.HYPHENS
        if strict:
            opts |= icu.UIDNA_USE_STD3_RULES
        else:
            allowed |= cls.LENGTHS
        s, err = cls._run(domain, opts, True)
        if err & ~allowed or s == "":
            raise Failure("domain-to-ASCII")
        return s

    @classmethod
    def to_unicode(cls, domain: str, strict: bool = False):
        """(result, had errors)"""
        opts = cls.COMMON | icu.UIDNA_NONTRANSITIONAL_TO_UNICODE
        if strict:
            opts |= icu.UIDNA_USE_STD3_RULES
        s, err = cls._run(domain, opts, False)
        return s, bool(err & ~(cls.HYPHENS | cls.LENGTHS))


# ---------------------------------------------------------------------- hosts


def ipv4_number(s: str):
    """-> (value, validation error) or None"""
    if s == "":
        return None
    err, r, digits = False, 10, DIGIT
    if len(s) >= 2 and s[0] == "0" and s[1] in "xX":
        err, s, r, digits = True, s[2:], 16, HEX
    elif len(s) >= 2 and s[0] == "0":
        err, s, r, digits = True, s[1:], 8, frozenset("01234567")
    if s == "":
        return 0, True
    v = 0
    for c in s:
        if c not in digits:
            return None
        v = v * r + int(c, 16)
    return v, err


def ends_in_number(s: str) -> bool:
    parts = s.split(".")
    if parts[-1] == "":
        if len(parts) == 1:
            return False
        parts.pop()
    last = parts[-1]
    if last and all(c in DIGIT for c in last):
        return True
    return ipv4_number(last) is not None


def ipv4_parse(s: str, ve: list) -> int:
    parts = s.split(".")
    if parts[-1] == "":
        ve.append("IPv4-empty-part")
        if len(parts) > 1:
            parts.pop()
    if len(parts) > 4:
        ve.append("IPv4-too-many-parts")
        raise Failure("IPv4-too-many-parts")
    nums = []
    for p in parts:
        r = ipv4_number(p)
        if r is None:
            ve.append("IPv4-non-numeric-part")
            raise Failure("IPv4-non-numeric-part")
        if r[1]:
            ve.append("IPv4-non-decimal-part")
        nums.append(r[0])
    if any(n > 255 for n in nums):
        ve.append("IPv4-out-of-range-part")
    if any(n > 255 for n in nums[:-1]):
        raise Failure("IPv4 part > 255")
    if nums[-1] >= 256 ** (5 - len(nums)):
        raise Failure("IPv4 last part too big")
    v = nums[-1]
    for i, n in enumerate(nums[:-1]):
        v += n * 256 ** (3 - i)
    return v


def ipv4_serialize(v: int) -> str:
    return "%d.%d.%d.%d" % (v >> 24 & 255, v >> 16 & 255, v >> 8 & 255, v & 255)


def ipv6_parse(s: str, ve: list) -> tuple:
    def fail(name):
        ve.append(name)
        raise Failure(name)

    a = [0] * 8
    pi, compress, p, n = 0, None, 0, len(s)

    def at(i):
        return s[i] if i < n else EOF

    if at(p) == ":":
        if at(p + 1) != ":":
            fail("IPv6-invalid-compression")
        p += 2
        pi += 1
        compress = pi
    while at(p) is not EOF:
        if pi == 8:
            fail("IPv6-too-many-pieces")
        if at(p) == ":":
            if compress is not None:
                fail("IPv6-multiple-compression")
            p += 1
            pi += 1
            compress = pi
            continue
        value = length = 0
        while length < 4 and at(p) is not EOF and at(p) in HEX:
            value = value * 16 + int(at(p), 16)
            p += 1
            length += 1
        if at(p) == ".":
            if length == 0:
                fail("IPv4-in-IPv6-invalid-code-point")
            p -= length
            if pi > 6:
                fail("IPv4-in-IPv6-too-many-pieces")
            seen = 0
            while at(p) is not EOF:
                v4 = None
                if seen > 0:
                    if at(p) == "." and seen < 4:
                        p += 1
                    else:
                        fail("IPv4-in-IPv6-invalid-code-point")
                if at(p) is EOF or at(p) not in DIGIT:
                    fail("IPv4-in-IPv6-invalid-code-point")
                while at(p) is not EOF and at(p) in DIGIT:
                    d = int(at(p))
                    if v4 is None:
                        v4 = d
                    elif v4 == 0:
                        fail("IPv4-in-IPv6-invalid-code-point")
                    else:
                        v4 = v4 * 10 + d
                    if v4 > 255:
                        fail("IPv4-in-IPv6-out-of-range-part")
                    p += 1
                a[pi] = a[pi] * 0x100 + v4
                seen += 1
                if seen in (2, 4):
                    pi += 1
            if seen != 4:
                fail("IPv4-in-IPv6-too-few-parts")
            break
        elif at(p) == ":":
            p += 1
            if at(p) is EOF:
                fail("IPv6-invalid-code-point")
        elif at(p) is not EOF:
            fail("IPv6-invalid-code-point")
        a[pi] = value
        pi += 1
    if compress is not None:
        swaps = pi - compress
        pi = 7
        while pi != 0 and swaps > 0:
            j = compress + swaps - 1
            a[pi], a[j] = a[j], a[pi]
            pi -= 1
            swaps -= 1
    elif pi != 8:
        fail("IPv6-too-few-pieces")
    return tuple(a)


def ipv6_serialize(a) -> str:
    best, bestlen, i = None, 1, 0
    while i < 8:
        if a[i] == 0:
            j = i
            while j < 8 and a[j] == 0:
                j += 1
            if j - i > bestlen:
                best, bestlen = i, j - i
            i = j
        else:
            i += 1
    if best is None:
        return ":".join("%x" % x for x in a)
    return (
        ":".join("%x" % x for x in a[:best])
        + "::"
        + ":".join("%x" % x for x in a[best + bestlen :])
    )


def opaque_host_parse(s: str, ve: list) -> str:
    if any(c in FORBIDDEN_HOST for c in s):
        ve.append("host-invalid-code-point")
        raise Failure("host-invalid-code-point")
    if any(c != "%" and not is_url_cp(c) for c in s) or bad_percent(s):
        ve.append("invalid-URL-unit")
    return pe(s, C0_SET)


def bad_percent(s: str) -> bool:
    for i, c in enumerate(s):
        if c == "%" and not (
            i + 2 < len(s) and s[i + 1] in HEX and s[i + 2] in HEX
        ):
            return True
    return False


def host_parse(s: str, opaque: bool, ve: list):
    if s.startswith("["):
        if not s.endswith("]"):
            ve.append("IPv6-unclosed")
            raise Failure("IPv6-unclosed")
        return ipv6_parse(s[1:-1], ve)
    if opaque:
        return opaque_host_parse(s, ve)
    domain = utf8_decode(percent_decode(utf8(s)))
    try:
        asc = Idna.to_ascii(domain, False)
    except Failure:
        ve.append("domain-to-ASCII")
        raise
    if any(c in FORBIDDEN_DOMAIN for c in asc):
        ve.append("domain-invalid-code-point")
        raise Failure("domain-invalid-code-point")
    if ends_in_number(asc):
        return ipv4_parse(asc, ve)
    return asc


def host_serialize(h) -> str:
    if h is None:
        return ""
    if isinstance(h, int):
        return ipv4_serialize(h)
    if isinstance(h, tuple):
        return "[" + ipv6_serialize(h) + "]"
    return h


# ----------------------------------------------------------------- URL record


class Rec:
    __slots__ = (
        "scheme",
        "username",
        "password",
        "host",
        "port",
        "path",
        "query",
        "fragment",
    )

    def __init__(self):
        self.scheme = self.username = self.password = ""
        self.host = self.port = self.query = self.fragment = None
        self.path = []

    def copy(self):
        r = Rec()
        for k in Rec.__slots__:
            v = getattr(self, k)
            setattr(r, k, list(v) if isinstance(v, list) else v)
        return r

    def key(self):
        p = self.path
        return (
            self.scheme,
            self.username,
            self.password,
            self.host,
            self.port,
            p if isinstance(p, str) else tuple(p),
            self.query,
            self.fragment,
        )

    def special(self):
        return self.scheme in SPECIAL

    def opaque(self):
        return isinstance(self.path, str)

    def creds(self):
        return self.username != "" or self.password != ""

    def no_upp(self):
        """cannot have a username/password/port"""
        return self.host is None or self.host == "" or self.scheme == "file"

    def pathname(self):
        if self.opaque():
            return self.path
        return "".join("/" + x for x in self.path)

    def href(self, exclude_fragment=False):
        out = self.scheme + ":"
        if self.host is not None:
            out += "//"
            if self.creds():
                out += self.username
                if self.password:
                    out += ":" + self.password
                out += "@"
            out += host_serialize(self.host)
            if self.port is not None:
                out += ":%d" % self.port
        elif not self.opaque() and len(self.path) > 1 and self.path[0] == "":
            out += "/."
        out += self.pathname()
        if self.query is not None:
            out += "?" + self.query
        if not exclude_fragment and self.fragment is not None:
            out += "#" + self.fragment
        return out

    def origin(self):
        """tuple (scheme, host, port) or None (opaque)"""
        if self.scheme == "blob":
            try:
                u = parse(self.pathname())
            except Failure:
                return None
            if u.scheme in ("http", "https", "file"):
                return u.origin()
            return None
        if self.scheme in ("ftp", "http", "https", "ws", "wss"):
            return (self.scheme, self.host, self.port)
        return None


def origin_serialize(o) -> str:
    if o is None:
        return "null"
    return (
        o[0]
        + "://"
        + host_serialize(o[1])
        + ("" if o[2] is None else ":%d" % o[2])
    )


def is_wdl(s: str) -> bool:
    return len(s) == 2 and s[0] in ALPHA and s[1] in ":|"


def is_nwdl(s: str) -> bool:
    return is_wdl(s) and s[1] == ":"


def starts_wdl(s: str) -> bool:
    return is_wdl(s[:2]) and (len(s) == 2 or s[2] in "/\\?#")


def shorten(u: Rec) -> None:
    if u.scheme == "file" and len(u.path) == 1 and is_nwdl(u.path[0]):
        return
    if u.path:
        u.path.pop()


SINGLE = (".", "%2e")
DOUBLE = ("..", ".%2e", "%2e.", "%2e%2e")


# --------------------------------------------------------------------- parser


def parse(s, base=None, encoding=None, url=None, override=None, ve=None) -> Rec:
    """The basic URL parser.

    With `override`, `url` is modified in place and "return" in the standard
    maps to a normal return, "return failure" to raising Failure.
    """
    global STEPS
    if ve is None:
        ve = []
    s = scalars(s)
    if url is None:
        url = Rec()
        t = s.strip("".join(map(chr, range(0x21))))
        if t != s:
            ve.append("invalid-URL-unit")
            s = t
    t = s.replace("\t", "").replace("\n", "").replace("\r", "")
    if t != s:
        ve.append("invalid-URL-unit")
        s = t

    state = override or "scheme start"
    buf = ""
    at_seen = brackets = pw_seen = False
    p, n = 0, len(s)

    def fail(name):
        ve.append(name)
        raise Failure(name)

    def unit(c, p):
        if c == "%":
            if not (p + 2 < n and s[p + 1] in HEX and s[p + 2] in HEX):
                ve.append("invalid-URL-unit")
        elif not is_url_cp(c):
            ve.append("invalid-URL-unit")

    trace = TRACE_STATES
    while True:
        c = s[p] if p < n else EOF
        STEPS += 1
        if trace is not None:
            trace.add(state)

        if state == "scheme start":
            if c is not EOF and c in ALPHA:
                buf += c.lower()
                state = "scheme"
            elif override is None:
                state = "no scheme"
                p -= 1
            else:
                raise Failure("scheme start")

        elif state == "scheme":
            if c is not EOF and c in SCHEME_REST:
                buf += c.lower()
            elif c == ":":
                if override is not None:
                    if (url.scheme in SPECIAL) != (buf in SPECIAL):
                        return url
                    if (url.creds() or url.port is not None) and buf == "file":
                        return url
                    if url.scheme == "file" and url.host == "":
                        return url
                url.scheme = buf
                if override is not None:
                    if url.port is not None and url.port == SPECIAL.get(
                        url.scheme
                    ):
                        url.port = None
                    return url
                buf = ""
                rest = s[p + 1 :]
                if url.scheme == "file":
                    if not rest.startswith("//"):
                        ve.append("special-scheme-missing-following-solidus")
                    state = "file"
                elif (
                    url.special()
                    and base is not None
                    and base.scheme == url.scheme
                ):
                    state = "special relative or authority"
                elif url.special():
                    state = "special authority slashes"
                elif rest.startswith("/"):
                    state = "path or authority"
                    p += 1
                else:
                    url.path = ""
                    state = "opaque path"
            elif override is None:
                buf = ""
                state = "no scheme"
                p = -1
            else:
                raise Failure("scheme")

        elif state == "no scheme":
            if base is None or (base.opaque() and c != "#"):
                fail("missing-scheme-non-relative-URL")
            elif base.opaque() and c == "#":
                url.scheme = base.scheme
                url.path = base.path
                url.query = base.query
                url.fragment = ""
                state = "fragment"
            elif base.scheme != "file":
                state = "relative"
                p -= 1
            else:
                state = "file"
                p -= 1

        elif state == "special relative or authority":
            if c == "/" and s[p + 1 : p + 2] == "/":
                state = "special authority ignore slashes"
                p += 1
            else:
                ve.append("special-scheme-missing-following-solidus")
                state = "relative"
                p -= 1

        elif state == "path or authority":
            if c == "/":
                state = "authority"
            else:
                state = "path"
                p -= 1

        elif state == "relative":
            url.scheme = base.scheme
            if c == "/":
                state = "relative slash"
            elif url.special() and c == "\\":
                ve.append("invalid-reverse-solidus")
                state = "relative slash"
            else:
                url.username = base.username
                url.password = base.password
                url.host = base.host
                url.port = base.port
                url.path = list(base.path)
                url.query = base.query
                if c == "?":
                    url.query = ""
                    state = "query"
                elif c == "#":
                    url.fragment = ""
                    state = "fragment"
                elif c is not EOF:
                    url.query = None
                    shorten(url)
                    state = "path"
                    p -= 1

        elif state == "relative slash":
            if url.special() and c is not EOF and c in "/\\":
                if c == "\\":
                    ve.append("invalid-reverse-solidus")
                state = "special authority ignore slashes"
            elif c == "/":
                state = "authority"
            else:
                url.username = base.username
                url.password = base.password
                url.host = base.host
                url.port = base.port
                state = "path"
                p -= 1

        elif state == "special authority slashes":
            if c == "/" and s[p + 1 : p + 2] == "/":
                state = "special authority ignore slashes"
                p += 1
            else:
                ve.append("special-scheme-missing-following-solidus")
                state = "special authority ignore slashes"
                p -= 1

        elif state == "special authority ignore slashes":
            if c is EOF or c not in "/\\":
                state = "authority"
                p -= 1
            else:
                ve.append("special-scheme-missing-following-solidus")

        elif state == "authority":
            if c == "@":
                ve.append("invalid-credentials")
                if at_seen:
                    buf = "%40" + buf
                at_seen = True
                for x in buf:
                    if x == ":" and not pw_seen:
                        pw_seen = True
                        continue
                    e = _pe_char(x, USERINFO_SET)
                    if pw_seen:
                        url.password += e
                    else:
                        url.username += e
                buf = ""
            elif c is EOF or c in "/?#" or (url.special() and c == "\\"):
                if at_seen and buf == "":
                    fail("invalid-credentials")
                p -= len(buf) + 1
                buf = ""
                state = "host"
            else:
                buf += c

        elif state in ("host", "hostname"):
            if override is not None and url.scheme == "file":
                p -= 1
                state = "file host"
            elif c == ":" and not brackets:
                if buf == "":
                    fail("host-missing")
                if override == "hostname":
                    return url
                url.host = host_parse(buf, not url.special(), ve)
                buf = ""
                state = "port"
            elif c is EOF or c in "/?#" or (url.special() and c == "\\"):
                p -= 1
                if url.special() and buf == "":
                    fail("host-missing")
                elif (
                    override is not None
                    and buf == ""
                    and (url.creds() or url.port is not None)
                ):
                    return url
                url.host = host_parse(buf, not url.special(), ve)
                buf = ""
                state = "path start"
                if override is not None:
                    return url
            else:
                if c == "[":
                    brackets = True
                if c == "]":
                    brackets = False
                buf += c

        elif state == "port":
            if c is not EOF and c in DIGIT:
                buf += c
            elif (
                c is EOF
                or c in "/?#"
                or (url.special() and c == "\\")
                or override is not None
            ):
                if buf != "":
                    v = 0
                    for d in buf:
                        v = v * 10 + ord(d) - 48
                        if v > 65535:
                            fail("port-out-of-range")
                    url.port = None if SPECIAL.get(url.scheme) == v else v
                    buf = ""
                if override is not None:
                    return url
                state = "path start"
                p -= 1
            else:
                fail("port-invalid")

        elif state == "file":
            url.scheme = "file"
            url.host = ""
            if c is not EOF and c in "/\\":
                if c == "\\":
                    ve.append("invalid-reverse-solidus")
                state = "file slash"
            elif base is not None and base.scheme == "file":
                url.host = base.host
                url.path = list(base.path)
                url.query = base.query
                if c == "?":
                    url.query = ""
                    state = "query"
                elif c == "#":
                    url.fragment = ""
                    state = "fragment"
                elif c is not EOF:
                    url.query = None
                    if not starts_wdl(s[p:]):
                        shorten(url)
                    else:
                        ve.append("file-invalid-Windows-drive-letter")
                        url.path = []
                    state = "path"
                    p -= 1
            else:
                state = "path"
                p -= 1

        elif state == "file slash":
            if c is not EOF and c in "/\\":
                if c == "\\":
                    ve.append("invalid-reverse-solidus")
                state = "file host"
            else:
                if base is not None and base.scheme == "file":
                    url.host = base.host
                    if (
                        not starts_wdl(s[p:])
                        and base.path
                        and is_nwdl(base.path[0])
                    ):
                        url.path.append(base.path[0])
                state = "path"
                p -= 1

        elif state == "file host":
            if c is EOF or c in "/\\?#":
                p -= 1
                if override is None and is_wdl(buf):
                    ve.append("file-invalid-Windows-drive-letter-host")
                    state = "path"
                elif buf == "":
                    url.host = ""
                    if override is not None:
                        return url
                    state = "path start"
                else:
                    h = host_parse(buf, not url.special(), ve)
                    if h == "localhost":
                        h = ""
                    url.host = h
                    if override is not None:
                        return url
                    buf = ""
                    state = "path start"
            else:
                buf += c

        elif state == "path start":
            if url.special():
                if c == "\\":
                    ve.append("invalid-reverse-solidus")
                state = "path"
                if c is EOF or c not in "/\\":
                    p -= 1
            elif override is None and c == "?":
                url.query = ""
                state = "query"
            elif override is None and c == "#":
                url.fragment = ""
                state = "fragment"
            elif c is not EOF:
                state = "path"
                if c != "/":
                    p -= 1
            elif override is not None and url.host is None:
                url.path.append("")

        elif state == "path":
            slash = c == "/" or (url.special() and c == "\\")
            if (
                c is EOF
                or slash
                or (override is None and (c == "?" or c == "#"))
            ):
                if url.special() and c == "\\":
                    ve.append("invalid-reverse-solidus")
                low = buf.lower()
                if low in DOUBLE:
                    shorten(url)
                    if not slash:
                        url.path.append("")
                elif low in SINGLE:
                    if not slash:
                        url.path.append("")
                else:
                    if url.scheme == "file" and not url.path and is_wdl(buf):
                        buf = buf[0] + ":"
                    url.path.append(buf)
                buf = ""
                if c == "?":
                    url.query = ""
                    state = "query"
                if c == "#":
                    url.fragment = ""
                    state = "fragment"
            else:
                unit(c, p)
                buf += _pe_char(c, PATH_SET)

        elif state == "opaque path":
            if c == "?":
                url.query = ""
                state = "query"
            elif c == "#":
                url.fragment = ""
                state = "fragment"
            elif c is not EOF:
                unit(c, p)
                url.path += _pe_char(c, C0_SET)

        elif state == "query":
            if (override is None and c == "#") or c is EOF:
                enc = encoding
                if enc is not None and (
                    not url.special() or url.scheme in ("ws", "wss")
                ):
                    enc = None
                pset = SPECIAL_QUERY_SET if url.special() else QUERY_SET
                url.query += pe_encoded(buf, enc, pset)
                buf = ""
                if c == "#":
                    url.fragment = ""
                    state = "fragment"
            else:
                unit(c, p)
                buf += c

        elif state == "fragment":
            if c is not EOF:
                unit(c, p)
                url.fragment += _pe_char(c, FRAGMENT_SET)

        else:
            raise AssertionError(state)

        if c is EOF and p >= n:
            return url
        p += 1


def parse_with_base(s, base=None, encoding=None, ve=None) -> Rec:
    """The URL parser given strings."""
    b = None
    if base is not None:
        b = base if isinstance(base, Rec) else parse(base, None, encoding, ve=ve)
    return parse(s, b, encoding, ve=ve)


# ----------------------------------------------------- form-urlencoded, params


def form_parse(b: bytes) -> list:
    out = []
    for seq in b.split(b"&"):
        if not seq:
            continue
        k = seq.find(b"=")
        name, value = (seq, b"") if k < 0 else (seq[:k], seq[k + 1 :])
        out.append(
            tuple(
                utf8_decode(percent_decode(x.replace(b"+", b" ")))
                for x in (name, value)
            )
        )
    return out


def form_serialize(pairs, encoding=None) -> str:
    return "&".join(
        pe_encoded(n, encoding, FORM_SET, True)
        + "="
        + pe_encoded(v, encoding, FORM_SET, True)
        for n, v in pairs
    )


def u16key(s: str):
    return s.encode("utf-16-be")


class Params:
    """URLSearchParams: an ordered list of pairs, optionally bound to a URL."""

    def __init__(self, pairs=(), url=None):
        self.list = list(pairs)
        self.url = url

    @classmethod
    def from_string(cls, s: str):
        s = scalars(s)
        if s.startswith("?"):
            s = s[1:]
        return cls(form_parse(utf8(s)))

    def __str__(self):
        return form_serialize(self.list)

    def _update(self):
        if self.url is not None:
            q = str(self)
            self.url.rec.query = q or None
            if not q:
                strip_opaque(self.url.rec)

    def append(self, n, v):
        self.list.append((scalars(n), scalars(v)))
        self._update()

    def delete(self, n, v=None):
        n = scalars(n)
        v = None if v is None else scalars(v)
        self.list[:] = [
            p
            for p in self.list
            if not (p[0] == n and (v is None or p[1] == v))
        ]
        self._update()

    def get(self, n):
        n = scalars(n)
        for p in self.list:
            if p[0] == n:
                return p[1]
        return None

    def get_all(self, n):
        n = scalars(n)
        return tuple(p[1] for p in self.list if p[0] == n)

    def has(self, n, v=None):
        n = scalars(n)
        v = None if v is None else scalars(v)
        return any(p[0] == n and (v is None or p[1] == v) for p in self.list)

    def set(self, n, v):
        n, v = scalars(n), scalars(v)
        out, done = [], False
        for p in self.list:
            if p[0] == n:
                if not done:
                    out.append((n, v))
                    done = True
            else:
                out.append(p)
        if not done:
            out.append((n, v))
        self.list[:] = out
        self._update()

    def sort(self):
        # insertion sort: plainly stable, plainly by code units
        out = []
        for p in self.list:
            i = len(out)
            while i > 0 and u16key(out[i - 1][0]) > u16key(p[0]):
                i -= 1
            out.insert(i, p)
        self.list[:] = out
        self._update()


def strip_opaque(u: Rec) -> None:
    if u.opaque() and u.fragment is None and u.query is None:
        u.path = u.path.rstrip(" ")


class Url:
    """The URL class.  Setters never raise here; `href` raises Failure."""

    def __init__(self, s, base=None):
        if isinstance(base, Url):
            base = base.rec
        self.rec = parse_with_base(s, base)
        self.params = Params(form_parse(utf8(self.rec.query or "")), self)

    GETTERS = (
        "href",
        "origin",
        "protocol",
        "username",
        "password",
        "host",
        "hostname",
        "port",
        "pathname",
        "search",
        "hash",
    )

    def get(self, k):
        u = self.rec
        if k == "href":
            return u.href()
        if k == "origin":
            return origin_serialize(u.origin())
        if k == "protocol":
            return u.scheme + ":"
        if k == "username":
            return u.username
        if k == "password":
            return u.password
        if k == "host":
            if u.host is None:
                return ""
            return host_serialize(u.host) + (
                "" if u.port is None else ":%d" % u.port
            )
        if k == "hostname":
            return host_serialize(u.host)
        if k == "port":
            return "" if u.port is None else str(u.port)
        if k == "pathname":
            return u.pathname()
        if k == "search":
            return "?" + u.query if u.query else ""
        if k == "hash":
            return "#" + u.fragment if u.fragment else ""
        raise KeyError(k)

    def snapshot(self):
        return tuple(self.get(k) for k in self.GETTERS)

    def set(self, k, v) -> bool:
        """-> whether the standard's algorithm ran without failure"""
        v = scalars(v)
        u = self.rec
        try:
            if k == "href":
                self.rec = parse(v)
                self.params.list[:] = form_parse(utf8(self.rec.query or ""))
            elif k == "protocol":
                parse(v + ":", url=u, override="scheme start")
            elif k == "username":
                if not u.no_upp():
                    u.username = pe(v, USERINFO_SET)
            elif k == "password":
                if not u.no_upp():
                    u.password = pe(v, USERINFO_SET)
            elif k == "host":
                if not u.opaque():
                    parse(v, url=u, override="host")
            elif k == "hostname":
                if not u.opaque():
                    parse(v, url=u, override="hostname")
            elif k == "port":
                if not u.no_upp():
                    if v == "":
                        u.port = None
                    else:
                        parse(v, url=u, override="port")
            elif k == "pathname":
                if not u.opaque():
                    u.path = []
                    parse(v, url=u, override="path start")
            elif k == "search":
                if v == "":
                    u.query = None
                    self.params.list[:] = []
                    strip_opaque(u)
                else:
                    if v[0] == "?":
                        v = v[1:]
                    u.query = ""
                    parse(v, url=u, override="query")
                    self.params.list[:] = form_parse(utf8(u.query))
            elif k == "hash":
                if v == "":
                    u.fragment = None
                    strip_opaque(u)
                else:
                    if v[0] == "#":
                        v = v[1:]
                    u.fragment = ""
                    parse(v, url=u, override="fragment")
            else:
                raise KeyError(k)
        except Failure:
            return False
        return True
