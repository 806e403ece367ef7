"""C01, C02, C03, C12, C20, C21, C22, C23."""

from __future__ import annotations

from itertools import product

from .. import impl, model
from .. import spaces as S
from . import histories as H
from .common import (
    ASSUME_ICU,
    BAD_BASES,
    BASES,
    BASES_CORE,
    VALIDATED,
    _UrlFromRec,
    absolute_spaces,
    corpus,
    fam,
    judge_absolute,
    judge_relative,
    judge_relative1,
    judge_subclasses,
    model_url_outcome,
    relative_spaces,
)


def c01(tier):
    return dict(
        families=[fam(n, g, judge_absolute, b) for n, g, b in absolute_spaces(tier)]
        + [fam("huge", lambda: S.pump(S.HUGE_PUMPS, S.HUGE), judge_absolute, "%d repetition templates x %d lengths from %d to %d" % (len(S.HUGE_PUMPS), len(S.HUGE), S.HUGE[0], S.HUGE[-1]), bits=0)],
        validated=VALIDATED,
        assumptions=[ASSUME_ICU],
    )


FULL_FORMS = {"base-shapes", "rel-tokens2", "rel-climb", "rel-ascii1"}


def judge_hist_base(case, ctx):
    """resolve against a URL object that was changed after it was parsed"""
    start, ops, refs = case
    u, m = impl.URL(start), model.Url(start)
    for k, v in ops:
        H.impl_set(u, k, v)
        m.set(k, v)
        ctx.transitions += 1
    before = (impl.snapshot(u), impl.pairs(u))
    what = "%s after %s" % (ascii(start), ascii(ops)[:300])
    for s in refs:
        try:
            want = _UrlFromRec(model.parse(s, m.rec)).snapshot()
        except model.Failure:
            want = None
        try:
            got = impl.snapshot(impl.URL(s, u))
        except impl.URLParseError:
            got = None
        ctx.transitions += 1
        ctx.traces += 1
        ctx.outcome("fail" if want is None else "resolved")
        ctx.state(want)
        if got != want:
            return "URL(%s, base), base being %s: %s, the standard says %s" % (ascii(s), what, ascii(got)[:400], ascii(want)[:400])
    if (impl.snapshot(u), impl.pairs(u)) != before:
        return "resolving changed the base, %s" % what
    return None


def hist_bases(tier):
    T = tier == "thorough"

    def gen():
        for s in H.STARTS + H.HIST_STARTS:
            for op in H.OPS:
                yield (s, (op,), S.SHAPE_REFS)
            for a in H.OPS_SMALL:
                for b in H.OPS if T else H.OPS_SMALL:
                    yield (s, (a, b), S.SHAPE_REFS if T else S.SHAPE_REFS[::3])
        for s in H.SHAPES:
            for op in (("protocol", "file"), ("protocol", "https"), ("search", ""), ("hash", ""), ("host", ""), ("pathname", "")):
                yield (s, (op,), S.SHAPE_REFS[:: 1 if T else 4])

    return gen


def c02(tier):
    return dict(
        families=[
            fam("hist-bases", hist_bases(tier), judge_hist_base, "bases changed by every one of the assignments of C04 and by pairs of a core of them, x up to %d references" % len(S.SHAPE_REFS)),
            fam("subclasses", lambda: ((s, b) for g in (((s, None) for s in S.SEEDS + corpus()), ((r, b) for r in S.SHAPE_REFS for b in BASES + BAD_BASES)) for s, b in g), judge_subclasses, "rich and diverse URLs, references x bases, given as instances of subclasses of str and URL"),
        ]
        + [
            fam(
                n,
                g,
                judge_relative if n in FULL_FORMS else judge_relative1,
                b + (" (base as string, URL and record)" if n in FULL_FORMS else ""),
            )
            for n, g, b in relative_spaces(tier)
        ],
        validated=VALIDATED,
        assumptions=[ASSUME_ICU],
    )


# ------------------------------------------------------------------------ C03

REBASE = ["http://u:p@z:1/y/w?v#t", "file:///D:/y", "a:o"]


def printable(s):
    return all(" " <= c <= "~" for c in s)


def check_fixed_point(u, what, rebase=REBASE):
    """u: a URL object.  -> None or description"""
    href = u.href
    snap = impl.snapshot(u)
    if str(u) != href:
        return "%s: str() and href differ" % what
    if not printable(href):
        return "%s: serialization %s is not printable ASCII" % (what, ascii(href)[:300])
    for b in [None] + rebase:
        got = impl.url_outcome(href, b)
        if got[0] != "ok" or got[1] != snap or got[2] != impl.pairs(u):
            return "%s: serializes as %s, which parses (base %s) as %s; expected %s" % (
                what,
                ascii(href)[:300],
                b,
                ascii(got)[:500],
                ascii(snap)[:300],
            )
    return None


def judge_fixed_abs(s, ctx):
    try:
        u = impl.URL(s)
    except impl.URLParseError:
        ctx.outcome("fail")
        return None
    ctx.outcome("ok")
    ctx.traces += 1
    ctx.transitions += 4
    ctx.state(u.href)
    return check_fixed_point(u, "URL(%s)" % ascii(s)[:300], REBASE[:1])


def judge_fixed_rel(case, ctx):
    s, b = case
    try:
        u = impl.URL(s, b)
    except impl.URLParseError:
        ctx.outcome("fail")
        return None
    ctx.outcome("ok")
    ctx.traces += 1
    ctx.transitions += 4
    ctx.state(u.href)
    return check_fixed_point(u, "URL(%s, %s)" % (ascii(s)[:300], ascii(b)), [b])


def judge_fixed_hist(case, ctx):
    start, ops = case
    u = impl.URL(start)
    for k, v in ops:
        H.impl_set(u, k, v)
        ctx.transitions += 1
    ctx.traces += 1
    ctx.outcome("history")
    ctx.state(u.href)
    return check_fixed_point(u, "%s after %s" % (ascii(start), ascii(ops)), [])


def judge_fixed_params(case, ctx):
    start, ops = case
    u = impl.URL(start)
    p = u.search_params
    for op in ops:
        H.impl_any(u, p, op)
        ctx.transitions += 1
    ctx.traces += 1
    ctx.outcome("history")
    ctx.state(u.href)
    return check_fixed_point(u, "%s after %s" % (ascii(start), ascii(ops)), [])


def c03(tier):
    T = tier == "thorough"
    skip = {"ports", "tokens4", "host-codepoints", "splices", "ipv4"} if not T else set()
    fams = [
        fam(n, g, judge_fixed_abs, b)
        for n, g, b in absolute_spaces(tier, light=True)
        if n not in skip
    ]
    fams += [
        fam(n, g, judge_fixed_rel, b)
        for n, g, b in relative_spaces(tier)
        if n in ("rel-tokens2", "rel-climb") or T
    ]
    no_file = [op for op in H.OPS if not H.to_file(op)]
    small = [op for op in H.OPS_SMALL if not H.to_file(op)]
    fams += [
        fam(
            "shape-hist",
            lambda: H.seqs(S.shapes() if T else H.SHAPES, no_file, 1),
            judge_fixed_hist,
            "URLs of every shape x each of %d assignments" % len(no_file),
        ),
        fam(
            "const-hist",
            lambda: H.seqs((H.STARTS[0], H.STARTS[9], H.STARTS[15]), H.const_ops(True), 1),
            judge_fixed_hist,
            "3 starts x 10 components x every constant of the code under test and look-alike code point (%d)" % len(S.CONST),
        ),
        fam(
            "hist1",
            lambda: H.seqs(H.STARTS, H.ops1(tier, True), 1),
            judge_fixed_hist,
            "%d starts x every single assignment of a long value list" % len(H.STARTS),
        ),
        fam(
            "hist2",
            lambda: H.seqs(H.STARTS, no_file, 2, 2),
            judge_fixed_hist,
            "%d starts x all sequences of 2 of %d assignments" % (len(H.STARTS), len(no_file)),
        ),
        fam(
            "hist3",
            lambda: H.seqs(H.STARTS if T else H.STARTS[::2], small, 3, 3),
            judge_fixed_hist,
            "starts x all sequences of 3 of %d assignments" % len(small),
        ),
        fam(
            "params-hist",
            lambda: H.seqs(H.STARTS_Q, H.OPS_Q, 3 if T else 2),
            judge_fixed_params,
            "%d starts x all sequences of <= %d of %d assignments and search parameter mutations"
            % (len(H.STARTS_Q), 3 if T else 2, len(H.OPS_Q)),
        ),
    ]
    return dict(
        families=fams,
        validated="the fixed point is evaluated on urlstd itself: every reached URL is serialized and parsed again (transitions counts parses and assignments)",
        assumptions=[],
    )


# ------------------------------------------------------------------------ C20

_eq_pool = {}


def eq_pool(tier):
    if tier not in _eq_pool:
        pool = []
        srcs = [s for s in corpus()][:: (2 if tier == "thorough" else 6)]
        for s in S.SEEDS + srcs:
            try:
                pool.append((s, impl.URL(s), impl.parse_url(s)))
            except impl.URLParseError:
                pass
        # the same and nearly the same URLs, by other roads
        for s in S.SEEDS:
            for f in (
                lambda s: s,
                lambda s: s + "#",
                lambda s: s + "#x",
                lambda s: " " + s + "\n",
                lambda s: s.replace("#", "\t#"),
            ):
                try:
                    t = f(s)
                    pool.append((t, impl.URL(t), impl.parse_url(t)))
                except impl.URLParseError:
                    pass
        for s in S.SEEDS:
            for k, v in (("hash", ""), ("hash", "#frag"), ("search", ""), ("port", "443")):
                try:
                    u = impl.URL(s)
                    setattr(u, k, v)
                    pool.append(((s, k, v), u, impl.parse_url(u.href)))
                except impl.URLParseError:
                    pass
        _eq_pool[tier] = pool
    return _eq_pool[tier]


def strip_fragment(h):
    i = h.find("#")
    return h if i < 0 else h[:i]


def judge_pair(case, ctx):
    tier, i, j = case
    pool = eq_pool(tier)
    (sa, a, ra), (sb, b, rb) = pool[i], pool[j]
    ha, hb = a.href, b.href
    same, samex = ha == hb, strip_fragment(ha) == strip_fragment(hb)
    ctx.traces += 1
    ctx.transitions += 10
    ctx.outcome("equal" if same else "equal but for fragment" if samex else "different")
    ctx.state((ha, hb))
    checks = [
        ("a == b", a == b, same),
        ("not a != b", not (a != b), same),
        ("a.equals(b)", a.equals(b), same),
        ("a.equals(b, False)", a.equals(b, exclude_fragments=False), same),
        ("a.equals(b, True)", a.equals(b, exclude_fragments=True), samex),
        ("records ==", ra == rb, same),
        ("records !=", not (ra != rb), same),
        ("records equals", ra.equals(rb), same),
        ("records equals True", ra.equals(rb, exclude_fragments=True), samex),
        ("serialize_url(True)", ra.serialize_url(True) == rb.serialize_url(True), samex),
    ]
    for name, got, want in checks:
        if got is not want:
            return "a=%s b=%s: %s is %r, serializations %s %s" % (
                ascii(sa), ascii(sb), name, got, ascii(ha), ascii(hb))  # fmt: skip
    if a.href != ha or b.href != hb or str(ra) != ha or str(rb) != hb:
        return "comparing %s with %s changed one of them" % (ascii(sa), ascii(sb))
    return None


OTHERS = [None, 1, 1.5, True, b"x", (), [], {}, object, NotImplemented, Exception()]


def judge_other(case, ctx):
    tier, i = case
    s, u, r = eq_pool(tier)[i]
    ctx.traces += 1
    ctx.outcome("other type")
    for o in OTHERS + [u.href, str(r), u.search_params]:
        ctx.transitions += 4
        for x in (u, r):
            if (x == o) is not False or (x != o) is not True:
                return "%s compared with %r" % (ascii(s), o)
    if (u == r) is not False or (r == u) is not False:
        return "%s: URL object compared with URL record" % ascii(s)
    return None


class SubURL(impl.URL):
    """a caller's class that adds nothing"""


class SubRecord(impl.up.URLRecord):
    """a caller's class that adds nothing"""


def sub_record(s):
    r, x = impl.parse_url(s), SubRecord()
    for k in ("scheme", "username", "password", "host", "port", "path", "query", "fragment"):
        setattr(x, k, getattr(r, k))
    return x


def judge_sub(case, ctx):
    """objects of a subclass are equal exactly when serialized alike"""
    s, t = case
    try:
        us, ut = [impl.URL(s), SubURL(s)], [impl.URL(t), SubURL(t)]
    except impl.URLParseError:
        ctx.outcome("fail")
        return None
    rs = [impl.parse_url(s), sub_record(s)]
    rt = [impl.parse_url(t), sub_record(t)]
    same, samex = us[0].href == ut[0].href, strip_fragment(us[0].href) == strip_fragment(ut[0].href)
    ctx.traces += 1
    ctx.transitions += 24
    ctx.state((us[0].href, ut[0].href, "subclass"))
    ctx.outcome("subclass")
    for xs, ys in ((us, ut), (rs, rt)):
        for x in xs:
            for y in ys:
                got = (x == y, not (x != y), x.equals(y), x.equals(y, exclude_fragments=True))
                if got != (same, same, same, samex):
                    return "%s (%s) vs %s (%s): %r, want %r" % (
                        ascii(s), type(x).__name__, ascii(t), type(y).__name__, got, (same, same, same, samex))  # fmt: skip
    return None


def judge_eq_edit(case, ctx):
    """a seed and a variant of it: equal exactly when serialized alike"""
    s, t = case
    try:
        a, b = impl.URL(s), impl.URL(t)
    except impl.URLParseError:
        ctx.outcome("fail")
        return None
    wa, wb = model_url_outcome(s), model_url_outcome(t)
    same = wa[1][0] == wb[1][0]
    samex = strip_fragment(wa[1][0]) == strip_fragment(wb[1][0])
    ctx.traces += 1
    ctx.state((wa[1][0], wb[1][0]))
    ctx.outcome("equal" if same else "equal but for fragment" if samex else "different")
    got = (a == b, b == a, a.equals(b), b.equals(a), a.equals(b, True), b.equals(a, True))
    want = (same, same, same, same, samex, samex)
    if got != want:
        return "%s vs %s: %r, want %r (standard's serializations %s %s)" % (
            ascii(s), ascii(t), got, want, ascii(wa[1][0]), ascii(wb[1][0]))  # fmt: skip
    return None


# (how to compare, fragments excluded)
COMPARE = [
    (lambda a, b: a == b, False),
    (lambda a, b: b == a, False),
    (lambda a, b: not a != b, False),
    (lambda a, b: a.equals(b), False),
    (lambda a, b: b.equals(a, exclude_fragments=False), False),
    (lambda a, b: b.equals(a, exclude_fragments=True), True),
    (lambda a, b: a.equals(b, True), True),
]
# after each change the comparison made last before it is made first
COMPARE_ORDERS = [COMPARE + COMPARE[::-1], COMPARE[::-1] + COMPARE]


def judge_eq_changed(case, ctx):
    """compared, changed, compared again: URL objects and URL records, one
    of which, then the other, then the first again is changed"""
    s, t, op, records, order = case
    if records:
        a, b = impl.parse_url(s), impl.parse_url(t)
    else:
        a, b = impl.URL(s), impl.URL(t)
    done = ""
    for n in range(4):
        if n:
            x = (a, b, a)[n - 1]
            k, v = op if n < 3 else (("username", "back") if not records else ("fragment", "back"))
            done += " %s.%s = %r;" % ("aba"[n - 1], k, v)
            if records and k == "path":
                if not isinstance(x.path, list):
                    break
                x.path.append(v)
            elif records:
                setattr(x, k, v)
            else:
                H.impl_set(x, k, v)
        ha, hb = (str(a), str(b)) if records else (a.href, b.href)
        if records:
            sx, sy = a.serialize_url(True), b.serialize_url(True)
        else:
            sx, sy = strip_fragment(ha), strip_fragment(hb)
        for f, exclude in COMPARE_ORDERS[order]:
            ctx.transitions += 1
            want = sx == sy if exclude else ha == hb
            if f(a, b) is not want:
                return "a=%s b=%s compared;%s compared%s: %r, serialized %s %s" % (ascii(s), ascii(t), done, " without fragments" if exclude else "", not want, ascii(ha), ascii(hb))
        ctx.state((ha, hb))
        ctx.outcome("equal" if ha == hb else "different")
    ctx.traces += 1
    return None


FIELD_EDITS = [("scheme", "a"), ("scheme", "http"), ("username", "n"), ("password", "w"), ("host", "i"), ("host", None), ("host", ""), ("host", 1), ("port", None), ("port", 9), ("path", "z"), ("query", None), ("query", ""), ("query", "r"), ("fragment", None), ("fragment", ""), ("fragment", "g")]


def eq_changed(tier):
    def gen():
        pre = H.STARTS + S.shape_prefixes()
        for i, s in enumerate(pre):
            for t in [s, s + "#g", pre[(i + 1) % len(pre)]]:
                for order in (0, 1):
                    for op in H.OPS_SMALL + [("host", "i"), ("hash", "g")]:
                        yield (s, t, op, False, order)
                    for op in FIELD_EDITS:
                        yield (s, t, op, True, order)
        if tier == "thorough":
            for s in H.STARTS:
                for t in H.STARTS:
                    for op in H.OPS:
                        for order in (0, 1):
                            yield (s, t, op, False, order)

    return gen


def respellings(seeds):
    """the same characters in other spellings: case, escapes, order"""
    for s in seeds:
        for t in {s.lower(), s.upper(), s.swapcase(), s.title(), s.casefold()}:
            yield s, t
        for i, c in enumerate(s):
            if c.swapcase() != c:
                yield s, s[:i] + c.swapcase() + s[i + 1 :]
            for e in ("%%%02X" % (ord(c) & 255), "%%%02x" % (ord(c) & 255)):
                yield s, s[:i] + e + s[i + 1 :]
            yield s, s[:i] + s[i + 1 :]
            if i:
                yield s, s[: i - 1] + c + s[i - 1] + s[i + 1 :]
            for a, b in (("%2f", "%2F"), ("%2f", "/"), ("%C3%A9", "%c3%a9"), ("\xe9", "%C3%A9"), ("\xe9", "e\u0301"), ("%20", "+"), ("%41", "A"), ("%2e", "."), ("+", " "), ("\\", "/"), ("a", "A"), ("\u212a", "k"), ("\xdf", "ss"), ("/", "//"), ("0", "00"), ("?", "?&"), ("&a", "a&")):
                yield s[:i] + a + s[i:], s[:i] + b + s[i:]


BUILT_FIELDS = (
    ("a", "http", "file"),
    (("", ""), ("u", ""), ("u", "p")),
    (None, "", "1.2.3.4", 0x01020304, "[::1]", (0, 0, 0, 0, 0, 0, 0, 1), "h", "h:8"),
    (None, 8, 80),
    ((), ("",), ("a",), ("", "a"), ("a/b",), ("a", "b"), "", "/", "/a", "//a", "//h", "/a?q", "/a#f"),
    (None, "", "q", "q#f"),
    (None, "", "f"),
)


def built():
    return [(i, x) for i, x in enumerate(product(*BUILT_FIELDS))]


def _build(x):
    scheme, (user, password), host, port, path, query, fragment = x
    return impl.up.URLRecord(scheme, user, password, host, port, path if isinstance(path, str) else list(path), query, fragment)


_built: dict = {}


def judge_built(case, ctx):
    """records put together by the caller, field by field: the same
    serialization can have different fields"""
    i, x = case
    if not _built:
        for k, y in built():
            r = _build(y)
            _built.setdefault((str(r), False), []).append(k)
            _built.setdefault((r.serialize_url(True), True), []).append(k)
            _built[k] = y
    a = _build(x)
    n = len(built_all)
    for exclude, s in ((False, str(a)), (True, a.serialize_url(True))):
        same = set(_built[s, exclude])
        for k in sorted(same) + [(i + d) % n for d in (1, 2, 3, 4, 12, 13, 156, 468)]:
            b = _build(_built[k])
            want = k in same
            got = (a.equals(b, exclude), b.equals(a, exclude)) + (() if exclude else (a == b, b == a, not a != b))
            ctx.transitions += 1
            if any(g is not want for g in got):
                return "records %r and %r (serialized %a and %a)%s: %r, want %r" % (a, b, str(a), str(b), " without fragments" if exclude else "", got, want)
    ctx.traces += 1
    ctx.state(x)
    ctx.outcome("built")
    return None


built_all = built()


def c20(tier):
    T = tier == "thorough"
    n = len(eq_pool(tier))
    toks = S.T_EDIT if T else S.T_SMALL
    return dict(
        families=[
            fam(
                "pairs",
                lambda: ((tier, i, j) for i in range(n) for j in range(n)),
                judge_pair,
                "all ordered pairs of %d URL objects and records (parsed, respelled, modified)" % n,
            ),
            fam(
                "shapes",
                lambda: (
                    [(p + a + b, p + c + d) for p in S.shape_prefixes() for a in S.SHAPE_QUERIES[:3] for b in S.SHAPE_FRAGMENTS for c in S.SHAPE_QUERIES[:3] for d in S.SHAPE_FRAGMENTS]
                    + [(p + x, q + x) for p in S.shape_prefixes() for q in S.shape_prefixes() for x in ("", "#f")]
                ),
                judge_eq_edit,
                "URLs of every shape: all pairs that differ in query and fragment, all pairs that differ elsewhere",
            ),
            fam(
                "other-types",
                lambda: ((tier, i) for i in range(n)),
                judge_other,
                "each of %d URLs against values of 14 other types" % n,
            ),
            fam(
                "constants",
                lambda: (
                    x
                    for s in S.CONST_SEEDS
                    for w in S.CONST_WORDS
                    for x in [(s, s + w), (s, w + s)] + [(f.replace("{0}", w), f.replace("{0}", v)) for f in S.SLOTS[:4] for v in ("", "a", w + "#")]
                ),
                judge_eq_edit,
                "URLs that differ in a constant of the code under test and look-alike code point (%d)" % len(S.CONST),
            ),
            fam(
                "respelled",
                lambda: respellings(S.SEEDS + S.shape_prefixes() if T else S.SEEDS),
                judge_eq_edit,
                "URLs that differ in case, in an escape or its case, in the order or number of characters, at every position of %d rich URLs" % len(S.SEEDS),
            ),
            fam(
                "built",
                lambda: iter(built_all[:: 1 if T else 7]),
                judge_built,
                "records built field by field (%d; hosts as numbers and as text, opaque and list paths): each against all with the same serialization, with and without fragments, and against its neighbours" % len(built_all[:: 1 if T else 7]),
            ),
            fam(
                "changed",
                eq_changed(tier),
                judge_eq_changed,
                "URL objects and records compared, changed one after the other by each of %d assignments (%d fields of a record), compared after each step" % (len(H.OPS_SMALL) + 2, len(FIELD_EDITS)),
            ),
            fam(
                "subclasses",
                lambda: ((p + a, q + b) for p in S.shape_prefixes() for q in S.shape_prefixes()[:: 1 if T else 5] + [p] for a, b in (("", ""), ("#f", ""), ("#f", "#"), ("?q", "?q#f"))),
                judge_sub,
                "objects and records of a caller's subclass against each other and against plain ones",
            ),
            fam(
                "variants",
                lambda: ((s, t) for s in S.SEEDS for t in S.edits([s], toks)),
                judge_eq_edit,
                "each rich URL against every single edit of it (%d tokens)" % len(toks),
            ),
        ],
        validated="equality is compared with equality of the serializations on urlstd, and for the variants with the model's serializations; equality of strings being an equivalence, agreement on all pairs gives reflexivity, symmetry and transitivity on the pool",
        assumptions=[ASSUME_ICU],
    )


# ------------------------------------------------------------------------ C21

SEGS = ["a", "..", ".", "", "%2e", ".%2E", "%2E%2e", "C|", "C:", "...", "%2f", "b c"]
SEGS_MORE = SEGS + ["%2E.", "%2e%2E%2e", "..a", "a.", ". ", "c|x", "%2", "é", "%252e", "D:", ".\t.", "；"]
ROOTS = [
    ("http://h", True, False),
    ("ws://h:1", True, False),
    ("file://", True, True),
    ("file://h", True, True),
    ("a://h", False, False),
    ("a:", False, False),
]


def is_dot(seg):
    return seg.lower().replace("%2e", ".") == "."


def is_ddot(seg):
    return seg.lower().replace("%2e", ".") == ".."


def letter(seg):
    return len(seg) == 2 and seg[0].isascii() and seg[0].isalpha() and seg[1] in ":|"


def remove_dots(segs, is_file, start=()):
    """Independent formulation: a stack, and a directory flag at the end."""
    out = list(start)
    for i, seg in enumerate(segs):
        last = i == len(segs) - 1
        if is_ddot(seg):
            if out and not (is_file and len(out) == 1 and letter(out[0]) and out[0][1] == ":"):
                out.pop()
            if last:
                out.append("")
        elif is_dot(seg):
            if last:
                out.append("")
        else:
            if is_file and not out and letter(seg):
                seg = seg[0] + ":"
            out.append(seg)
    return out


def enc_path(seg):
    return model.pe(seg.replace("\t", ""), model.PATH_SET)


def path_of(u):
    """list of segments of a URL object with a list path, via its pathname"""
    p = u.pathname
    if p == "":
        return []
    assert p[0] == "/", p
    return p[1:].split("/")


def no_dots(u, what):
    for seg in path_of(u):
        if is_dot(seg) or is_ddot(seg):
            return "%s: path %s keeps a dot segment" % (what, ascii(u.pathname)[:300])
    v = impl.URL(u.href)
    if v.pathname != u.pathname or v.host != u.host:
        return "%s: %s reparses with host %s and path %s" % (
            what,
            ascii(u.href)[:300],
            ascii(v.host),
            ascii(v.pathname)[:300],
        )
    return None


def judge_segments(case, ctx):
    root, special, is_file, sep, segs = case
    if root == "a:" and len(segs) > 1 and segs[0].replace("\t", "") == "":
        return None  # "a://..." is an authority, not a path
    s = root + sep + sep.join(segs) + "?q"  # no segment ends the input
    u = impl.URL(s)
    want = remove_dots([enc_path(x) for x in segs], is_file)
    ctx.traces += 1
    ctx.transitions += len(segs)
    ctx.state((root, tuple(want)))
    ctx.outcome("root" if want in ([], [""]) else "path")
    if path_of(u) != want:
        return "URL(%s): path %s, want %s" % (ascii(s)[:300], ascii(u.pathname)[:300], ascii(want)[:300])
    if u.host != root.partition("//")[2]:
        return "URL(%s): host %s" % (ascii(s)[:300], ascii(u.host))
    return no_dots(u, "URL(%s)" % ascii(s)[:300])


def judge_merge(case, ctx):
    """a relative-path reference against a base path"""
    root, special, is_file, bsegs, segs = case
    base = root + "/" + "/".join(bsegs)
    ref = "/".join(segs)
    bpath = remove_dots([enc_path(x) for x in bsegs], is_file)
    e = [enc_path(x) for x in segs]
    if ref == "" or ref[0] == "/" or ":" in segs[0] or "\\" in ref:
        return None
    if is_file and letter(segs[0]):
        want = remove_dots(e, True)
    else:
        if is_file and len(bpath) == 1 and letter(bpath[0]):
            start = bpath
        else:
            start = bpath[:-1]
        want = remove_dots(e, is_file, start)
    u = impl.URL(ref, base)
    ctx.traces += 1
    ctx.transitions += len(segs) + len(bsegs)
    ctx.state((root, tuple(want)))
    ctx.outcome("root" if want in ([], [""]) else "path")
    if path_of(u) != want:
        return "URL(%s, %s): path %s, want %s" % (
            ascii(ref)[:300],
            ascii(base)[:300],
            ascii(u.pathname)[:300],
            ascii(want)[:300],
        )
    if u.host != root.partition("//")[2]:
        return "URL(%s, %s): host %s" % (ascii(ref)[:300], ascii(base)[:300], ascii(u.host))
    return no_dots(u, "URL(%s, %s)" % (ascii(ref)[:300], ascii(base)[:300]))


def judge_rooted(case, ctx):
    """a reference that begins with a slash against a base path"""
    root, special, is_file, sep, bsegs, segs = case
    if len(segs) > 1 and segs[0] == "":
        return None  # an authority
    if root == "a:" and len(bsegs) > 1 and bsegs[0] == "":
        return None
    base = root + "/" + "/".join(bsegs)
    ref = sep + sep.join(segs)
    bpath = remove_dots([enc_path(x) for x in bsegs], is_file)
    start = bpath[:1] if is_file and bpath and letter(bpath[0]) and not letter(segs[0]) else []
    want = remove_dots([enc_path(x) for x in segs], is_file, start)
    u = impl.URL(ref, base)
    ctx.traces += 1
    ctx.transitions += len(segs) + len(bsegs)
    ctx.state((root, tuple(want)))
    ctx.outcome("root" if want in ([], [""]) else "path")
    what = "URL(%s, %s)" % (ascii(ref)[:300], ascii(base)[:300])
    if path_of(u) != want:
        return "%s: path %s, want %s" % (what, ascii(u.pathname)[:300], ascii(want)[:300])
    if u.host != root.partition("//")[2]:
        return "%s: host %s" % (what, ascii(u.host))
    return no_dots(u, what)


DRIVES = ["a", "..", "", "C|", "D:", "D|x", "C:x", "é|", "|", "%43|", "C%7C", "1:", "CC:", "C||", "."]


def judge_set_path(case, ctx):
    root, special, is_file, sep, segs = case
    u = impl.URL(root + "/x/y?q#f")
    host = u.host
    v = sep + sep.join(segs)
    u.pathname = v
    want = remove_dots([enc_path(x) for x in segs], is_file)
    ctx.traces += 1
    ctx.transitions += len(segs)
    ctx.state((root, tuple(want)))
    ctx.outcome("assigned")
    if path_of(u) != want or (u.search, u.hash, u.host) != ("?q", "#f", host):
        return "%s/x/y?q#f pathname=%s: %s, want path %s" % (root, ascii(v)[:300], ascii(u.href)[:300], ascii(want)[:300])
    return no_dots(u, "%s pathname=%s" % (root, ascii(v)[:300]))


def judge_switched(case, ctx):
    """a relative-path reference against a base whose scheme was assigned"""
    root, proto, bsegs, segs = case
    base = root + "/" + "/".join(bsegs)
    ref = "/".join(segs)
    if ref == "" or ref[0] == "/" or ":" in segs[0]:
        return None
    b = impl.URL(base)
    b.protocol = proto
    is_file = b.protocol == "file:"
    bpath = remove_dots([enc_path(x) for x in bsegs], root.startswith("file"))
    if path_of(b) != bpath:
        return "%s protocol=%s: path %s, want %s" % (ascii(base), proto, ascii(b.pathname), ascii(bpath))
    e = [enc_path(x) for x in segs]
    if is_file and letter(segs[0]):
        start = []
    elif is_file and len(bpath) == 1 and letter(bpath[0]) and bpath[0][1] == ":":
        start = bpath
    else:
        start = bpath[:-1]
    want = remove_dots(e, is_file, start)
    u = impl.URL(ref, b)
    ctx.traces += 1
    ctx.transitions += 2
    ctx.state((root, proto, tuple(want)))
    ctx.outcome("file" if is_file else "other")
    if path_of(u) != want or path_of(b) != bpath:
        return "URL(%s, base), base being %s with protocol=%s: path %s, want %s" % (ascii(ref), ascii(base), proto, ascii(u.pathname), ascii(want))
    v = [b, impl.URL(ref, u)][is_file]
    v.pathname = "/" + ref
    w2 = remove_dots(e, is_file)
    if path_of(v) != w2:
        return "%s with protocol=%s, then pathname=/%s: path %s, want %s" % (ascii(base), proto, ascii(ref), ascii(v.pathname), ascii(w2))
    return None


def c21(tier):
    T = tier == "thorough"

    def switched():
        for n in (1, 2, 3):
            for b in prods(n, n, ["a", "", "..", "C:", "C|"]):
                for segs in prods(1, 3 if T else 2, SEGS):
                    for r, p in (("http://h", "file"), ("ws://1.2.3.4", "file:"), ("http://h", "wss"), ("file://h", "http"), ("a://h", "b"), ("ftp://localhost", "FILE")):
                        yield (r, p, b, segs)

    def prods(lo, hi, segs):
        for n in range(lo, hi + 1):
            for t in product(segs, repeat=n):
                yield list(t)

    def absolute():
        for segs in prods(1, 5 if T else 4, SEGS[:9] if not T else SEGS):
            for r, sp, f in ROOTS:
                yield (r, sp, f, "/", segs)
                if sp and len(segs) <= 3:
                    yield (r, sp, f, "\\", segs)
        for segs in prods(1, 4 if T else 3, SEGS_MORE):
            for r, sp, f in ROOTS:
                yield (r, sp, f, "/", segs)

    def consts():
        for w in S.CONST_WORDS:
            if any(c in w for c in "/\\?#\n\r"):
                continue
            for r, sp, f in ROOTS:
                for segs in ([w], [w, ".."], ["x", w, "..", "y"], ["x", w], [w, w], [w, "y"], ["C|", w, "..", ".."]):
                    yield (r, sp, f, "/", segs)

    def spellings():
        dotty = [x for x in S.strings([".", "%2e", "%2E"], 4 if T else 3, 1)]
        near = ["%2", "%2E%2", "2e", "%2d", "%2f", "%252e", "%2e%252e", "%252E.", "\uff0e", "\u3002", ".\uff0e", "%2e ", "..;", ";..", "%c0%ae", "%2e%00", "%u002e", "%2e%2e%20", "..%", "%2\xe5", "\u2024", "%2\uff45"]
        for w in dotty + near:
            for r, sp, f in ROOTS:
                for segs in ([w], [w, "y"], ["x", w], ["x", w, "y"], ["x", "y", w, w], ["x", "y", w, w, "z"], ["C|", w], ["C|", w, "y"], ["C:", "x", w, w, w], ["", w], ["x", "", w, "y"]):
                    yield (r, sp, f, "/", segs)
                    if sp:
                        yield (r, sp, f, "\\", segs)

    def merges():
        for w in S.strings([".", "%2e", "%2E"], 3, 1):
            for b in (["a", "b", "c"], ["C:"], ["C:", "x"], [""]):
                for segs in ([w], [w, "x"], ["x", w], [w, w, "x"]):
                    for r, sp, f in ROOTS:
                        if r != "a:":
                            yield (r, sp, f, b, segs)
        for b in prods(1, 3 if T else 2, ["a", "", "..", "C:", "b"]):
            for segs in prods(1, 3, SEGS):
                for r, sp, f in ROOTS:
                    if r != "a:":
                        yield (r, sp, f, b, segs)

    def rooted():
        for r, sp, f in ROOTS:
            for sep in "/\\" if sp else "/":
                for b in prods(1, 2, ["a", "", "C:", "C|", "D|x", ".."]):
                    for segs in prods(1, 3 if T else 2, DRIVES):
                        yield (r, sp, f, sep, b, segs)

    def drives():
        for r, sp, f in ROOTS:
            if r == "a:":
                continue
            for b in prods(1, 2, ["a", "", "C:", "C|", "D|x"]):
                for segs in prods(1, 3 if T else 2, DRIVES):
                    yield (r, sp, f, b, segs)

    def deep():
        for n in S.PUMP_LENGTHS[: None if T else -24]:
            for m in (0, 1, 2, n // 2, n - 1, n, n + 1, 2 * n):
                if m < 0:
                    continue
                for r, sp, f in ROOTS:
                    for dd in ("..", "%2E."):
                        yield (r, sp, f, "/", ["x"] * n + [dd] * m + ["z"])
                        yield (r, sp, f, "/", ["C|"] + ["x"] * n + [dd] * m)

    def assigned():
        for segs in prods(1, 4 if T else 3, SEGS):
            for r, sp, f in ROOTS:
                yield (r, sp, f, "/", segs)
                if sp and len(segs) < 3:
                    yield (r, sp, f, "\\", segs)

    fams = [
        fam("constants", consts, judge_segments, "paths of segments that are or contain constants of the code under test and look-alike code points (%d)" % len(S.CONST)),
        fam("spellings", spellings, judge_segments, "every segment of <= %d dots in all three spellings of a dot, and 22 near misses, in 11 paths x 6 roots x both separators" % (4 if T else 3)),
        fam("spellings-assigned", spellings, judge_set_path, "the same assigned to the path"),
        fam("absolute", absolute, judge_segments, "all paths of <= %d segments over %d spellings, <= %d over %d, for 6 roots and both separators" % (5 if T else 4, 12 if T else 9, 4 if T else 3, len(SEGS_MORE))),
        fam("merge", merges, judge_merge, "base paths of <= %d segments x references of <= 3 segments over %d spellings x 5 roots; references of all spellings of dots" % (3 if T else 2, len(SEGS))),
        fam("rooted", rooted, judge_rooted, "references of <= %d segments over %d drive letters and look-alikes after a slash x base paths of <= 2 segments x 6 roots and both separators" % (3 if T else 2, len(DRIVES))),
        fam("drives", drives, judge_merge, "the same without the slash"),
        fam("deep", deep, judge_segments, "depth n and climb m below, at and above n, n up to %d" % (S.PUMP_LENGTHS[-1] if T else S.PUMP_LENGTHS[-25])),
        fam("switched", switched, judge_switched, "base paths of <= 3 segments over 5 spellings whose scheme is then assigned (to file, from file, within its class) x references of <= %d segments over %d spellings" % (3 if T else 2, len(SEGS))),
        fam("assigned", assigned, judge_set_path, "pathname assigned: all of <= %d segments over %d spellings" % (4 if T else 3, len(SEGS))),
    ]
    return dict(
        families=fams,
        validated="the expected path is computed by an independent stack formulation of dot-segment removal and compared with urlstd on every case; the result is serialized and parsed again",
        assumptions=[],
    )


# ------------------------------------------------------------------------ C22

DEFAULT_PORT = {"http": 80, "https": 443, "ws": 80, "wss": 443, "ftp": 21}
USERINFO_BAD = set('/:;=@[\\]^|?`{} "<>#')
LOWER = set("abcdefghijklmnopqrstuvwxyz")


def clean(s, bad):
    return all(" " < c <= "~" and c not in bad for c in s)


def well_formed(u, what, reparse=True):
    href, proto = u.href, u.protocol
    sch = proto[:-1]

    def bad(msg):
        return "%s: %s (href %s)" % (what, msg, ascii(href)[:300])

    if proto[-1:] != ":" or not sch or sch[0] not in LOWER or not all(
        c in LOWER or c in "0123456789+-." for c in sch
    ):
        return bad("scheme %s" % ascii(proto))
    special = sch in DEFAULT_PORT or sch == "file"
    if not href.startswith(proto):
        return bad("href does not start with the protocol")
    rest = href[len(proto) :]
    auth = rest.startswith("//")
    un, pw, host, hn, port = u.username, u.password, u.host, u.hostname, u.port
    path, search, hsh = u.pathname, u.search, u.hash
    if special and not auth:
        return bad("special URL without authority")
    if special and sch != "file" and hn == "":
        return bad("special URL with empty host")
    if special and not path.startswith("/"):
        return bad("special URL path %s" % ascii(path)[:100])
    if not auth and (un or pw or host or port):
        return bad("credentials, host or port without authority")
    if (hn == "" or sch == "file") and (un or pw or port):
        return bad("credentials or port without host or with file")
    if port:
        if not port.isascii() or not port.isdigit() or str(int(port)) != port:
            return bad("port %s" % ascii(port))
        if int(port) > 65535 or DEFAULT_PORT.get(sch) == int(port):
            return bad("port %s for scheme %s" % (port, sch))
    if host != hn + (":" + port if port else ""):
        return bad("host %s, hostname %s, port %s" % (ascii(host), ascii(hn), port))
    if not clean(un, USERINFO_BAD) or not clean(pw, USERINFO_BAD):
        return bad("credentials %s %s" % (ascii(un), ascii(pw)))
    if hn.startswith("["):
        inner = hn[1:-1]
        if not hn.endswith("]") or not inner or any(
            c not in "0123456789abcdef:" for c in inner
        ):
            return bad("IPv6 host %s" % ascii(hn))
    elif not clean(hn, set("#/:<>?@[\\]^|")):
        return bad("host %s" % ascii(hn))
    elif special and not clean(hn, set("#/:<>?@[\\]^|%")):
        return bad("domain %s" % ascii(hn))
    elif special and hn != hn.lower():
        return bad("domain %s is not lower case" % ascii(hn))
    opaque = not auth and not path.startswith("/") and not special
    if opaque or not special and path == "":
        if not all(" " <= c <= "~" and c not in "?#" for c in path):
            return bad("opaque path %s" % ascii(path)[:200])
    elif not clean(path, set('?#"<>`{}')):
        return bad("path %s" % ascii(path)[:200])
    if search and (
        search[0] != "?"
        or not clean(search[1:], set("#\"<>'") if special else set('#"<>'))
    ):
        return bad("search %s" % ascii(search)[:200])
    if hsh and (hsh[0] != "#" or not clean(hsh[1:], set('"<>`'))):
        return bad("hash %s" % ascii(hsh)[:200])
    cred = un + (":" + pw if pw else "")
    head = proto
    if auth:
        head += "//" + (cred + "@" if cred else "") + host
    elif path.startswith("//"):
        head += "/."
    ok = {
        head + path + q + f
        for q in ({search} if search else {"", "?"})
        for f in ({hsh} if hsh else {"", "#"})
    }
    if href not in ok:
        return bad("is not the concatenation of its components, e.g. %s" % ascii(min(ok))[:300])
    if str(u) != href:
        return bad("str() differs")
    if not reparse:
        return None
    r = impl.parse_url(href)
    key = impl.rec_key(r)
    host_s = r.serialize_host()
    if (
        key[0] != sch
        or key[1] != un
        or key[2] != pw
        or host_s != hn
        or key[4] != (int(port) if port else None)
        or r.serialize_path() != path
        or (key[6] or "") != search[1:]
        or (key[7] or "") != hsh[1:]
        or (key[3] is None) == auth
        or r.has_opaque_path() != (isinstance(key[5], str))
        or r.is_special() != special
        or r.is_not_special() == special
        or r.includes_credentials() != bool(un or pw)
        or r.cannot_have_username_password_port() != (hn == "" or sch == "file")
        or r.href != href
        or r.serialize_url() != href
    ):
        return bad("record %s disagrees with the attributes" % ascii(key)[:400])
    if special and isinstance(key[5], str):
        return bad("special URL with opaque path")
    return None


def judge_wf_abs(s, ctx):
    try:
        u = impl.URL(s)
    except impl.URLParseError:
        ctx.outcome("fail")
        return None
    ctx.outcome(u.protocol if u.protocol[:-1] in DEFAULT_PORT or u.protocol == "file:" else "other scheme")
    ctx.traces += 1
    ctx.transitions += 1
    ctx.state(u.href)
    return well_formed(u, "URL(%s)" % ascii(s)[:300])


def judge_wf_rel(case, ctx):
    s, b = case
    try:
        u = impl.URL(s, b)
    except impl.URLParseError:
        ctx.outcome("fail")
        return None
    ctx.outcome("resolved")
    ctx.traces += 1
    ctx.transitions += 1
    ctx.state(u.href)
    return well_formed(u, "URL(%s, %s)" % (ascii(s)[:300], ascii(b)))


def judge_wf_hist(case, ctx):
    start, ops = case
    u = impl.URL(start)
    # Switching to file keeps what other special URLs may have and a parsed
    # file URL may not ("localhost", "C|"): the invariants still hold, but the
    # record of the parsed serialization may differ.
    switched = False
    for op in ops:
        if op[0] in H.PARAM_OPS:
            H.impl_any(u, u.search_params, op)
        else:
            switched = switched or H.to_file(op)
            H.impl_set(u, *op)
        ctx.transitions += 1
    ctx.outcome("history to file" if switched else "history")
    ctx.traces += 1
    ctx.state(u.href)
    return well_formed(u, "%s after %s" % (ascii(start), ascii(ops)), not switched)


def c22(tier):
    T = tier == "thorough"
    skip = {"tokens4", "host-codepoints", "splices"} if not T else set()
    fams = [
        fam(n, g, judge_wf_abs, b)
        for n, g, b in absolute_spaces(tier, light=True)
        if n not in skip
    ]
    fams += [
        fam(n, g, judge_wf_rel, b)
        for n, g, b in relative_spaces(tier)
        if n in ("rel-tokens2",) or T
    ]
    no_file = H.OPS
    small = H.OPS_SMALL
    fams += [
        fam("shape-hist", lambda: H.seqs(S.shapes() if T else H.SHAPES, no_file, 1), judge_wf_hist, "URLs of every shape x each of %d assignments" % len(no_file)),
        fam("const-hist", lambda: H.seqs((H.STARTS[0], H.STARTS[9], H.STARTS[15]), H.const_ops(False), 1), judge_wf_hist, "3 starts x 10 components x every constant of the code under test and look-alike code point (%d)" % len(S.CONST)),
        fam("param-hist", lambda: H.seqs(H.STARTS_Q, H.OPS_Q, 3), judge_wf_hist, "%d starts x all sequences of <= 3 of %d assignments and mutations of the search parameters" % (len(H.STARTS_Q), len(H.OPS_Q))),
        fam("hist1", lambda: H.seqs(H.STARTS, H.ops1(tier), 1), judge_wf_hist, "%d starts x every single assignment of a long value list" % len(H.STARTS)),
        fam("hist2", lambda: H.seqs(H.STARTS, no_file, 2, 2), judge_wf_hist, "%d starts x all sequences of 2 of %d assignments" % (len(H.STARTS), len(no_file))),
        fam("hist3", lambda: H.seqs(H.STARTS if T else H.STARTS[1::2], small, 3, 3), judge_wf_hist, "starts x all sequences of 3 of %d assignments" % len(small)),
    ]
    return dict(
        families=fams,
        validated="invariants are evaluated on urlstd itself in every reached state",
        assumptions=[],
    )


# ------------------------------------------------------------------------ C23

WS_SEEDS = [
    "http://u:p@h:8/a/../b?q=1#f",
    "https://[::1]:444/",
    "file:///C|/x/..",
    "a:b c?d#e",
    "a://h:1/%2e%2E/x",
    "http://1.2.3.4",
    "ws:\\\\h\\p",
    "/x/../y",
    "../x?y",
    "http:",
    "h:80:90",
    "%61",
]
TABS = ["\t", "\n", "\r"]
ENDS = [chr(i) for i in range(0x21)]
KEPT = ["\x0b", "\x0c", "\x1c", "\x85", "\xa0", "\u1680", "\u2003", "\u2028", "\u3000", "\ufeff", "\u200b", "\x00", " ", "\x7f", "\xad", "\u180e"]
WS_BASE = "http://b:9/c/d?e#f"


def judge_ws(case, ctx):
    plain, dirty, base, dirty_base = case
    want = impl.url_outcome(plain, base)
    got = impl.url_outcome(dirty, dirty_base)
    ctx.traces += 1
    ctx.transitions += 2
    ctx.state(want)
    ctx.outcome(want[0])
    if got != want:
        return "URL(%s, %s) gives %s but URL(%s, %s) gives %s" % (
            ascii(plain), ascii(base), ascii(want)[:300],
            ascii(dirty), ascii(dirty_base), ascii(got)[:300])  # fmt: skip
    c1 = impl.URL.can_parse(dirty, dirty_base)
    if c1 is not (want[0] == "ok"):
        return "can_parse(%s, %s) is %r" % (ascii(dirty), ascii(dirty_base), c1)
    return None


def judge_ws_set(case, ctx):
    start, k, plain, dirty = case
    a, b = impl.URL(start), impl.URL(start)
    ra, rb = H.impl_set(a, k, plain), H.impl_set(b, k, dirty)
    ctx.traces += 1
    ctx.transitions += 2
    ctx.state((k, impl.snapshot(a)))
    ctx.outcome("raised" if ra else "assigned")
    if impl.snapshot(a) != impl.snapshot(b) or impl.pairs(a) != impl.pairs(b):
        return "%s with %s = %s becomes %s, with %s it becomes %s" % (
            start, k, ascii(plain), ascii(a.href), ascii(dirty), ascii(b.href))  # fmt: skip
    return None


def c23(tier):
    T = tier == "thorough"

    def inside():
        for s in WS_SEEDS:
            n = len(s)
            for i in range(n + 1):
                for t in TABS:
                    d = s[:i] + t + s[i:]
                    yield (s, d, WS_BASE, WS_BASE)
                    yield (s, d, None, None)
                    for j in range(i, n + 1):
                        for t2 in TABS if T else TABS[:2]:
                            yield (s, s[:i] + t + s[i:j] + t2 + s[j:], WS_BASE, WS_BASE)
            for k in S.PUMP_QUICK:
                for i in (1, n // 2, n - 1):
                    yield (s, s[:i] + "\t" * k + s[i:], None, None)
                    yield (s, s[:i] + "\r\n" * k + s[i:], WS_BASE, WS_BASE)
                yield (s, ("\t" * k).join(s), None, None)
                yield (s, s[:1] + "\n" * k + s[1:] + "\t" * k, WS_BASE, WS_BASE[:9] + "\r" * k + WS_BASE[9:])
            for t in TABS:
                yield (s, t.join(s), None, None)
                yield (s, t + t.join(s) + t, WS_BASE, WS_BASE)

    def around():
        for s in WS_SEEDS:
            for a in [""] + ENDS:
                for b in [""] + ENDS:
                    yield (s, a + s + b, WS_BASE, WS_BASE)
            for n in S.PUMP_QUICK:
                for c in (" ", "\x00", "\x1f", "\t", "\n "):
                    yield (s, c * n + s, None, None)
                    yield (s, s + c * n, WS_BASE, WS_BASE)
                    yield (s, c * n + s + c * n, WS_BASE, WS_BASE)

    def base():
        for b in BASES:
            for i in range(len(b) + 1):
                for t in TABS:
                    for r in ("", "x", "/y", "?k", "#"):
                        yield (r, r, b, b[:i] + t + b[i:])
            for a in [""] + ENDS:
                for e in [""] + ENDS:
                    yield ("x", "x", b, a + b + e)

    def everywhere():
        for s in corpus(tier):
            if any("\ud800" <= c <= "\udfff" for c in s):
                continue
            yield (s, " \x01" + s + "\x1f ", None, None)
            yield (s, "\n\t" + s + "\r", WS_BASE, WS_BASE)
            yield (s, "\t".join(s), None, None)

    def consts():
        for w in S.CONST_WORDS:
            for f in ("%s", "http://h/%s", "%s://h", "a:%s", "http://%s/?%s"):
                s = f.replace("%s", w)
                if any("\ud800" <= c <= "\udfff" for c in s):
                    continue
                yield (s, " \x01" + s + "\x1f ", None, None)
                yield (s, "\t".join(s), None, None)
                yield (s, s[: len(s) // 2] + "\n" + s[len(s) // 2 :], WS_BASE, "\r" + WS_BASE)

    def setters():
        for st in H.STARTS if T else H.STARTS[::2]:
            for k, v in H.OPS:
                if k in ("username", "password", "href") or not v:
                    continue
                for i in range(1, len(v) + 1):
                    for t in TABS:
                        yield (st, k, v, v[:i] + t + v[i:])
                yield (st, k, v, v[0] + "\t\r\n".join(v[1:]) if len(v) > 1 else v + "\t")
                for n in (7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025):
                    yield (st, k, v, v[0] + "\t" * n + v[1:])
                    yield (st, k, v, v + "\n" * n)

    def kept():
        for s in WS_SEEDS:
            for i in range(len(s) + 1):
                for c in KEPT:
                    yield s[:i] + c + s[i:]

    fams = [
        fam("constants", consts, judge_ws, "every constant of the code under test and look-alike code point (%d) in 5 frames, surrounded by controls, tabs inside" % len(S.CONST)),
        fam("const-setters", lambda: ((st, k, w, w[0] + "\t" + w[1:] + "\n") for st in (H.STARTS[0], H.STARTS[9]) for k in H.VALUES if k not in ("username", "password", "href") for w in S.CONST_WORDS), judge_ws_set, "the same assigned, tabs after the first character"),
        fam("inside", inside, judge_ws, "%d inputs x every one and every two positions x tab, LF, CR; runs of up to %d" % (len(WS_SEEDS), S.PUMP_QUICK[-1])),
        fam("around", around, judge_ws, "%d inputs x every pair of leading/trailing C0 control or space, and runs up to %d" % (len(WS_SEEDS), S.PUMP_QUICK[-1])),
        fam("base", base, judge_ws, "%d bases x every position x tab, LF, CR; every pair of C0 control or space around" % len(BASES)),
        fam("everywhere", everywhere, judge_ws, "%d diverse inputs: surrounded by controls, tabs between all characters" % len(corpus(tier))),
        fam("setters", setters, judge_ws_set, "starts x assignments x every position after the first; runs of up to 1025"),
        fam("kept", kept, judge_absolute, "other white space and controls at every position: outcome as the standard's"),
    ]
    return dict(
        families=fams,
        validated="urlstd's outcome with and without the inserted characters is compared (and, for other code points, with the model)",
        assumptions=[ASSUME_ICU],
    )
