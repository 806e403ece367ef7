"""C15 (isolation) and the list of calls that C16 reuses."""

from __future__ import annotations

import copy
import json
import os
import pickle
import subprocess
import sys
from itertools import product

from .. import impl, model
from .. import spaces as S
from ..engine import VERIF
from . import histories as H
from .common import ASSUME_ICU, BASES, VALIDATED, fam

up = impl.up

# ------------------------------------------------------------- call sequences


def report(v):
    return (v.valid, tuple(v.error_types), tuple(v.descriptions), v.validation_errors)


def _url(s, base=None):
    return impl.url_outcome(s, base)


def _rec(s, base=None, enc="utf-8"):
    return impl.parse_outcome(s, base, enc)


def _valid(s, base=None):
    v = up.ValidityState()
    return (up.URLValidator.is_valid(s, base, validity=v), report(v))


def _host(s, opaque=False):
    return impl.guard(lambda: repr(up.Host.parse(s, opaque)))


def _hostv(s):
    v = up.ValidityState()
    return (
        up.HostValidator.is_valid(s, validity=v),
        report(v),
        up.HostValidator.is_valid(s),
        up.HostValidator.is_valid_opaque_host(s),
    )


def _idna(s, strict=False):
    return (
        impl.guard(up.IDNA.domain_to_ascii, s, strict),
        impl.guard(up.IDNA.domain_to_unicode, s, strict),
    )


def _mutate_url(s, base=None):
    """parse, then change everything the object gives access to"""
    try:
        u = impl.URL(s, base)
    except impl.URLParseError:
        return impl.FAIL
    before = (impl.snapshot(u), impl.pairs(u))
    u.search_params.append("zz", "1")
    u.search_params.sort()
    for k, v in (("pathname", "/m/u/t"), ("hash", "mm"), ("host", "mutated:7"), ("username", "mm"), ("protocol", "ws")):
        H.impl_set(u, k, v)
    return before


def _mutate_rec(s, base=None):
    try:
        r = impl.parse_url(s, base)
    except impl.URLParseError:
        return impl.FAIL
    before = (impl.rec_key(r), str(r))
    if isinstance(r.path, list):
        r.path.append("MUTATED")
        r.path.insert(0, "M2")
    r.scheme, r.query, r.fragment, r.port, r.username = "mut", "mq", "mf", 7, "mu"
    p = up.URLSearchParams(r)
    p.append("m", "m")
    return before


def _mutate_report(s):
    v = up.ValidityState()
    r = up.URLValidator.is_valid(s, validity=v)
    out = (r, report(v))
    v.error_types.append("MUTATED")
    v.descriptions.append("MUTATED")
    v.valid = not v.valid
    return out


def _mutate_lists(b):
    x = up.parse_qsl(b)
    out = list(x)
    x.append(("m", "m"))
    return out


def _params(init, *ops):
    p = up.URLSearchParams(init)
    for op in ops:
        getattr(p, op[0])(*op[1:])
    return (tuple(p), str(p), len(p), tuple(p.keys()))


def _set(s, *ops):
    u = impl.URL(s)
    r = tuple(H.impl_set(u, k, v) for k, v in ops)
    return (r, impl.snapshot(u), impl.pairs(u))


STR = [
    "http://u:p@h:8/a/../b?q=1#f",
    "https://EXAMPLE.com:443/é?é#é",
    "file:///C|/x/../y",
    "a:o p?q#f",
    "x/../y?z",
    "//h2/p",
    "?k=v",
    "",
    "http://bücher.example/",
    "http://0x7f.1/",
    "http://[1::0:0:2]/",
    "http://a..b/ |",
    "http://xn--a/",
    "http:",
    "zzz://u@h%41/^",
    "#f",
]


def calls():
    """[(label, thunk)]: deterministic, each builds its own objects"""
    out = []

    def add(label, f, *a, **k):
        out.append((label, lambda: f(*a, **k)))

    bases = [None, "http://h/a/b/c?bq#bf", "file:///C:/d/e", "a://bh/x/y", "a:opaque"]
    for s in STR:
        for b in bases:
            add("URL(%r, %r)" % (s, b), _url, s, b)
        for b in bases[:3]:
            add("parse_url(%r, %r)" % (s, b), _rec, s, b)
        add("parse_url(%r, base, 'windows-1252')" % s, _rec, s, bases[1], "windows-1252")
        add("parse_url(%r, base, 'shift_jis')" % s, _rec, s, bases[1], "shift_jis")
        add("mutate URL(%r)" % s, _mutate_url, s, bases[1])
        add("mutate parse_url(%r)" % s, _mutate_rec, s, bases[1])
        add("mutate parse_url(%r) abs" % s, _mutate_rec, s)
        add("is_valid(%r)" % s, _valid, s)
        add("is_valid(%r, base)" % s, _valid, s, bases[1])
        add("mutate report(%r)" % s, _mutate_report, s)
        add("can_parse(%r)" % s, lambda s=s: tuple(impl.URL.can_parse(s, b) for b in bases))
    nb = ["http://h/a?\xe9\u4e2d#f", "http://\xe9/?k", "file:///x?\xe9", "ws://h/?\xe9"]
    for b in nb:
        for e in ("utf-8", "windows-1252", "shift_jis", "utf-16le"):
            for s in ("#g", "", "x?\xe9"):
                add("parse_url(%r, %r, %r)" % (s, b, e), _rec, s, b, e)
            add("urlparse(%r, %r, %r)" % ("#g", b, e), lambda b=b, e=e: tuple(up.urlparse("#g", b, encoding=e)))
            add("is_valid(%r, %r, %r)" % ("#g", b, e), lambda b=b, e=e: up.URLValidator.is_valid("#g", b, e))
        add("URL('#g', %r)" % b, _url, "#g", b)
        add("mutate URL('', %r)" % b, _mutate_url, "", b)
    for h in ("h", "H", "bücher", "faß.de", "1.2", "0x7f.1", "[::1]", "[1:0:0:2::]", "a..b", "xn--a", "%41", "a b", "", "é|", "a_b", "-", "1.2.3.256"):
        add("Host.parse(%r)" % h, _host, h)
        add("Host.parse(%r, True)" % h, _host, h, True)
        add("HostValidator(%r)" % h, _hostv, h)
        add("IDNA(%r)" % h, _idna, h)
        add("IDNA(%r, True)" % h, _idna, h, True)
    # one function each, so that any of them can be the first of a process
    for h in ("h", "faß.de", "xn--fa-hia.de", "a_b", "xn--a", "1.2.3.4"):
        for strict in (False, True):
            add("domain_to_ascii(%r, %r)" % (h, strict), lambda h=h, strict=strict: impl.guard(up.IDNA.domain_to_ascii, h, strict))
            add("domain_to_unicode(%r, %r)" % (h, strict), lambda h=h, strict=strict: impl.guard(up.IDNA.domain_to_unicode, h, strict))
        for f in ("is_valid", "is_valid_domain", "is_valid_ipv4_address", "is_valid_ipv6_address", "is_valid_opaque_host"):
            add("HostValidator.%s(%r)" % (f, h), lambda f=f, h=h: getattr(up.HostValidator, f)(h))
    for x in ("a b", "é%41", "\ud83c\udf08~"):
        add("utf8_percent_encode(%r)" % x, lambda x=x: (up.utf8_percent_encode(x, "")))
        add("utf8_percent_encode(%r, plus)" % x, lambda x=x: (up.utf8_percent_encode(x, "/", True)))
        add("utf8_encode(%r)" % x, lambda x=x: up.utf8_encode(x))
        add("urlencode(%r)" % x, lambda x=x: up.urlencode([(x, x)]))
    for q in (b"", b"a=1&b=2&a=3", b"%41+&%zz&=", b"\xc3&\xa9=%C3%A9"):
        add("parse_qsl(%r)" % q, up.parse_qsl, q)
        add("mutate parse_qsl(%r)" % q, _mutate_lists, q)
    for i in ("", "a=1&b=2&a=3", "?é=+&%61", [("b", "2"), ("a", "1")], {"b": "2", "a": 1}):
        add("params(%r)" % (i,), _params, i)
        add("params(%r) append" % (i,), _params, i, ("append", "a", "9"), ("set", "b", "8"))
        add("params(%r) sort" % (i,), _params, i, ("sort",), ("delete", "a"))
    add("params()", lambda: (lambda p: (p.append("a", "b"), tuple(p)))(up.URLSearchParams()))
    add("params() again", lambda: (lambda p: (tuple(p), p.append("x", "y"), tuple(p)))(up.URLSearchParams()))
    for s in (STR[0], STR[2], STR[3], "http://h"):
        add("set %r search" % s, _set, s, ("search", "?n=1"), ("hash", ""), ("pathname", "/p"))
        add("set %r host" % s, _set, s, ("host", "z:0"), ("port", "443"), ("protocol", "https"))
        add("set %r href" % s, _set, s, ("href", "a:o  "), ("search", ""), ("href", "http://"))
        add("set %r user" % s, _set, s, ("username", "é"), ("password", ""), ("hostname", ""))
    for e in ("utf-8", "windows-1252", "shift_jis"):
        add("urlencode %s" % e, up.urlencode, [("é中", "~ *")], encoding=e)
        add("percent %s" % e, up.string_percent_encode, "é中 '", "'", encoding=e)
        add("urlparse %s" % e, lambda e=e: tuple(up.urlparse("http://h/p;q?é中#f", encoding=e, allow_fragments=False)))
    add("percent decode", up.string_percent_decode, "%41%zé")
    for a in ("http", "zzz", "HTTP", ""):
        add("scheme %r" % a, lambda a=a: (up.URLValidator.is_valid_url_scheme(a)))
    add("origin", lambda: repr(impl.parse_url("blob:https://h:443/x").origin))
    add("repr", lambda: (repr(impl.URL(STR[0])), repr(impl.parse_url(STR[2])), repr(up.URLSearchParams("a=1"))))
    return out


CALLS = calls()


def run_call(i):
    """-> comparable outcome"""
    try:
        return ("ok", CALLS[i][1]())
    except impl.URLParseError as e:
        return ("fail", str(e))
    except Exception as e:
        return ("exc", type(e).__name__, str(e))


def in_fresh_process(f):
    """the result of f() in a forked copy of this process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as out:
                pickle.dump(f(), out)
            os._exit(0)
        except BaseException:
            os._exit(1)
    os.close(w)
    with os.fdopen(r, "rb") as src:
        data = src.read()
    _, status = os.waitpid(pid, 0)
    if status:
        raise RuntimeError("the forked process ended with status %d" % status)
    return pickle.loads(data)


_pristine: dict = {}


def pristine(n):
    """result of call n when it is the first call of a process; computed in the
    explorer's process before any worker starts (which never calls urlstd)"""
    if n not in _pristine:
        _pristine[n] = in_fresh_process(lambda: run_call(n))
    return _pristine[n]


def prepare(indexes):
    for n in indexes:
        pristine(n)


def judge_cold_calls(idx, ctx):
    """the same in a process in which urlstd has not been called"""

    def run():
        for k, n in enumerate(idx):
            got = run_call(n)
            if got != _pristine[n]:
                return k, got
        return None

    r = in_fresh_process(run)
    ctx.transitions += len(idx)
    ctx.traces += 1
    ctx.outcome("cold sequence")
    ctx.state(("cold",) + tuple(idx))
    if r is not None:
        k, got = r
        before = [CALLS[j][0] for j in idx[:k]]
        return "%s in a new process, after %s, gives %s; as the first call of a process it gives %s" % (
            CALLS[idx[k]][0],
            before if k < 6 else before[:3] + ["... %d calls ..." % (k - 4)] + before[-1:],
            ascii(got)[:500],
            ascii(_pristine[idx[k]])[:500],
        )
    return None


def judge_calls(idx, ctx):
    """every call of the sequence gives what it gives as a process's first"""
    for k, n in enumerate(idx):
        got = run_call(n)
        ctx.transitions += 1
        if got != _pristine[n]:
            return "%s after %s gives %s; as the first call of a process it gives %s" % (
                CALLS[n][0],
                [CALLS[j][0] for j in idx[:k]],
                ascii(got)[:500],
                ascii(_pristine[n])[:500],
            )
    ctx.traces += 1
    ctx.outcome("sequence")
    ctx.state(tuple(idx))
    return None


# ------------------------------------------------- one text in different roles


def _surrogate_free(x):
    return not any("\ud800" <= c <= "\udfff" for c in x)


def roles():
    """[(label, f)]: f(x) gives x to the library in one role"""
    out = []

    def add(label, f):
        out.append((label, f))

    frames = ["{0}", "http://{0}", "http://{0}/", "http://h:{0}/", "http://{0}@h/", "http://u:{0}@h/", "http://h/{0}", "http://h/?{0}", "http://h/#{0}", "a:{0}", "a://{0}", "a:/{0}", "a://h/?{0}", "file:{0}", "file:///{0}", "file://{0}/", "{0}:x", "{0}://h/", "http://[{0}]/", "blob:{0}"]
    for f in frames:
        add("URL(%r)" % f, lambda x, f=f: _url(f.replace("{0}", x)))
    for b in ("http://h/a/b/c?bq#bf", "file:///C:/d/e", "a:opaque", "a://bh/x/y"):
        add("URL(x, %r)" % b, lambda x, b=b: _url(x, b))
    for b in ("http://{0}/p", "http://h/{0}", "a:{0}", "file:///{0}"):
        add("URL('y', %r)" % b, lambda x, b=b: _url("y", b.replace("{0}", x)))
        add("URL('', %r)" % b, lambda x, b=b: _url("", b.replace("{0}", x)))
    for e in ("windows-1252", "shift_jis", "utf-16le"):
        add("parse_url(%r)" % e, lambda x, e=e: _rec("http://h/" + x + "?" + x + "#" + x, None, e))
        add("parse_url(a:, %r)" % e, lambda x, e=e: _rec("a:" + x + "?" + x, None, e))
        add("urlencode(%r)" % e, lambda x, e=e: up.urlencode([(x, x)], encoding=e))
        add("percent(%r)" % e, lambda x, e=e: up.string_percent_encode(x, "", encoding=e))
    for k in H.VALUES:
        for st in ("http://u:p@h:8/a/b?q=1#f", "a:b c?q#f", "file:///C:/d/e?q#f"):
            add("%s %s=" % (st, k), lambda x, k=k, st=st: _set(st, (k, x)))
    for v in (str.upper, str.lower, str.swapcase, lambda x: x + " ", lambda x: "\t" + x, lambda x: x + "/", lambda x: x + x):
        add("variant URL", lambda x, v=v: _url(v(x), "http://h/a/b"))
        add("variant host", lambda x, v=v: _host(v(x)))
        add("variant scheme", lambda x, v=v: (impl.guard(up.URLValidator.is_valid_url_scheme, v(x)), _url(v(x) + "://h:80/")))
        add("variant name", lambda x, v=v: _params([(v(x), v(x))]))
    add("Host.parse", lambda x: _host(x))
    add("Host.parse opaque", lambda x: _host(x, True))
    add("HostValidator", lambda x: _hostv(x))
    for f in ("is_valid", "is_valid_domain", "is_valid_ipv4_address", "is_valid_ipv6_address", "is_valid_opaque_host"):
        add("HostValidator." + f, lambda x, f=f: getattr(up.HostValidator, f)(x))
    for strict in (False, True):
        add("to ascii %r" % strict, lambda x, strict=strict: impl.guard(up.IDNA.domain_to_ascii, x, strict))
        add("to unicode %r" % strict, lambda x, strict=strict: impl.guard(up.IDNA.domain_to_unicode, x, strict))
    add("is_valid", lambda x: _valid(x))
    add("is_valid base", lambda x: _valid(x, "http://h/a"))
    add("is_valid as base", lambda x: _valid("y", x))
    add("is_valid host", lambda x: _valid("http://" + x + "/"))
    add("scheme", lambda x: impl.guard(up.URLValidator.is_valid_url_scheme, x))
    for safe in ("", "/", x_safe):
        add("encode %r" % safe, lambda x, safe=safe: up.utf8_percent_encode(x, safe))
        add("encode plus %r" % safe, lambda x, safe=safe: up.utf8_percent_encode(x, safe, True))
        add("string encode %r" % safe, lambda x, safe=safe: up.string_percent_encode(x, safe))
    add("encode own", lambda x: up.utf8_percent_encode(x + "/:", x[:1]))
    add("decode", lambda x: up.string_percent_decode(x))
    add("decode %", lambda x: up.string_percent_decode("%" + x + "%41" + x))
    add("parse_qsl", lambda x: up.parse_qsl(x.encode("utf-8", "replace")))
    add("parse_qsl text", lambda x: impl.guard(up.parse_qsl, x))
    add("parse_qsl pair", lambda x: up.parse_qsl(b"a=" + x.encode("utf-8", "replace") + b"&b"))
    add("params", lambda x: _params(x))
    add("params pair", lambda x: _params([(x, "1"), ("1", x)], ("append", x, x), ("sort",)))
    add("params dict", lambda x: _params({x: x, "a": x}, ("set", x, "0"), ("delete", "a")))
    for af in (True, False):
        for e in ("utf-8", "windows-1252"):
            add("urlparse %r %r" % (af, e), lambda x, af=af, e=e: tuple(up.urlparse("http://h/p;" + x + "?" + x + "#" + x, allow_fragments=af, encoding=e)))
    add("urlparse alone", lambda x: impl.guard(lambda: tuple(up.urlparse(x, "http://b/c?d"))))
    add("urlparse bare", lambda x: impl.guard(lambda: tuple(up.urlparse(x))))
    add("can_parse", lambda x: (impl.URL.can_parse(x), impl.URL.can_parse(x, "a:/"), impl.URL.can_parse("y", x)))
    add("origin", lambda x: impl.guard(lambda: repr(impl.parse_url("blob:" + x).origin)))
    add("mutate", lambda x: _mutate_url("http://h/" + x + "?" + x))
    add("mutate rec", lambda x: _mutate_rec("http://h/" + x + "?" + x))
    add("mutate rel", lambda x: _mutate_rec(x, "http://h/a/b/c"))
    add("mutate report", lambda x: _mutate_report("http://" + x + "/"))
    add("mutate list", lambda x: _mutate_lists(x.encode("utf-8", "replace")))
    return out


x_safe = "!'()*~"
ROLES = roles()
TEXTS = list(
    dict.fromkeys(
        [t for t in S.CONST + S.CONFUSABLE if len(t) <= 40]
        + S.T_MID
        + ["80", "443", "x", "EXAMPLE.com", "faß.de", "xn--fa-hia.de", "1.2.3.4", "0x7f.1", "::1", "[::1]", "a=1&b=2&a=3", "é", "\u4e2d", "a b'c\"d", "C|/x/..", "http://h/p?q", "blob:http://h/", "u:p@h:8", "%C3%A9", "%zz%41", "a..b", "-a-", "a_b", "..", "\ud83c\udf08"]
        + list("aZ09:/?#@[]!$&'()*+,;=-._~%^|{}<>`\"\\ ")
    )
)


def run_role(r, x):
    try:
        return ("ok", ROLES[r][1](x))
    except impl.URLParseError as e:
        return ("fail", str(e))
    except Exception as e:
        return ("exc", type(e).__name__, str(e))


def judge_roles(case, ctx):
    """one text in every role in one process, in several orders"""
    x, orders = case
    n = len(ROLES)
    own = {}
    for o in orders:
        order = [(o * k + o // 2) % n for k in range(n)] if o > 0 else list(range(n))[::o]

        def run():
            return [(r, run_role(r, x)) for r in order]

        for k, (r, got) in enumerate(in_fresh_process(run)):
            if r not in own:
                own[r] = in_fresh_process(lambda: run_role(r, x))
            ctx.transitions += 1
            if got != own[r]:
                before = [ROLES[j][0] for j in order[:k]]
                return "text %s: %s gives %s after %s; as the first call of a process it gives %s" % (
                    ascii(x), ROLES[r][0], ascii(got)[:300], before if k < 5 else before[:2] + ["... %d calls ..." % (k - 3)] + before[-1:], ascii(own[r])[:300])  # fmt: skip
    ctx.traces += 1
    ctx.outcome("roles")
    ctx.state(("role", x))
    return None


# -------------------------------------------------- environment of the process

ENVIRONMENTS = [
    # interpreter options, environment variables, working directory
    ((), {}, None),
    ((), {"PYTHONHASHSEED": "1"}, None),
    ((), {"PYTHONHASHSEED": "2"}, None),
    ((), {"PYTHONHASHSEED": "12345"}, None),
    (("-O",), {}, None),
    (("-OO",), {"PYTHONHASHSEED": "7"}, None),
    (("-X", "utf8=0"), {"LC_ALL": "C", "LANG": "C", "PYTHONCOERCECLOCALE": "0"}, None),
    (("-X", "utf8=1"), {"LC_ALL": "POSIX"}, None),
    ((), {"LC_ALL": "tr_TR.UTF-8", "LANG": "tr_TR.UTF-8"}, None),
    (("-X", "int_max_str_digits=640"), {}, None),
    (("-X", "int_max_str_digits=0"), {}, None),
    (("-X", "dev"), {"PYTHONIOENCODING": "ascii:strict"}, None),
    ((), {"TZ": "Pacific/Apia", "http_proxy": "http://x:1", "no_proxy": "h"}, "/"),
]


def env_roles():
    return [(r, x) for x in TEXTS[:: max(1, len(TEXTS) // 40)] for r in range(len(ROLES))]


_env: dict = {}


def in_environment(e):
    opts, env, cwd = ENVIRONMENTS[e]
    full = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG"))}
    full.update({"PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8", "PYTHONPATH": VERIF, "PYTHONDONTWRITEBYTECODE": "1"})
    full.update(env)
    p = subprocess.run(
        [sys.executable, *opts, "-m", "mc.envprobe"],
        cwd=cwd or VERIF,
        env=full,
        stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        timeout=300,
    )
    if p.returncode:
        return None, p.stderr.decode(errors="replace")[-800:]
    return json.loads(p.stdout), None


def judge_environment(e, ctx):
    what = "interpreter options %s, environment %s, directory %s" % ENVIRONMENTS[e]
    if 0 not in _env:
        _env[0] = in_environment(0)
    base, err = _env[0]
    if not err:
        got, err = in_environment(e)
    if err:
        return "%s: %s" % (what, err)
    ctx.traces += 1
    ctx.transitions += len(got)
    ctx.outcome("environment")
    ctx.state(("environment", e))
    for (i, x), (j, y) in zip(base, got):
        if x != y:
            n = len(CALLS)
            call = CALLS[i][0] if i < n else "%s of %s" % (ROLES[env_roles()[i - n][0]][0], ascii(env_roles()[i - n][1]))
            return "%s: %s gives %s, otherwise %s" % (what, call, y[:400], x[:400])
    return None if len(base) == len(got) else what


# ---------------------------------------------------------------- live objects

WORLDS = [
    # base, reference
    ("http://u:p@h:8/a/b/c?q=1#f", "../x?y=1"),
    ("http://h/a/b?q=1#f", "#z"),
    ("http://h/a/b?q=1", ""),
    ("file:///C:/d/e?q=1", "x"),
    ("file://h/d/e", "?k"),
    ("a://u@h/a/b", "c/.."),
    ("a:o  ?q=1#f", "#g"),
    ("a:/x/y/z", "../w"),
]
UOPS = [
    ("pathname", "/n/./m"),
    ("search", "?s=1"),
    ("search", ""),
    ("hash", ""),
    ("host", "k:1"),
    ("username", "w"),
    ("protocol", "wss"),
    ("href", "http://z/?r=1"),
    ("append", "n", "v"),
    ("delete", "q"),
    ("sort",),
    ("resolve", "../r"),
    ("resolve", "?r"),
    ("resolve", "#r"),
    ("resolve", ""),
    ("resolve", "/.."),
    ("resolve", "C|/r/.."),
]
ROPS = [
    ("path+", "seg"),
    ("path-",),
    ("query", "rq"),
    ("fragment", None),
    ("port", 99),
    ("rappend", "n", "v"),
    ("rresolve", "../r"),
    ("rresolve", ""),
    ("rresolve", "#x"),
]


class World:
    """B: URL; D: URL(ref, B); T: a twin of B; U: D's twin built from strings;
    P: URLSearchParams(B.search_params); R: record of base; S: record of ref
    resolved against R; Q: URLSearchParams bound to S."""

    NAMES = "BDTU"

    def __init__(self, base, ref):
        self.u = {"B": impl.URL(base)}
        self.u["D"] = impl.URL(ref, self.u["B"])
        self.u["T"] = impl.URL(base)
        self.u["U"] = impl.URL(ref, base)
        self.p = {"P": up.URLSearchParams(self.u["B"].search_params)}
        self.r = {"R": impl.parse_url(base)}
        self.r["S"] = impl.parse_url(ref, self.r["R"])
        self.q = up.URLSearchParams(self.r["S"])
        self.held = {k: x.search_params for k, x in self.u.items()}
        # the model: every object has a state of its own
        mb, md = model.Url(base), model.Url(ref, base)
        self.mu = {"B": mb, "D": md, "T": model.Url(base), "U": model.Url(ref, base)}
        self.mp = {"P": model.Params(mb.params.list)}
        self.mr = {"R": model.parse(base), "S": model.parse(ref, model.parse(base))}
        self.mq = model.Params(model.form_parse(model.utf8(self.mr["S"].query or "")))

    def do(self, who, op):
        k = op[0]
        if who in self.u:
            if k in ("append", "delete", "sort"):
                getattr(self.held[who], k)(*op[1:])
                getattr(self.mu[who].params, k)(*op[1:])
            elif k == "resolve":
                try:
                    want = model.parse(op[1], self.mu[who].rec).href()
                except model.Failure:
                    want = None
                try:
                    got = str(impl.URL(op[1], self.u[who]))
                except impl.URLParseError:
                    got = None
                if got != want:
                    return "resolving %r against %s gives %s, want %s" % (op[1], who, ascii(got), ascii(want))
            else:
                H.impl_set(self.u[who], *op)
                self.mu[who].set(*op)
        elif who == "P":
            getattr(self.p["P"], k)(*op[1:])
            getattr(self.mp["P"], k)(*op[1:])
        else:
            r, m = self.r[who], self.mr[who]
            if k == "path+":
                if isinstance(r.path, list):
                    r.path.append(op[1])
                    m.path.append(op[1])
            elif k == "path-":
                if isinstance(r.path, list) and r.path:
                    r.path.pop()
                    m.path.pop()
            elif k == "rappend":
                if who == "S":
                    self.q.append(*op[1:])
                    self.mq.append(*op[1:])
                    m.query = str(self.mq)
            elif k == "rresolve":
                try:
                    want = model.parse(op[1], m).href()
                except model.Failure:
                    want = None
                try:
                    got = str(impl.parse_url(op[1], r))
                except impl.URLParseError:
                    got = None
                if got != want:
                    return "resolving %r against record %s gives %s, want %s" % (op[1], who, ascii(got), ascii(want))
            else:
                setattr(r, k, op[1])
                setattr(m, k, op[1])
        return None

    def compare(self):
        for k, u in self.u.items():
            m = self.mu[k]
            if impl.snapshot(u) != m.snapshot() or list(self.held[k]) != m.params.list or u.search_params is not self.held[k]:
                return "%s is %s %s, its own history gives %s %s" % (k, ascii(u.href), ascii(list(self.held[k])), ascii(m.get("href")), ascii(m.params.list))
        if list(self.p["P"]) != self.mp["P"].list:
            return "P lists %s, want %s" % (list(self.p["P"]), self.mp["P"].list)
        for k, r in self.r.items():
            if impl.rec_key(r) != self.mr[k].key():
                return "record %s is %s, want %s" % (k, ascii(impl.rec_key(r)), ascii(self.mr[k].key()))
        if list(self.q) != self.mq.list:
            return "Q lists %s, want %s" % (list(self.q), self.mq.list)
        return None


STEPS = (
    [(w, op) for w in "BDTU" for op in UOPS]
    + [("P", op) for op in UOPS if op[0] in ("append", "delete", "sort")]
    + [(w, op) for w in "RS" for op in ROPS]
)
STEPS_SMALL = (
    [(w, op) for w in "BD" for op in (UOPS[0], UOPS[1], UOPS[7], UOPS[8], UOPS[11], UOPS[13])]
    + [("P", UOPS[8])]
    + [(w, op) for w in "RS" for op in (ROPS[0], ROPS[2], ROPS[6])]
)


def judge_world(case, ctx):
    wi, steps = case
    w = World(*WORLDS[wi])
    r = w.compare()
    for n, (who, op) in enumerate(steps):
        r = r or w.do(who, op) or w.compare()
        ctx.transitions += 1
        if r:
            return "base %s, reference %s, after %s: %s" % (WORLDS[wi] + (steps[: n + 1], r))
    ctx.traces += 1
    ctx.outcome("live objects")
    ctx.state((wi, tuple(m.get("href") for m in w.mu.values()), tuple(m.key() for m in w.mr.values())))
    return r


# ------------------------------------------------------------------- arguments


def judge_args(case, ctx):
    """the caller's own containers are neither kept nor changed"""
    kind, n = case
    ctx.traces += 1
    ctx.transitions += 2
    ctx.outcome("arguments")
    ctx.state(case)
    pairs = [["k%d" % i, "v%d" % i] for i in range(n)]
    if kind == "list":
        p = up.URLSearchParams(pairs)
        want = [tuple(x) for x in pairs]
        pairs.append(["m", "m"])
        for x in pairs:
            x[0] = "mutated"
        if list(p) != want:
            return "URLSearchParams keeps the caller's list: %s" % list(p)
        src = [["b", "1"], ["a", "2"]]
        p = up.URLSearchParams(src)
        p.sort()
        p.append("c", "3")
        if src != [["b", "1"], ["a", "2"]]:
            return "URLSearchParams changes the caller's list: %s" % src
    elif kind == "dict":
        d = {a: b for a, b in pairs}
        p = up.URLSearchParams(d)
        want = list(d.items())
        d["m"] = "m"
        if list(p) != want:
            return "URLSearchParams keeps the caller's mapping"
        d = {"b": "1", "a": "2"}
        p = up.URLSearchParams(d)
        p.sort()
        p.delete("a")
        if list(d.items()) != [("b", "1"), ("a", "2")]:
            return "URLSearchParams changes the caller's mapping"
    elif kind == "tuples":
        src = [(a, b) for a, b in pairs]
        c = list(src)
        up.urlencode(src)
        p = up.URLSearchParams(src)
        p.sort()
        p.append("z", "z")
        if src != c:
            return "urlencode or URLSearchParams changes the caller's list"
    elif kind == "copy":
        p = up.URLSearchParams([tuple(x) for x in pairs])
        q = up.URLSearchParams(p)
        want = list(p)
        q.append("m", "m")
        q.set("k0", "m")
        q.sort()
        if list(p) != want:
            return "changing a copy changes the original"
        p.append("o", "o")
        if ("o", "o") in list(q):
            return "changing the original changes a copy"
    elif kind == "deepcopy":
        u = impl.URL("http://h/a/b?q=%d&r=1#f" % n)
        for k, v in H.OPS[:n]:
            H.impl_set(u, k, v)
        held = u.search_params
        c = copy.deepcopy(u)
        was = (impl.snapshot(u), list(held))
        if (impl.snapshot(c), list(c.search_params)) != was:
            return "a deep copy differs: %s, %s" % (c.href, u.href)
        c.search_params.append("zz", "1")
        c.pathname = "/other"
        c.search_params.sort()
        if not c.search.endswith("zz=1") and "zz=1" not in c.search:
            return "a deep copy is not in step with its search parameters: %s" % c.href
        if (impl.snapshot(u), list(u.search_params)) != was or u.search_params is not held:
            return "changing a deep copy changes the original: %s" % u.href
        cs = impl.snapshot(c)
        u.search_params.append("yy", "2")
        u.pathname = "/mine"
        u.hash = "mine"
        if impl.snapshot(c) != cs:
            return "changing the original changes a deep copy: %s" % c.href
        r = impl.parse_url(u.href)
        rc = copy.deepcopy(r)
        if isinstance(rc.path, list):
            rc.path.append("x")
        rc.query = "x"
        if str(r) != u.href:
            return "changing a deep copy of a record changes the original"
    elif kind == "views":
        p = up.URLSearchParams([tuple(x) for x in pairs])
        want = list(p)
        for x in (p[:], list(p.entries()), list(p.keys())):
            if isinstance(x, list):
                x.append("m")
        if list(p) != want:
            return "a returned list is the object's own"
    elif kind == "report":
        a, b = up.ValidityState(), up.ValidityState()
        up.URLValidator.is_valid("http://h/|" * n, validity=a)
        if b.error_types or b.descriptions or b.validation_errors or not b.valid:
            return "report objects share state: %r" % b
        if up.ValidityState().error_types:
            return "a new report object is not empty"
    elif kind == "records":
        rs = [up.URLRecord() for _ in range(n + 2)]
        rs[0].path.append("m")
        if any(r.path for r in rs[1:]):
            return "URL records share their default path"
    return None


def c15(tier):
    T = tier == "thorough"
    n = len(CALLS)
    prepare(range(n))
    core = [i for i in range(n) if i % (4 if T else 7) == 0]

    def pairs():
        for i in range(n):
            for j in range(n):
                yield (i, j)

    def triples():
        yield from product(core, repeat=3)

    def tours():
        for k in range(1, n, 1 if T else 5):
            seq, i = [], 0
            for _ in range(n):
                seq.append(i)
                i = (i + k) % n
            yield tuple(seq)
            yield tuple(seq[::-1])

    def cold_tours():
        # every call is the first of a process, all others follow
        for i in range(n):
            yield tuple((i + k) % n for k in range(n))
            if T or i % 3 == 0:
                yield (i,) + tuple(k for k in range(n - 1, -1, -1) if k != i)

    def cold_pairs():
        sub = range(n) if T else [i for i in range(n) if i % 9 == 4]
        for i in sub:
            for j in sub:
                if i != j:
                    yield (i, j)

    def worlds(k, steps, which):
        def gen():
            for t in product(steps, repeat=k):
                for w in which:
                    yield (w, t)

        return gen

    W = range(len(WORLDS))
    fams = [
        # the forking families come first: the workers have not called urlstd
        fam("cold-tours", cold_tours, judge_cold_calls, "each of %d calls as the first of a process, followed by all the others (and in reverse order%s)" % (n, "" if T else " for every third"), bits=1),
        fam("cold-pairs", cold_pairs, judge_cold_calls, "ordered pairs of %s calls as the first two of a process" % ("all" if T else n // 9), bits=3),
        fam("roles", lambda: ((x, (1, -1, 7) if not T else (1, -1, 7, 11, 29, 53)) for x in TEXTS), judge_roles, "%d texts (the constants of the code included) x %d roles in one process (component, base, encoding, safe set, strictness, spelling), in %d orders, against each role alone in a process" % (len(TEXTS), len(ROLES), 6 if T else 3), bits=0),
        fam("environments", lambda: range(len(ENVIRONMENTS)), judge_environment, "all %d calls and %d texts in roles under %d environments of the process (hash seeds, optimization, locales, integer limits, directory)" % (n, len(env_roles()), len(ENVIRONMENTS)), bits=0),
        fam("pairs", pairs, judge_calls, "all ordered pairs of %d calls (other base, encoding, strictness, mutation of what was returned)" % n),
        fam("triples", triples, judge_calls, "all sequences of 3 of %d calls" % len(core)),
        fam("tours", tours, judge_calls, "sequences of all %d calls in %d orders" % (n, 2 * len(range(1, n, 1 if T else 5))), bits=0),
        fam("objects1", worlds(1, STEPS, W), judge_world, "8 live objects derived from each other x every operation x %d worlds" % len(WORLDS)),
        fam("objects2", worlds(2, STEPS, W if T else W[::3]), judge_world, "all sequences of 2 of %d operations" % len(STEPS)),
        fam("objects3", worlds(3, STEPS_SMALL, W if T else W[1::4]), judge_world, "all sequences of 3 of %d operations" % len(STEPS_SMALL)),
        fam("arguments", lambda: ((k, m) for k in ("list", "dict", "tuples", "copy", "deepcopy", "views", "report", "records") for m in range(0, 40)), judge_args, "containers given or returned, 0..39 entries"),
    ]
    return dict(
        families=fams,
        validated="call results are compared with those of the same call made first in a fresh process; live objects with one model state per object",
        assumptions=[ASSUME_ICU],
    )
