"""C16: all interleavings of two threads up to a preemption bound."""

from __future__ import annotations

import os
import sys
import threading

from .. import impl, model
from . import histories as H
from . import isolation as I
from .common import ASSUME_ICU, fam

up = impl.up
SRC = os.path.realpath(os.path.dirname(up.__file__))

# --------------------------------------------------------------- the scheduler
#
# The first operation runs in the calling thread, the second in another real
# thread, and control passes between them only at scheduling points: each line
# (or byte-code instruction) of urlstd about to be executed.  A schedule is
# (k, j): the first operation is preempted at its k-th point; the second then
# runs to its end (j None) or to its j-th point, the first to its end, and the
# second to its end.


class Tracer:
    def __init__(self, at, action, opcodes):
        self.at, self.action, self.n, self.opcodes = at, action, 0, opcodes

    def call(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(SRC):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            if self.n == self.at:
                self.n += 1
                self.action()
            else:
                self.n += 1
        return self.local


def outcome(f, arg):
    try:
        return ("ok", f(arg))
    except impl.URLParseError as e:
        return ("fail", str(e))
    except Exception as e:
        return ("exc", type(e).__name__, str(e))


class LineTracer(Tracer):
    """records the line of every scheduling point"""

    def __init__(self):
        super().__init__(-1, None, False)
        self.lines = []

    def local(self, frame, event, arg):
        if event == "line":
            self.lines.append((frame.f_code.co_filename, frame.f_lineno))
        return self.local


def lines_of(f, arg, again):
    """the line of each scheduling point; again: the operation has been
    executed before"""
    if again:
        outcome(f, arg)
    t = LineTracer()
    sys.settrace(t.call)
    try:
        outcome(f, arg)
    finally:
        sys.settrace(None)
    return t.lines


def ends_of_lines(lines, ops):
    """{operation: points}: where a line is executed for the first, second and
    last time in an operation, for each line in the first `ops` operations that
    execute it"""
    seen: dict = {}
    r = {}
    for n, ls in lines.items():
        where: dict = {}
        for k, at in enumerate(ls):
            where.setdefault(at, []).append(k)
        ks: set = set()
        for at, w in where.items():
            seen[at] = seen.get(at, 0) + 1
            if seen[at] <= ops:
                ks |= set(w[:2] + w[-1:])
        r[n] = sorted(ks)
    return r


def count_points(f, arg, opcodes=False):
    t = Tracer(-1, None, opcodes)
    sys.settrace(t.call)
    try:
        outcome(f, arg)
    finally:
        sys.settrace(None)
    return t.n


class Helper:
    """a second thread that is given one operation at a time"""

    def __init__(self):
        self.job = threading.Event()
        self.paused = threading.Event()
        self.resume = threading.Event()
        self.done = threading.Event()
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def loop(self):
        while True:
            self.job.wait()
            self.job.clear()
            f, arg, j, opcodes = self.work
            if j is not None:
                t = Tracer(j, self.pause, opcodes)
                sys.settrace(t.call)
            self.result = outcome(f, arg)
            sys.settrace(None)
            self.done.set()
            self.paused.set()

    def pause(self):
        self.paused.set()
        # if the first thread needs what this one holds, go on
        self.resume.wait(1.0)

    def start(self, f, arg, j, opcodes):
        self.work = (f, arg, j, opcodes)
        self.paused.clear()
        self.resume.clear()
        self.done.clear()
        self.result = None
        self.job.set()
        # returns when it pauses or ends; or is blocked by the first thread
        # (it does not move in three looks), which then goes on
        last, same = None, 0
        for _ in range(500):
            if self.paused.wait(0.02):
                return
            f = sys._current_frames().get(self.thread.ident)
            at = f and (id(f), f.f_lasti)
            same = same + 1 if at == last else 0
            last = at
            if same >= 3:
                return

    def finish(self):
        self.resume.set()
        return self.done.wait(60)


_helper = None
_helper_pid = None


def helper():
    global _helper, _helper_pid
    if _helper is None or _helper_pid != os.getpid():
        _helper, _helper_pid = Helper(), os.getpid()
    return _helper


def run_schedule(fa, fb, arg, k, j, opcodes):
    """-> (result of a, result of b, whether both ended)"""
    h = helper()
    started = []

    def preempt():
        # no further point of this thread matters; tracing slows both down
        sys.settrace(None)
        started.append(1)
        h.start(fb, arg, j, opcodes)

    t = Tracer(k, preempt, opcodes)
    sys.settrace(t.call)
    try:
        ra = outcome(fa, arg)
    finally:
        sys.settrace(None)
    if not started:
        h.start(fb, arg, None, opcodes)
    if not h.finish():
        return ra, None, False
    return ra, h.result, True


# ------------------------------------------------------------------ operations


class Shared:
    """objects both threads only read"""

    def __init__(self):
        self.url = impl.URL("http://u:p@h:8/a/b/c?q=1&r=2#f")
        self.file = impl.URL("file:///C:/d/e")
        self.rec = impl.parse_url("a://h/x/y?q#f")
        self.params = self.url.search_params
        # not read before the threads start
        self.fresh = impl.URL("https://w@g:7/k;l?m=n&o#p")
        self.list = up.URLSearchParams("b=1&a=%20&b=2")
        self.opaque = impl.URL("c:d ?e=f")
        self.seen: list = []

    def key(self):
        same = all(p is self.fresh.search_params for p in self.seen)
        return (
            impl.snapshot(self.url), tuple(self.params), impl.snapshot(self.file), impl.rec_key(self.rec),
            _snap(self.fresh), tuple(self.list), str(self.list), _snap(self.opaque), same,
        )  # fmt: skip


def _snap(u):
    return (impl.snapshot(u), impl.pairs(u))


def _params_first(x):
    p = x.fresh.search_params
    x.seen.append(p)
    return (list(p), len(p), "o" in p, p.get("m"), x.opaque.search, tuple(x.opaque.search_params))


def _report(s, base=None):
    v = up.ValidityState()
    r = up.URLValidator.is_valid(s, base, validity=v)
    return (r, I.report(v))


def _hreport(s):
    v = up.ValidityState()
    return (up.HostValidator.is_valid(s, validity=v), I.report(v))


def _own(s, *ops):
    u = impl.URL(s)
    r = [H.impl_any(u, u.search_params, op) for op in ops]
    return (r, _snap(u))


OPS = {
    "parse": lambda x: _snap(impl.URL("http://w:x@g:9/k/../l?m#n")),
    "idna": lambda x: up.Host.parse("bücher.De"),
    "idna-strict": lambda x: (up.IDNA.domain_to_ascii("faß.x", True), up.IDNA.domain_to_unicode("xn--fa-hia.x", True)),
    "ipv6": lambda x: up.Host.serialize(up.Host.parse("[1:0::0:2:3]")),
    "ipv4": lambda x: up.Host.serialize(up.Host.parse("0x7f.1")),
    "file": lambda x: _snap(impl.URL("..\\y", x.file)),
    "relative": lambda x: _snap(impl.URL("../z?y", x.url)),
    "record": lambda x: str(impl.parse_url("./v/..", x.rec)),
    "opaque": lambda x: _snap(impl.URL("b:o é?p#q")),
    "failure": lambda x: _snap(impl.URL("http://a b:1/")),
    "valid": lambda x: _report("https://u@h/%?|"),
    "valid-bare": lambda x: (up.URLValidator.is_valid("https://u@h/%?|"), up.URLValidator.is_valid("https://g/")),
    "valid-host": lambda x: _hreport("1.2.3.0x4"),
    "valid-host-bare": lambda x: (up.HostValidator.is_valid("1.2.3.0x4"), up.HostValidator.is_valid("g")),
    "valid-rel": lambda x: _report("y\\z", "http://0x1/"),
    "set-path": lambda x: _own("http://h/a", ("pathname", "/b/../é"), ("hash", "i")),
    "set-host": lambda x: _own("ws://h/", ("host", "j:80"), ("protocol", "https"), ("port", "443")),
    "set-params": lambda x: _own("http://h/?b=1&a=2", ("append", "c", "é"), ("sort",), ("search", "?z")),
    "params": lambda x: I._params("b=2&a=1&b", ("sort",), ("set", "b", "3"), ("delete", "a")),
    "read": lambda x: (_snap(x.url), str(x.params), x.url == x.file, x.url.origin, repr(x.url)),
    "read-first": lambda x: (_params_first(x), x.fresh.origin, str(x.fresh), x.fresh == x.opaque, _snap(x.fresh), _snap(x.opaque)),
    "read-list": lambda x: (str(x.list), x.list.get("b"), x.list.get_all("b"), x.list.has("b", "2"), "a" in x.list, list(x.list.keys()), x.list == x.params),
    "urlencode": lambda x: (up.urlencode([("é ~", "中")], encoding="windows-1252"), up.parse_qsl(b"%41+=b&c")),
    "legacy": lambda x: (str(impl.parse_url("http://h/?中\U0001f308中中é", encoding="iso-2022-jp")), up.urlencode([("あ\U0001f308あ", "")], encoding="iso-2022-jp")),
    "urlparse": lambda x: tuple(up.urlparse("http://h/p;q?é#r", encoding="shift_jis", allow_fragments=False)),
    "can-parse": lambda x: (impl.URL.can_parse("//[::1", x.url), impl.URL.can_parse("//k", "http://h")),
}
# the same operation with other arguments: (operation, sibling)
SIBLINGS = {
    "parse": lambda x: _snap(impl.URL("https://v@f:7/i?j#o")),
    "idna": lambda x: up.Host.parse("MÜNCHEN.xn--fa-hia"),
    "idna-strict": lambda x: (up.IDNA.domain_to_ascii("é.y", True), up.IDNA.domain_to_unicode("xn--9ca.y", True)),
    "ipv6": lambda x: up.Host.serialize(up.Host.parse("[a:b:c:d:e:f:1.2.3.4]")),
    "ipv4": lambda x: up.Host.serialize(up.Host.parse("10.0x20.3")),
    "file": lambda x: _snap(impl.URL("/D|/w", x.file)),
    "relative": lambda x: _snap(impl.URL("//j/z?w#i", x.url)),
    "record": lambda x: str(impl.parse_url("?k", x.rec)),
    "opaque": lambda x: _snap(impl.URL("c:d e#r")),
    "failure": lambda x: _snap(impl.URL("http://h:99999/")),
    "valid": lambda x: _report("https://h/"),
    "valid-bare": lambda x: (up.URLValidator.is_valid("https://h/a"), up.URLValidator.is_valid("https://h/|")),
    "valid-host": lambda x: _hreport("h.example"),
    "valid-host-bare": lambda x: (up.HostValidator.is_valid("h.example"), up.HostValidator.is_valid("h^")),
    "valid-rel": lambda x: _report("y", "http://h/"),
    "set-path": lambda x: _own("https://i/c", ("pathname", "/d/è"), ("hash", "k")),
    "set-host": lambda x: _own("http://i/", ("host", "k:81"), ("protocol", "ws"), ("port", "80")),
    "set-params": lambda x: _own("http://i/?d=1&c=2", ("append", "e", "è"), ("sort",), ("search", "?y")),
    "params": lambda x: I._params("e=2&d=1&e", ("sort",), ("set", "e", "4"), ("delete", "d")),
    "read": lambda x: (_snap(x.file), len(x.params), x.file == x.url, x.file.origin, repr(x.params)),
    "read-first": lambda x: (_snap(x.opaque), x.fresh.href, x.fresh.host, _snap(impl.URL("?q", x.fresh)), _params_first(x), repr(x.fresh)),
    "read-list": lambda x: (len(x.list), list(x.list), x.list[1:], x.list.has("b"), list(x.list.values()), repr(x.list), x.list + ""),
    "urlencode": lambda x: (up.urlencode([("ł", "é")], encoding="iso-8859-2"), up.parse_qsl(b"%42+=d&e")),
    "legacy": lambda x: (str(impl.parse_url("https://i/?a\U0001f308あいé", encoding="iso-2022-jp")), up.urlencode([("中\U0001f308中a", "")], encoding="iso-2022-jp")),
    "urlparse": lambda x: tuple(up.urlparse("http://i/r;s?中#t", encoding="gbk")),
    "can-parse": lambda x: (impl.URL.can_parse("//[::1]", x.url), impl.URL.can_parse("//k k", "http://h")),
}
NAMES = list(OPS)
SHARING = ("read", "read-first", "read-list", "file", "relative", "record", "can-parse")
for n in NAMES:
    OPS[n + "'"] = SIBLINGS[n]
# one preemption that runs many operations
MANY = ["read-first'", "idna", "ipv6", "relative", "opaque", "valid-bare'", "valid-host", "set-params", "urlencode", "urlparse"]
OPS["many"] = lambda x: [outcome(OPS[n], x) for n in MANY]
OPS["all-reversed"] = lambda x: [outcome(OPS[n], x) for n in NAMES[::-1]]
ALL = ["many", "all-reversed"]

# one preemption that looks at every table the library may fill on first use
PROBE_URLS = (
    ["http://a%%%02Xb/" % i for i in range(0x80)]
    + ["x://a%sb/" % chr(i) for i in range(0x80)]
    + ["x:/%s" % "".join(map(chr, r)) for r in (range(0x21, 0x23), range(0x24, 0x3F), range(0x40, 0x80), range(0x80, 0x84))]
    + ["%s://u%sv@h/%s?%s#%s" % ((s,) + 4 * ("".join(chr(i) for i in range(0x20, 0x80) if chr(i) not in "#/?@:\\"),)) for s in ("http", "ws", "file", "a")]
    + ["%s://h:%d/C|/%%2e/x/%%2E%%2e/" % x for s in (80, 443, 21, 8) for x in (("http", s), ("https", s), ("ws", s), ("wss", s), ("ftp", s), ("b", s))]
    + ["http://%s/" % h for h in ("0x7f.1", "017.1", "1.2.3.256", "[::ffff:1.2.3.4]", "[1::2::3]", "\xe9.x", "xn--a", "a..b", "xn--4ca.\xdf", "%C3%A9", "\u3002", "a\u200db")]
    + ["a\xe9b\U0001f308:", "data:x  #", "blob:https://h/x", "//h", "#f", "http:\\\\h\\..\\C|", "file:C|/..", "file://localhost/"]
)


def _probe(x):
    r = []
    for s in PROBE_URLS:
        try:
            r.append(str(impl.parse_url(s)))
        except impl.URLParseError as e:
            r.append(str(e))
    q = "".join(map(chr, range(0x100)))
    p = up.URLSearchParams([(q, q)])
    return (
        r,
        str(p),
        [up.URLSearchParams(str(p)).get(q) == q],
        [outcome(lambda e: up.urlencode([(q, q)], encoding=e), e) for e in ("utf-8", "windows-1252", "shift_jis", "iso-2022-jp", "utf-16le", "x-user-defined")],
        [_report(s) for s in PROBE_URLS[::8]],
        [_hreport(s) for s in ("a|b", "h", "1.2", "[::1]", "a_b", "\xe9", "%41", "")],
        [up.IDNA.domain_to_unicode(d) for d in ("xn--9ca", "xn--fa-hia.x", "x")],
        [impl.URL(s).origin for s in ("http://h:80/", "wss://h/", "ftp://h/", "blob:http://h/", "file:///", "a:b")],
        [_snap(impl.URL(s, "http://u:p@h/a/b?c#d")) for s in ("", "#", "?", "x", "../..", "//k", "https:y")],
    )


OPS["probe"] = _probe


def _storm(n):
    """more distinct values of every kind than a bounded cache holds"""

    def run(x):
        for i in range(n):
            for s in ("http://u%d:p%d@\xe9%d.x%d:%d/p%d?q%d=v%d#f%d" % ((i,) * 9), "s%d:o%d?\xe9%d" % (i, i, i)):
                u = impl.URL(s)
                if i % 8 == 0:
                    u.search_params.append("a%d" % i, "\xe9%d" % i)
                    u.href
                    up.URLValidator.is_valid(s)
            outcome(up.Host.parse, "%d.%d" % (i, i))
            outcome(up.Host.parse, "[%d::%d]" % (i, i))
            outcome(up.HostValidator.is_valid, "g%d" % i)
            up.parse_qsl(b"z%d=%d" % (i, i))
        return n

    return run


OPS["storm"] = _storm(140)
OPS["storm-more"] = _storm(1100)
_expect: dict = {}
_points: dict = {}
_lines: dict = {}


def prepare():
    """sequential results and numbers of scheduling points, from fresh
    processes, so that this process has never called urlstd"""
    for n in OPS:
        _expect[n] = I.in_fresh_process(lambda: outcome(OPS[n], Shared()))
        for oc in (False, True):
            _points[n, oc] = I.in_fresh_process(lambda: count_points(OPS[n], Shared(), oc))
            # and when it is not the first call of the process
            _points[n, oc] = max(_points[n, oc], I.in_fresh_process(lambda: [outcome(OPS[n], Shared()), count_points(OPS[n], Shared(), oc)][1]))
    for again in (0, 1):
        _lines[again] = {n: I.in_fresh_process(lambda: lines_of(OPS[n], Shared() if again or n in SHARING else None, again)) for n in NAMES}
    _expect[None] = I.in_fresh_process(lambda: Shared().key())


def verdict(a, b, k, j, oc, shared, ra, rb, ended):
    what = "thread 1 '%s' preempted at its %s %d by thread 2 '%s'%s" % (
        a, "instruction" if oc else "line", k, b,
        "" if j is None else " which is preempted at its %d" % j)  # fmt: skip
    if not ended:
        return "%s: deadlock (thread 2 does not end)" % what
    for n, r in ((a, ra), (b, rb)):
        if r != _expect[n]:
            return "%s: '%s' gives %s, alone it gives %s" % (what, n, ascii(r)[:500], ascii(_expect[n])[:500])
    if shared != _expect[None]:
        return "%s: a shared object that is only read changed: %s" % (what, ascii(shared)[:500])
    return None


def one(a, b, k, j, oc):
    x = Shared()
    ra, rb, ended = run_schedule(OPS[a], OPS[b], x, k, j, oc)
    return x.key(), ra, rb, ended


def judge_schedule(case, ctx):
    a, b, k, j, oc = case
    r = verdict(a, b, k, j, oc, *one(a, b, k, j, oc))
    ctx.traces += 1
    ctx.transitions += k
    ctx.outcome("schedule")
    ctx.state((a, b, k, j, oc))
    return r


def judge_storm(case, ctx):
    """thread 1's own values may be cached; thread 2 uses very many others"""
    a, b, k, again = case
    if again:
        outcome(OPS[a], Shared())
    r = verdict(a, b, k, None, False, *one(a, b, k, None, False))
    ctx.traces += 1
    ctx.transitions += k
    ctx.outcome("storm")
    ctx.state((a, b, k, again, "storm"))
    return r


def judge_cold(case, ctx):
    """in a process in which urlstd has not been called"""
    a, b, k, j, oc = case
    r = I.in_fresh_process(lambda: one_cold(a, b, k, j, oc))
    ctx.traces += 1
    ctx.transitions += k
    ctx.outcome("cold schedule")
    ctx.state((a, b, k, j, oc, "cold"))
    return verdict(a, b, k, j, oc, *r)


def one_cold(a, b, k, j, oc):
    if a in SHARING or b in SHARING:
        return one(a, b, k, j, oc)
    # no shared object: nothing warms the library up
    ra, rb, ended = run_schedule(OPS[a], OPS[b], None, k, j, oc)
    return _expect[None], ra, rb, ended


def c16(tier):
    T = tier == "thorough"
    prepare()
    P = _points
    ends = [ends_of_lines(_lines[again], len(NAMES) if T else 1 + again) for again in (0, 1)]
    cold_ends = ends_of_lines(_lines[0], 2)

    def warm1():
        for a in NAMES:
            for b in ALL + (NAMES if T else []):
                for k in range(0, P[a, T] + 1):
                    yield (a, b, k, None, T)

    def siblings():
        for n in NAMES:
            for a, b in ((n, n + "'"), (n + "'", n)):
                for k in range(0, P[a, T] + 1):
                    yield (a, b, k, None, T)
                    if T:
                        for j in range(0, P[b, False], 1):
                            if k < P[a, False] and (k + j) % 4 == 0:
                                yield (a, b, k, j, False)

    def warm2():
        names = ["idna", "valid-host", "params", "failure"] + (["valid", "set-host", "relative", "urlencode"] if T else [])
        for a in names:
            for b in names:
                for k in range(0, P[a, False], 1 if T else 8):
                    for j in range(0, P[b, False], 1 if T else 8):
                        yield (a, b, k, j, False)

    def cold1():
        for a in NAMES:
            for k in range(0, P[a, False]) if T else cold_ends[a]:
                yield (a, "probe", k, None, False)
        names = NAMES if T else ["parse", "idna", "idna-strict", "valid", "params", "urlencode"]
        for a in names:
            for b in names:
                for k in range(0, P[a, T], 3 if not T else 2):
                    yield (a, b, k, None, T)

    def storms():
        for a in NAMES:
            for again in (0, 1):
                for k in ends[again][a]:
                    yield (a, "storm-more" if T else "storm", k, again)

    def cold2():
        names = ["idna", "idna-strict"]
        for a in names:
            for b in names:
                for k in range(0, P[a, False], 1 if T else 4):
                    for j in range(0, P[b, False], 1 if T else 4):
                        yield (a, b, k, j, False)

    fams = [
        # the forking families come first: the workers have not called urlstd
        fam("cold1", cold1, judge_cold, "first calls of a process: every %s%s of one operation, one preemption; and %s, by a thread that looks at every character and scheme" % ("2nd " if T else "3rd ", "instruction" if T else "line", "every line" if T else "where a line is executed for the first, second and last time"), bits=2),
        fam("cold2", cold2, judge_cold, "first calls of a process: IDNA operations, two preemptions, %s pair of lines" % ("every" if T else "every 4th x 4th"), bits=2),
        fam("one-preemption", warm1, judge_schedule, "%d operations, preempted at every %s of urlstd by a thread that executes 10 operations, by one that executes all %d%s" % (len(NAMES), "byte-code instruction" if T else "line", len(NAMES), " and by each single one" if T else ""), bits=4),
        fam("storm", storms, judge_storm, "%d operations, preempted where a line is executed for the first, second and last time%s, with its values used before and not, by a thread that uses %d distinct values of every kind" % (len(NAMES), "" if T else " (each line in at most 2 operations)", 1100 if T else 140), bits=4),
        fam("siblings", siblings, judge_schedule, "%d operations x the same operation with other arguments, preempted at every %s%s" % (len(NAMES), "byte-code instruction" if T else "line", "; two preemptions at every pair of lines whose sum is a multiple of 4" if T else ""), bits=4),
        fam("two-preemptions", warm2, judge_schedule, "pairs of %d operations, %s pair of lines" % (8 if T else 4, "every" if T else "every 8th x 8th"), bits=4),
    ]
    return dict(
        families=fams,
        validated="the schedules are executed on urlstd itself by two real threads under a controlled scheduler; each thread's result is compared with its result alone in a fresh process",
        assumptions=[
            "preemption happens between lines (quick) or byte-code instructions (thorough) of urlstd, not inside the interpreter, the standard library or ICU (the GIL is held there)",
            "at most two threads and two preemptions",
            ASSUME_ICU,
        ],
    )

