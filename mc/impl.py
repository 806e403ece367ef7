"""Adapter to the implementation: the public API of urlstd, as it is in
/repo/src right now (compiled from source on every run, no byte-code cache)."""

from __future__ import annotations

import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/verif-pycache"
sys.path.insert(0, os.path.join(REPO, "src"))

import urlstd.error as uerr  # noqa: E402
import urlstd.parse as up  # noqa: E402

_src = os.path.realpath(os.path.join(REPO, "src"))
assert os.path.realpath(up.__file__).startswith(_src + os.sep), up.__file__

URL = up.URL
URLParseError = uerr.URLParseError
parse_url = up.parse_url

GETTERS = (
    "href",
    "origin",
    "protocol",
    "username",
    "password",
    "host",
    "hostname",
    "port",
    "pathname",
    "search",
    "hash",
)


def host_key(h):
    return tuple(h) if isinstance(h, (list, tuple)) else h


def rec_key(r):
    """The URL record's fields, as plain comparable data."""
    p = r.path
    return (
        r.scheme,
        r.username,
        r.password,
        host_key(r.host),
        r.port,
        p if isinstance(p, str) else tuple(p),
        r.query,
        r.fragment,
    )


def snapshot(u):
    return tuple([getattr(u, k) for k in GETTERS])


def pairs(u):
    return tuple(u.search_params)


FAIL = ("fail",)


def guard(f, *a, **kw):
    """-> ("ok", value) | FAIL (URLParseError) | ("exc", type name, text)"""
    try:
        return ("ok", f(*a, **kw))
    except URLParseError:
        return FAIL
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:160])


def parse_outcome(s, base=None, encoding=None):
    """-> ("ok", record key, href) | FAIL | ("exc", ...)"""
    try:
        if encoding is None:
            r = parse_url(s, base)
        else:
            r = parse_url(s, base, encoding)
        return ("ok", rec_key(r), str(r))
    except URLParseError:
        return FAIL
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:160])


def url_outcome(s, base=None):
    """-> ("ok", getters, search_params pairs) | FAIL | ("exc", ...)"""
    try:
        u = URL(s, base)
        return ("ok", snapshot(u), pairs(u))
    except URLParseError:
        return FAIL
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:160])
