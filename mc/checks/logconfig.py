"""C24: logging configurations."""

from __future__ import annotations

import json
import os
import subprocess
import sys

from .. import logprobe as L
from .. import model
from ..engine import VERIF
from .common import ASSUME_ICU, fam, model_url_outcome

_default: dict = {}
QUICK = [("created", "class:plain"), ("class:strict", "level:DEBUG"), ("created+class:plain", "dictconfig"), ("disabled", "raise-off")]


def probe(prelude, post, tier):
    p = subprocess.run(
        [sys.executable, "-m", "mc.logprobe", prelude, post, tier],
        cwd=VERIF,
        stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        timeout=600,
        env=dict(os.environ, PYTHONHASHSEED="0"),
    )
    if p.returncode:
        return None, p.stderr.decode(errors="replace")[-1500:]
    return json.loads(p.stdout), None


def default(tier):
    """results under the configuration of a fresh interpreter"""
    if tier not in _default:
        r, err = probe("default", "default", "quick")
        _default[tier] = (r, err)
    return _default[tier]


def first_difference(a, b):
    for x, y in zip(json.loads(a), json.loads(b)):
        if x != y:
            return x, y
    return None, None


def judge_config(case, ctx):
    prelude, post, tier = case
    base, err = default(tier)
    if err:
        return "under the default logging configuration: %s" % err
    want = base["distinct"][0][1]
    r, err = probe(prelude, post, tier)
    what = "logging set-up before import '%s', after import '%s'" % (prelude, post)
    if err:
        return "%s: %s" % (what, err)
    ctx.traces += r["runs"]
    ctx.transitions += r["runs"] * len(json.loads(want)) + r["nlog"]
    ctx.outcomes["results compared"] = ctx.outcomes.get("results compared", 0) + r["runs"] * len(json.loads(want))
    ctx.outcomes["calls whose log was compared"] = ctx.outcomes.get("calls whose log was compared", 0) + r["nlog"]
    for n in range(r["runs"]):
        ctx.state((prelude, post, n))
    for cfg, got in r["distinct"]:
        if got != want:
            x, y = first_difference(got, want)
            return "%s, root level/handler/disable %s: %s; by default %s" % (what, cfg, ascii(x)[:600], ascii(y)[:600])
    if r["log"]:
        return "%s: %s" % (what, ascii(r["log"][0])[:600])
    return None


def norm(x):
    return json.loads(json.dumps(x))


def judge_model(case, ctx):
    """the default configuration's results are the standard's"""
    s, b = case
    base, err = default("quick")
    if err:
        return err
    ctx.traces += 1
    ctx.outcome("against the model")
    want = norm(model_url_outcome(s, b))
    ctx.state((s, b))
    for row in _rows(base):
        if row[0] == s and row[1] == b:
            if row[2] != want:
                return "URL(%s, %s) gives %s, the standard says %s" % (ascii(s), b, ascii(row[2])[:400], ascii(want)[:400])
            ok = want[0] == "ok"
            if row[6] is not ok or row[10] is not ok or (row[8] == "ok") is not ok or (row[3][0] == "ok") is not ok:
                return "parse_url/can_parse(%s, %s) disagree with the standard: %s" % (ascii(s), b, ascii(row)[:400])
            if row[4] is not row[11] or row[4] is not row[5][0]:
                return "is_valid(%s, %s) depends on the report object: %s" % (ascii(s), b, ascii(row)[:400])
            return None
    return "no result for %s" % ascii(case)


_cache: list = []


def _rows(base):
    if not _cache:
        _cache.extend(r for r in json.loads(base["distinct"][0][1]) if len(r) == 12)
    return _cache


def c24(tier):
    T = tier == "thorough"
    default("quick")
    default(tier)

    def configs():
        for a in L.PRELUDES:
            for b in L.POSTS:
                if T or a == "default" or b == "default" or (a, b) in QUICK:
                    yield (a, b, tier)

    def inputs():
        for s in L.INPUTS:
            for b in L.BASES:
                yield (s, b)

    return dict(
        families=[
            fam("configurations", configs, judge_config, "%s of %d set-ups before import x %d after it, each in a process of its own, x root levels x handlers x global disabling; all results and reports of %d inputs x %d bases and of hosts and setters are compared; where the set-up lets records through, the log too" % ("all" if T else "a cross", len(L.PRELUDES), len(L.POSTS), len(L.INPUTS), len(L.BASES)), bits=0),
            fam("model", inputs, judge_model, "the default configuration's results against the model"),
        ],
        validated="every configuration is executed on urlstd in a fresh process; the default configuration's results are also compared with the reference model",
        assumptions=[
            "handlers, filters and logger classes do not raise",
            ASSUME_ICU,
        ],
    )
