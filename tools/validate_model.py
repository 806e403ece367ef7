"""Validate the reference model against the web-platform-tests data that the
repository carries (urlstd is not involved): prints the disagreements."""

import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc import model  # noqa: E402

RES = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "tests", "wpt", "resources")
ATTRS = ["href", "protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash"]


def load(name):
    with open(os.path.join(RES, name), encoding="utf-8") as f:
        return json.load(f)


def main():
    n = bad = 0

    def check(what, got, want):
        nonlocal n, bad
        n += 1
        if got != want:
            bad += 1
            print("%s: model %s, data %s" % (what, ascii(got), ascii(want)))

    for d in load("urltestdata.json"):
        if not isinstance(d, dict):
            continue
        try:
            u = model.Url(d["input"], d["base"])
        except model.Failure:
            u = None
        what = ascii((d["input"], d["base"]))
        check(what + " failure", u is None, d.get("failure", False))
        if u is not None and not d.get("failure"):
            for k in ATTRS + ["origin"]:
                if k in d:
                    check(what + " " + k, u.get(k), d[k])
    for k, cases in load("setters_tests.json").items():
        if k == "comment":
            continue
        for d in cases:
            u = model.Url(d["href"])
            u.set(k, d["new_value"])
            for a, v in d["expected"].items():
                check(ascii((d["href"], k, d["new_value"], a)), u.get(a), v)
    for d in load("toascii.json"):
        if not isinstance(d, dict):
            continue
        try:
            got = model.Url("https://%s/x" % d["input"]).get("host")
        except model.Failure:
            got = None
        check("toascii " + ascii(d["input"]), got, d["output"])
    print("%d comparisons, %d disagreements" % (n, bad))


main()
