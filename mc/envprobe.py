"""Run by C15 in a process of its own: python [options] -m mc.envprobe
prints the results of all calls, first to last and then last to first."""

from __future__ import annotations

import json
import sys

from .checks import isolation as I


def main():
    n = len(I.CALLS)
    order = list(range(n)) + list(range(n - 1, -1, -1))
    out = [(i, ascii(I.run_call(i))) for i in order]
    out += [(n + i, ascii(I.run_role(r, x))) for i, (r, x) in enumerate(I.env_roles())]
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    main()
