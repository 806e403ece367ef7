"""Exhaustive exploration engine.

A check is a list of families.  A family is a finite, deterministic enumeration
(`gen()` yields every case of a bounded space, simplest first) and a judge
(`judge(case, ctx)` executes the case on the real code, and on the reference
model where there is one, and returns None or a description of the violation).
Every case of every family is executed, none is drawn at random; the space is
cut into blocks that 8 forked workers execute.

Exit status: 0 held on everything explored, 1 violation (VIOLATION line).
"""

from __future__ import annotations

import ast
import json
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NWORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
BLOCK_BITS = 5
HANG_TICKS = 18  # x 5 s without finishing one case
MAX_REPORT = 3


class Hang(BaseException):
    pass


class Family:
    def __init__(self, name, gen, judge, bounds, bits=BLOCK_BITS):
        self.name, self.gen, self.judge, self.bounds = name, gen, judge, bounds
        self.bits = bits  # 2**bits consecutive cases go to one worker


class Ctx:
    """What a judge may record about the case it executed."""

    __slots__ = ("states", "transitions", "outcomes", "traces")

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}

    def state(self, key):
        self.states.add(hash(key))

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1


class _Progress:
    def __init__(self):
        self.tick_case = None
        self.ticks = 0
        self.case_no = 0

    def alarm(self, *_):
        if self.tick_case == self.case_no:
            self.ticks += 1
            if self.ticks >= HANG_TICKS:
                self.ticks = 0
                raise Hang()
        else:
            self.tick_case, self.ticks = self.case_no, 0


def _run_one(fam, case, ctx):
    try:
        return fam.judge(case, ctx)
    except Hang:
        return "the call does not terminate (stopped after %d s)" % (
            5 * HANG_TICKS
        )
    except MemoryError:
        return "the call exhausts memory"
    except RecursionError as e:
        return "RecursionError: %s" % e
    except AssertionError as e:
        return "assertion: %s" % e
    except Exception as e:  # a case that cannot be executed is a violation
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d" % (f.filename, f.lineno) for f in tb[-3:])
        return "unexpected %s: %s [%s]" % (
            type(e).__name__,
            ascii(str(e))[:200],
            where,
        )


def _worker(w, n, families, out_path, stop_path, known):
    from . import model

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    ctx = Ctx()
    prog = _Progress()
    signal.signal(signal.SIGALRM, prog.alarm)
    signal.setitimer(signal.ITIMER_REAL, 5, 5)
    counts, samples, viol, known_hit = {}, {}, [], set()
    model.TRACE_STATES = set()
    stopped = False
    secs = {}
    for fi, fam in enumerate(families):
        cnt, t0 = 0, time.time()
        for i, case in enumerate(fam.gen()):
            if (i >> fam.bits) % n != w:
                continue
            if not i & ((1 << fam.bits) - 1) and os.path.exists(stop_path):
                stopped = True
                break
            prog.case_no += 1
            cnt += 1
            msg = _run_one(fam, case, ctx)
            if msg is not None:
                k = (fam.name, ascii(case))
                if k in known:
                    known_hit.add(k)
                    continue
                viol.append((fi, i, ascii(case), msg, w))
                open(stop_path, "w").close()
                if len(viol) >= MAX_REPORT:
                    stopped = True
                    break
            elif cnt in (1, 40, 1000):
                samples.setdefault(fam.name, []).append(ascii(case)[:300])
        counts[fam.name] = cnt
        secs[fam.name] = time.time() - t0
        if stopped:
            break
    signal.setitimer(signal.ITIMER_REAL, 0)
    with open(out_path, "wb") as f:
        pickle.dump(
            dict(
                counts=counts,
                secs=secs,
                samples=samples,
                viol=viol,
                states=ctx.states,
                transitions=ctx.transitions + model.STEPS,
                traces=ctx.traces,
                outcomes=ctx.outcomes,
                parser_states=model.TRACE_STATES,
                known_hit=known_hit,
                stopped=stopped,
            ),
            f,
        )


def load_known(prop):
    """-> {(family, case): what fails} for findings recorded but not repaired"""
    out = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            if line.strip():
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == prop:
                    out[(d["family"], d["case"])] = d["what"]
    return out


def explore(families, known=(), nworkers=NWORKERS):
    tmp = tempfile.mkdtemp(prefix="mc-")
    stop = os.path.join(tmp, "stop")
    pids = {}
    try:
        sys.stdout.flush()
        for w in range(nworkers):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    _worker(
                        w,
                        nworkers,
                        families,
                        os.path.join(tmp, str(w)),
                        stop,
                        known,
                    )
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids[pid] = w
        crashed = []
        while pids:
            pid, status = os.wait()
            if pid in pids:
                w = pids.pop(pid)
                if status != 0:
                    crashed.append((w, status))
                    open(stop, "w").close()
        res = []
        for w in range(nworkers):
            p = os.path.join(tmp, str(w))
            if os.path.exists(p):
                with open(p, "rb") as f:
                    res.append(pickle.load(f))
        return res, crashed
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)


def report(prop, tier, check, res, crashed, wall, known):
    families = check["families"]
    viol = sorted(v for r in res for v in r["viol"])
    states, parser_states, outcomes, counts, samples = set(), set(), {}, {}, {}
    secs = {}
    for r in res:
        for k, v in r["secs"].items():
            secs[k] = round(secs.get(k, 0) + v, 1)
        states |= r["states"]
        parser_states |= r["parser_states"]
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r["samples"].items():
            samples.setdefault(k, []).extend(v)
    total = sum(counts.values())
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": sum(r["transitions"] for r in res),
            "traces_validated_against_impl": sum(r["traces"] for r in res),
            "executions": total,
            "executions_per_family": counts,
            "worker_seconds_per_family": secs,
            "bounds_per_family": {f.name: f.bounds for f in families},
            "distinct_outcome_classes": outcomes,
            "model_parser_states_visited": sorted(parser_states),
            "samples": [
                {"family": k, "case": c}
                for k, v in sorted(samples.items())
                for c in v[:3]
            ],
            "exhaustive": not viol
            and not crashed
            and not any(r["stopped"] for r in res),
            "how_model_traces_are_validated": check.get("validated", ""),
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(viol) + len(crashed),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for k in sorted({k for r in res for k in r["known_hit"]}):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    print(
        "%s %s: executions=%d states=%d transitions=%d outcomes=%s wall=%.1fs"
        % (
            prop,
            tier,
            total,
            len(states),
            ev["coverage"]["transitions"],
            json.dumps(outcomes, sort_keys=True),
            wall,
        )
    )
    if not viol and not crashed:
        return 0
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, tier))
    art = {"property": prop, "tier": tier, "workers": NWORKERS}
    if viol:
        fi, i, case, msg, w = viol[0]
        art.update(
            family=families[fi].name, index=i, worker=w, case=case, what=msg
        )
        print("  family=%s case=%s" % (families[fi].name, case[:600]))
        print("  %s" % msg[:1500])
    else:
        art.update(
            what="worker %d died with status %d" % crashed[0], family=None
        )
        print("  " + art["what"])
    with open(path, "w") as f:
        json.dump(art, f, indent=1)
        f.write("\n")
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def replay(check, art):
    """Re-execute a recorded violation without the explorer; if the case alone
    does not show it (history dependence), with the history of its worker."""
    families = check["families"]
    fam = next(f for f in families if f.name == art["family"])
    case = ast.literal_eval(art["case"])
    ctx = Ctx()
    signal.signal(signal.SIGALRM, _Progress().alarm)
    signal.setitimer(signal.ITIMER_REAL, 5, 5)
    msg = _run_one(fam, case, ctx)
    if msg is not None:
        print("reproduced by the case alone: %s" % msg)
        return 1
    print("not reproduced by the case alone; replaying the worker's history")
    for f in families:
        for i, c in enumerate(f.gen()):
            if (i >> f.bits) % art["workers"] != art["worker"]:
                continue
            msg = _run_one(f, c, ctx)
            if msg is not None:
                print("%s %s: %s" % (f.name, ascii(c)[:300], msg))
                return 1
            if f is fam and i == art["index"]:
                print("not reproduced")
                return 0
    return 0


def main(load):
    """load(prop, tier) -> check"""
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        art = json.load(open(args[1]))
        sys.exit(replay(load(art["property"], art["tier"]), art))
    prop, tier = args[0], args[1]
    t = time.time()
    try:
        check = load(prop, tier)
    except Exception as e:
        # urlstd itself failed while the check was being set up
        tb = traceback.extract_tb(e.__traceback__)
        src = os.path.join(os.path.realpath(REPO), "src") + os.sep
        if not any(os.path.realpath(f.filename).startswith(src) for f in tb):
            raise
        msg = "unexpected %s while urlstd is set up: %s" % (type(e).__name__, ascii(str(e))[:300])
        fam = Family("set-up", lambda: iter([0]), lambda c, x: msg, "importing and first use")
        check = dict(families=[fam])
    known = load_known(prop)
    res, crashed = explore(check["families"], known)
    sys.exit(report(prop, tier, check, res, crashed, time.time() - t, known))
