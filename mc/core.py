"""
Driver of the bounded exhaustive checks.

A check is a module mc/checks/<id>.py with

    cases(tier)      -> iterable of JSON-able case descriptors, a finite space which
                        is enumerated completely (never sampled), simplest first
    run(case, obs)   -> explores the case on the real code in /repo, calling
                        obs.state/obs.step/obs.trace as it goes and obs.fail(msg)
                        for each disagreement with the reference model
    BOUNDS(tier)     -> text describing the bounds (goes in the evidence)

The driver distributes the cases over worker processes, merges the counts, writes
the evidence file and reports violations.
"""
import os
import sys
import json
import time
import signal
import hashlib
import traceback
import importlib
import multiprocessing as mp
from multiprocessing.connection import wait
import pristine

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAXV = 40              # stop collecting after this many violating cases
CASE_SECONDS = 100     # a case that needs more processor time than this does not terminate
WALL_SECONDS = 300     # nor does one that takes longer than this (all of it waiting, or the machine is overloaded)
MAXT = 3               # stop after this many such cases


class Timeout(Exception):
    pass


class Obs:
    """Observations of one case."""
    def __init__(self):
        self.nstates = 0
        self.ntrans = 0
        self.ntraces = 0
        self.digests = set()
        self.fails = []
        self.known = []

    def state(self, *key):
        """A state reached (an input or a state of the object under test)."""
        self.digests.add(digest(key))

    def step(self, n=1):
        """A transition of the implementation, checked against the model."""
        self.ntrans += n

    def trace(self, n=1):
        """A complete trace replayed on the implementation and compared."""
        self.ntraces += n

    def fail(self, msg):
        if len(self.fails) < 8:
            self.fails.append(str(msg)[:2000])

    def check(self, cond, msg):
        if not cond:
            self.fail(msg() if callable(msg) else msg)
        return cond


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


_CHECK = None


def _quiet():
    import warnings
    warnings.filterwarnings("ignore")


def run_case(check, case):
    obs = Obs()

    def onalarm(signum, frame):
        raise Timeout("case did not finish in %d s of processor time or %d s" % (CASE_SECONDS, WALL_SECONDS))

    old = signal.signal(signal.SIGALRM, onalarm)
    oldp = signal.signal(signal.SIGPROF, onalarm)
    signal.alarm(WALL_SECONDS)
    signal.setitimer(signal.ITIMER_PROF, CASE_SECONDS)
    try:
        pristine.reset()
        check.run(case, obs)
    except Exception as e:                        # the code under test raised
        tb = traceback.format_exc().strip().splitlines()
        obs.fail("raised %s: %s [%s]" % (type(e).__name__, e, " | ".join(t.strip() for t in tb[-7:-1])))
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, oldp)
        signal.signal(signal.SIGALRM, old)
    return obs


def _work(item):
    idx, case = item
    obs = run_case(_CHECK, case)
    return idx, case, list(obs.digests), obs.ntrans, obs.ntraces, obs.fails


def _serve(conn, cases, others):
    """A worker: run the cases it is told to, one answer for each."""
    _quiet()
    for c in others:                                         # the parent's ends: closed here, so that they close with it
        c.close()
    while True:
        try:
            span = conn.recv()
        except EOFError:
            return
        if span is None:
            return
        for k in range(*span):
            conn.send(_work(cases[k]))


def _results(ctx, cases, nproc, chunk):
    """
    Run every case in nproc processes, each with a pipe of its own: no lock is
    shared, so that stopping early, or a process that dies, cannot block the others.
    """
    spans = [(k, min(k + chunk, len(cases))) for k in range(0, len(cases), chunk)][::-1]
    live, died = {}, {}

    def start():
        ours, theirs = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(theirs, cases, list(live) + [ours]), daemon=True)
        p.start()
        theirs.close()
        live[ours] = [p, None]
        give(ours)

    def give(conn):
        live[conn][1] = spans.pop() if spans else None
        try:
            conn.send(live[conn][1])
        except OSError:                                      # already dead: found out when reading from it
            pass

    try:
        for _ in range(nproc):
            start()
        while live:
            for conn in wait(list(live)):
                p, span = live[conn]
                try:
                    out = conn.recv()
                except (EOFError, OSError):
                    del live[conn]
                    conn.close()
                    p.join(10)
                    if span is not None:                     # died in the case at span[0]: once more, alone
                        k = span[0]
                        died[k] = died.get(k, 0) + 1
                        if span[1] > k + 1:
                            spans.append((k + 1, span[1]))
                        if died[k] > 1:
                            yield cases[k] + ([], 0, 0, ["the process died (exit code %s)" % p.exitcode])
                        else:
                            spans.append((k, k + 1))
                    if spans:
                        start()
                    continue
                if span[0] + 1 < span[1]:
                    live[conn][1] = (span[0] + 1, span[1])
                else:
                    give(conn)
                yield out
    finally:
        for p, span in live.values():
            p.kill()
        for p, span in live.values():
            p.join(10)


def load(pid):
    return importlib.import_module("checks." + pid)


def explore(pid, tier):
    """Enumerate every case of the check. Returns (coverage dict, violations)."""
    global _CHECK
    _quiet()
    try:
        importlib.import_module("trikit")
    except Exception as e:                       # the code under test cannot be used at all
        msg = "import trikit raised %s: %s" % (type(e).__name__, e)
        return {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "cases_enumerated": 1,
                "cases_completed": 1, "exhaustive": False, "bounds": "import only", "samples": [],
                }, [(0, {"import": True}, [msg])]
    _CHECK = load(pid)
    pristine.snapshot()
    cases = list(enumerate(_CHECK.cases(tier)))
    states, ntrans, ntraces, viol, done, slow = set(), 0, 0, [], 0, 0
    samples, t0 = [], time.time()
    stride = max(1, len(cases) // 5)
    nproc = min(8, os.cpu_count() or 1, max(1, len(cases)))
    chunk = max(1, min(32, len(cases) // (nproc * 6)))
    ctx = mp.get_context("fork")
    for idx, case, digs, nt, ntr, fails in _results(ctx, cases, nproc, chunk):
        done += 1
        states.update(digs)
        ntrans += nt
        ntraces += ntr
        if idx % stride == 0 and len(samples) < 6:
            samples.append(case)
        if fails:
            viol.append((idx, case, fails))
            slow += any("did not finish" in f for f in fails)
            if len(viol) >= MAXV or slow >= MAXT:
                break
        if viol and time.time() - t0 > 600:
            break
    viol.sort(key=lambda v: v[0])
    cov = {
        "states": len(states), "transitions": ntrans,
        "traces_validated_against_impl": ntraces,
        "cases_enumerated": len(cases), "cases_completed": done,
        "exhaustive": done == len(cases),
        "bounds": _CHECK.BOUNDS(tier), "samples": samples,
    }
    return cov, viol


def known_findings(pid):
    """Lines `finding: property=<id> match=<substring of the violation> :: <text>`."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path):
        line = line.strip()
        if line.startswith("finding: property=%s " % pid):
            head, text = line.split(" :: ", 1)
            out.append((head.split(" match=", 1)[1], text))
    return out


def main(pid, tier):
    t0 = time.time()
    cov, viol = explore(pid, tier)
    known = known_findings(pid)
    hit, new = set(), []
    for idx, case, fails in viol:
        rest = []
        for f in fails:
            m = [t for s, t in known if s in f]
            if m:
                hit.update(m)
            else:
                rest.append(f)
        if rest:
            new.append((idx, case, rest))
    for text in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    replay_dir = os.path.join(VERIF, "replays")
    if new:
        os.makedirs(replay_dir, exist_ok=True)
    for k, (idx, case, fails) in enumerate(new[:5]):
        path = os.path.join(replay_dir, "%s-%d.json" % (pid, k))
        with open(path, "w") as f:
            json.dump({"property": pid, "case": case, "fails": fails,
                       "replay": "/verif/mc/run --replay %s" % path}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        for m in fails[:3]:
            print("    case %s: %s" % (json.dumps(case)[:300], m[:600]))
    if not cov["exhaustive"] and not new:
        raise SystemExit("internal: enumeration incomplete")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "assumptions": ["the verdict does not depend on VERIF_SEED: every case of the bounded space is run"],
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: cases=%d states=%d transitions=%d traces=%d violations=%d wall=%.1fs" % (
        pid, tier, cov["cases_enumerated"], cov["states"], cov["transitions"],
        cov["traces_validated_against_impl"], len(new), time.time() - t0))
    return 1 if new else 0


def replay(path):
    _quiet()
    with open(path) as f:
        r = json.load(f)
    check = load(r["property"])
    pristine.snapshot()
    obs = run_case(check, r["case"])
    for m in obs.fails:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        print("    " + m)
    print("replayed: %d disagreement(s)" % len(obs.fails))
    return 1 if obs.fails else 0
