"""Running a check: parallel evaluation of its cases, known findings, evidence and exit code"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

from mc import boot
from mc.explore import Stats

MAX_REPORTED = 5
# the verdict is settled: no new case is started once that many cases show a violation which is not a known one
STOP_AFTER = 3
# a worker holding more than that is replaced by a new one before the next case
WORKER_RSS = 1.2e9


class Result:
    """What the exploration of one case (configuration) found"""

    def __init__(self, case):
        self.case = case
        self.stats = Stats()
        self.violations = []  # (signature, message, choices)
        self.validated = 0  # traces / outcomes of the reference model matched with the code
        self.evaluations = 0
        self.sample = None
        self.outcomes = 0
        self.wall = 0.0

    def violate(self, message, choices=None, signature=None):
        if len(self.violations) < 40:
            self.violations.append((signature or self.case, message, choices))

    @property
    def bad(self):
        return bool(self.violations)


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


_CHECK = None


def _run_case(key_case):
    key, case = key_case
    res = Result(key)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(_CHECK.CASE_TIMEOUT if hasattr(_CHECK, "CASE_TIMEOUT") else 240)
    try:
        _CHECK.run_case(case, res)
    except CaseTimeout:
        res.violate(f"case {key}: no result after the time limit (the code does not terminate)")
    except Exception as e:  # noqa
        res.violate(
            f"case {key}: unexpected {type(e).__name__}: {e}\n"
            + "".join(traceback.format_exc()[-1500:])
        )
    finally:
        signal.alarm(0)
    res.wall = time.time() - t0
    return res


def known_findings(prop):
    path = os.path.join(boot.VERIF, "known_findings.json")
    with open(path) as fp:
        data = json.load(fp)
    return [f for f in data["findings"] if f["property"] == prop]


def run(check, prop, tier, seed, jobs=8):
    """run all the cases of a check, print the verdict, write the evidence; returns the exit code"""
    global _CHECK
    t0 = time.time()
    _CHECK = check
    cases = list(check.cases(tier))
    keys = [k for k, _ in cases]
    assert len(set(keys)) == len(keys), "duplicate case keys"
    results = []
    if jobs == 1 or len(cases) == 1:
        results = [_run_case(c) for c in cases]
    else:
        results = forked_map(cases, jobs, {f["signature"] for f in known_findings(prop)})
    total = Stats()
    validated = evaluations = 0
    samples = []
    violations = []
    for r in results:
        total.add(r.stats)
        validated += r.validated
        evaluations += r.evaluations
        if r.sample is not None and len(samples) < 6:
            samples.append({"case": r.case, "sample": r.sample})
        violations += [(r.case, s, m, c) for s, m, c in r.violations]

    known = known_findings(prop)
    seen_known = {}
    fresh = []
    for case, sig, msg, choices in violations:
        hit = next((f for f in known if f["signature"] == sig), None)
        if hit is not None:
            seen_known[hit["signature"]] = hit
        else:
            fresh.append((case, sig, msg, choices))
    for f in known:
        # a listed finding is announced only when it was observed on this run
        if f["signature"] in seen_known:
            boot.say(f"KNOWN-FINDING: property={prop} {f['what']}")

    code = 0
    if fresh:
        code = 1
        for case, sig, msg, choices in fresh[:MAX_REPORTED]:
            boot.say(f"VIOLATION property={prop} replay={write_replay(prop, tier, case, sig, msg, choices)}")
            boot.say("  " + msg.replace("\n", "\n  ")[:1500])
        if len(fresh) > MAX_REPORTED:
            boot.say(f"  ... and {len(fresh) - MAX_REPORTED} more")

    wall = time.time() - t0
    coverage = dict(
        states=total.states,
        transitions=total.transitions,
        traces_validated_against_impl=validated,
        evaluations=evaluations or total.executions,
        cases=len(cases),
        executions=total.executions,
        longest_execution_draws=total.maxdepth,
        divergent_replays=total.divergences,
        exhaustive=bool(total.complete),
        bounds=getattr(check, "BOUNDS", {}).get(tier, ""),
        samples=samples,
    )
    extra = getattr(check, "extra_coverage", None)
    if extra:
        coverage.update(extra(results))
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=getattr(check, "LEVEL", "model_checking"),
        coverage=coverage,
        assumptions=list(getattr(check, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2),
        violations=len(fresh),
    )
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", prop + ".json"), "w") as fp:
        json.dump(evidence, fp, indent=1, default=str)
    boot.say(
        f"{prop} [{tier}] {'FAILED' if code else 'ok'}: {len(cases)} cases, {total.executions} executions, "
        f"{total.states} states, {total.transitions} transitions, {validated} validated, {wall:.1f}s"
    )
    if os.environ.get("MC_TIMES"):
        for r in sorted(results, key=lambda r: -r.wall)[:12]:
            boot.say(f"   {r.wall:6.1f}s {r.case} ({r.stats.executions} executions)")
    return code


def write_replay(prop, tier, case, sig, msg, choices):
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(repr((prop, case, sig, msg)).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{h}.json")
    with open(path, "w") as fp:
        json.dump(
            dict(property=prop, tier=tier, case=case, signature=sig, message=msg, choices=choices),
            fp,
            indent=1,
            default=str,
        )
    return path


def _rss():
    try:
        with open("/proc/self/statm") as fp:
            return int(fp.read().split()[1]) * 4096
    except OSError:
        return 0


class _Worker:
    """a forked process which evaluates the cases it is handed one by one"""

    def __init__(self, cases, others):
        import pickle
        import struct

        tr, tw = os.pipe()
        rr, rw = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 3
            try:
                os.close(tw)
                os.close(rr)
                for w in others:  # inherited: the others are to see the end of their tasks
                    os.close(w.fd)
                    if w.task is not None:
                        os.close(w.task)
                with os.fdopen(rw, "wb") as out:
                    while True:
                        b = os.read(tr, 4)
                        if len(b) < 4:
                            break
                        i = struct.unpack("i", b)[0]
                        res = _run_case(cases[i])
                        worn = _rss() > WORKER_RSS
                        blob = pickle.dumps((i, res, worn))
                        out.write(struct.pack("q", len(blob)) + blob)
                        out.flush()
                        if worn:
                            break
                code = 0
            finally:
                os._exit(code)
        os.close(tr)
        os.close(rw)
        self.task, self.fd, self.data, self.case = tw, rr, b"", None

    def give(self, i):
        import struct

        self.case = i
        try:
            os.write(self.task, struct.pack("i", i))
        except BrokenPipeError:
            pass  # its end of file is read next

    def end(self):
        if self.task is not None:
            os.close(self.task)
            self.task = None

    def reap(self):
        self.end()
        os.close(self.fd)
        os.waitpid(self.pid, 0)


def forked_map(cases, jobs, known=()):
    """evaluate the cases in forked workers taking them one by one (no multiprocessing.Pool: it is
    replaced in some checks).

    A worker which holds much memory is replaced. A case whose worker died is evaluated a second time, alone (the
    machine may have ended the worker for want of memory): only a case which ends the interpreter twice is reported.
    """
    import pickle
    import select
    import struct

    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    results = {}
    failed = 0

    def explore(queue, jobs):
        nonlocal failed
        died = []
        live = {}

        def more():
            return bool(queue) and failed < STOP_AFTER

        def start():
            w = _Worker(cases, list(live.values()))
            live[w.fd] = w
            w.give(queue.pop(0))

        while more() and len(live) < jobs:
            start()
        while live:
            ready, _, _ = select.select(list(live), [], [], 5)
            for fd in ready:
                w = live[fd]
                data = os.read(fd, 1 << 20)
                if not data:
                    if w.case is not None:
                        died.append(w.case)
                    del live[fd]
                    w.reap()
                    if more():
                        start()
                    continue
                w.data += data
                while len(w.data) >= 8:
                    n = struct.unpack("q", w.data[:8])[0]
                    if len(w.data) < 8 + n:
                        break
                    i, res, worn = pickle.loads(w.data[8 : 8 + n])
                    w.data = w.data[8 + n :]
                    results[i] = res
                    w.case = None
                    failed += any(s not in known for s, _, _ in res.violations)
                    if worn or not more():
                        w.end()
                    else:
                        w.give(queue.pop(0))
        return died

    twice = set()
    for i in explore(list(range(len(cases))), jobs):
        twice.update(explore([i], 1))
    out = []
    for i, (key, _) in enumerate(cases):
        if i in results:
            out.append(results[i])
        elif i in twice:
            r = Result(key)
            r.violate(f"case {key}: the interpreter crashed while exploring it (twice)")
            out.append(r)
    return out
