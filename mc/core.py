"""
Exhaustive exploration core.

Two engines, both exhaustive within their stated bounds, neither samples:

* ``explore``: stateless depth-first enumeration of every sequence of choices a
  scenario makes (operation to run, fault to inject, crash point, reply to
  deliver).  The scenario is re-executed from scratch on the real code for each
  sequence.  A scenario may call ``ch.visit(key)`` with a canonical key of the
  complete real + environment state (including the remaining budget); a state
  reached a second time is not expanded again.

* ``bfs``: breadth first search over operation histories with canonical state
  merging, rebuilding the real objects for each history.
"""

import hashlib
import json
import os
import signal
import sys
import time
import traceback
from collections import deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Pruned(BaseException):
    """Raised inside a scenario when the state reached was already expanded."""


# Violations raised since the execution began: one raised inside a callback may be
# swallowed by the code under test.
RAISED = []


class Violation(Exception):
    def __init__(self, what, detail=None, finding=None):
        RAISED.append(self)
        super().__init__(what)
        self.what = what
        self.detail = detail
        # identity used to match a known finding
        self.finding = finding


class Stuck(BaseException):
    """Raised inside an execution which does not end."""


# No execution takes anywhere near as long as this many seconds.
PATIENCE = 100


def _on_alarm(*_):
    raise Stuck()


def watch():
    signal.signal(signal.SIGALRM, _on_alarm)
    # again and again, in case that it is swallowed
    signal.setitimer(signal.ITIMER_REAL, PATIENCE, 5)


def unwatch():
    signal.setitimer(signal.ITIMER_REAL, 0)


class Nondeterminism(Exception):
    pass


def check(cond, what, **detail):
    if not cond:
        raise Violation(what, detail)


class Chooser:
    def __init__(self, prefix, memo, stats):
        self.prefix = prefix
        self.trace = []  # (n, chosen, label)
        self.memo = memo
        self.stats = stats
        self.log = []

    def choose(self, n, label="", names=None):
        assert n >= 1, label
        i = len(self.trace)
        if i < len(self.prefix):
            pn, c = self.prefix[i]
            if pn is not None and pn != n:
                raise Nondeterminism(
                    "choice %d (%s) had %d alternatives, now %d" % (i, label, pn, n)
                )
            if c >= n:
                raise Nondeterminism("choice %d (%s): %d >= %d" % (i, label, c, n))
        else:
            c = 0
        self.trace.append((n, c, label))
        if n > 1 and not (names and names[c] == "-"):
            self.log.append("%s=%s" % (label, names[c] if names else c))
        return c

    def pick(self, options, label=""):
        options = list(options)
        i = self.choose(len(options), label, [_short(o) for o in options])
        return options[i]

    @property
    def replaying(self):
        """True while re-executing choices whose states were checked before."""
        return len(self.trace) < len(self.prefix)

    def note(self, text):
        self.log.append(text)

    def visit(self, key):
        """
        Mark a state.  Beyond the replayed prefix, stop if it was expanded before.
        """
        self.stats["transitions"] += 1
        if self.replaying:
            return
        if callable(key):
            key = key()
        h = hashlib.blake2b(repr(key).encode("utf-8"), digest_size=16).digest()
        if h in self.memo:
            raise Pruned()
        self.memo.add(h)


def _short(o):
    s = o if isinstance(o, str) else getattr(o, "name", None) or repr(o)
    return s if len(s) < 60 else s[:57] + "..."


class Result:
    def __init__(self):
        self.executions = 0
        self.states = 0
        self.transitions = 0
        self.exhausted = True
        self.samples = []
        self.outcomes = {}
        self.violation = None
        self.known = {}
        self.leftover = []


class SharedMemo:
    """
    A hash set of 16 byte digests in memory shared with forked workers.  Unlocked:
    a lost or duplicated insertion only costs a repeated expansion.
    """

    def __init__(self, bits=22):
        import mmap

        self.mask = (1 << bits) - 1
        self.map = mmap.mmap(-1, 16 << bits)
        self.count = 0

    def __contains__(self, h):
        i = int.from_bytes(h[:8], "big") & self.mask
        m = self.map
        while True:
            cur = m[i * 16 : i * 16 + 16]
            if cur == h:
                return True
            if cur == _ZERO:
                return False
            i = (i + 1) & self.mask

    def add(self, h):
        if self.count > self.mask // 10:
            return  # full enough: stop merging rather than degrade
        i = int.from_bytes(h[:8], "big") & self.mask
        m = self.map
        while m[i * 16 : i * 16 + 16] != _ZERO:
            i = (i + 1) & self.mask
        m[i * 16 : i * 16 + 16] = h
        self.count += 1

    def __len__(self):
        return self.count


_ZERO = bytes(16)


def reclaim_files():
    """
    PyPy closes forgotten files only when it collects them.
    """
    try:
        n = len(os.listdir("/proc/self/fd"))
    except OSError:
        n = 10**6
    if n > 256:
        import gc

        gc.collect()
        gc.collect()


def explore(
    scenario,
    deadline=None,
    is_known=None,
    prefix=(),
    fixed=0,
    memo=None,
    slice_s=None,
):
    """
    Run ``scenario(ch)`` for every sequence of choices.

    :param prefix: initial choices [(n, c)], the first ``fixed`` of which are
        never backtracked (used to split the space between processes).
    """
    res = Result()
    if memo is None:
        memo = set()
    before = len(memo)
    t_end = time.time() + (slice_s or 0)
    stats = {"transitions": 0}
    prefix = list(prefix)
    while True:
        ch = Chooser(prefix, memo, stats)
        del RAISED[:]
        try:
            try:
                watch()
                out = scenario(ch)
            except Pruned:
                out = "merged"
            except Stuck:
                raise Violation("this does not end")
            finally:
                unwatch()
            if RAISED:
                raise RAISED[0]
        except Violation as v:
            if RAISED:
                v = RAISED[0]
            known = is_known(v) if is_known is not None else None
            if known:
                res.known.setdefault(known, ch.log)
                out = "known-finding"
            else:
                v.trace = [(n, c, l) for (n, c, l) in ch.trace]
                v.log = list(ch.log)
                res.violation = v
                out = "violation"
        except Nondeterminism:
            raise
        except Exception as e:
            if RAISED:
                v = RAISED[0]
            else:
                v = Violation(
                    "unexpected %s: %s" % (type(e).__name__, e),
                    {"traceback": traceback.format_exc()},
                )
            v.trace = list(ch.trace)
            v.log = list(ch.log)
            known = is_known(v) if is_known is not None else None
            if known:
                res.known.setdefault(known, ch.log)
                out = "known-finding"
            else:
                res.violation = v
                out = "violation"
        res.executions += 1
        if res.executions % 64 == 0:
            reclaim_files()
        out = str(out)
        if out not in res.outcomes:
            res.outcomes[out] = 0
            if len(res.samples) < 12:
                res.samples.append({"outcome": out, "schedule": ch.log[:60]})
        res.outcomes[out] += 1
        if res.violation is not None:
            break
        t = ch.trace
        if len(t) < fixed:
            break
        while len(t) > fixed and t[-1][1] == t[-1][0] - 1:
            t.pop()
        if len(t) <= fixed:
            break
        n, c, l = t[-1]
        prefix = [(a, b) for (a, b, _) in t[:-1]] + [(n, c + 1)]
        if deadline is not None and time.time() > deadline:
            res.exhausted = False
            break
        if slice_s is not None and time.time() > t_end:
            # Hand the untried alternatives back.
            base = [(a, b) for (a, b, _) in t]
            for i in range(fixed, len(base)):
                n, c = base[i]
                for alt in range(c + 1, n):
                    res.leftover.append(base[:i] + [(n, alt)])
            break
    res.states = len(memo) - before
    res.transitions = stats["transitions"]
    return res


def replay(scenario, choices):
    ch = Chooser([(None, c) for c in choices], set(), {"transitions": 0})
    ch.memo = _Never()
    del RAISED[:]
    try:
        try:
            out = scenario(ch)
        finally:
            if RAISED:
                raise RAISED[0]
    finally:
        for line in ch.log:
            print("   ", line)
    return out


class _Never:
    def __contains__(self, o):
        return False

    def add(self, o):
        pass


def _send(f, obj):
    import pickle

    data = pickle.dumps(obj)
    f.write(len(data).to_bytes(8, "big") + data)
    f.flush()


def _recv(f):
    import pickle

    head = f.read(8)
    if len(head) < 8:
        raise EOFError()
    return pickle.loads(f.read(int.from_bytes(head, "big")))


def _pool(work, items, jobs):
    """
    Run ``work(item, slice)`` over items, and over the items left over by those,
    in forked workers.  Stops early at a violation.
    """
    import select

    sys.stdout.flush()
    sys.stderr.flush()
    workers = []
    results = []
    finished = False
    try:
        for _ in range(jobs):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(w1)
                os.close(r2)
                rf, wf = os.fdopen(r1, "rb"), os.fdopen(w2, "wb")
                try:
                    while True:
                        try:
                            item, slice_s = _recv(rf)
                        except EOFError:
                            break
                        try:
                            res = work(item, slice_s)
                            v = res.violation
                            if v is not None:
                                res.violation = (
                                    v.what,
                                    json.loads(json.dumps(v.detail, default=repr)),
                                    v.trace,
                                    v.log,
                                )
                            _send(wf, res)
                        except BaseException:
                            _send(wf, traceback.format_exc())
                finally:
                    try:
                        from . import zk

                        zk.cleanup_scratch()
                    finally:
                        os._exit(0)
            os.close(r1)
            os.close(w2)
            workers.append((pid, os.fdopen(r2, "rb"), os.fdopen(w1, "wb")))
        pending = list(items)
        busy = {}
        idle = list(workers)
        while pending or busy:
            while pending and idle:
                wk = idle.pop()
                item = pending.pop(0)
                # Short slices while the work is not spread out yet.
                crowded = len(pending) >= jobs
                try:
                    _send(wk[2], (item, 3.0 if crowded else 0.25))
                except BrokenPipeError:
                    raise RuntimeError("a worker died")
                busy[wk[1]] = wk
            ready, _, _ = select.select(list(busy), [], [])
            for f in ready:
                wk = busy.pop(f)
                res = _recv(f)
                if isinstance(res, str):
                    raise RuntimeError("worker failed:\n" + res)
                results.append(res)
                pending.extend(res.leftover)
                pending.sort(key=len)
                res.leftover = []
                if res.violation is not None:
                    return results
                idle.append(wk)
        finished = True
        return results
    finally:
        for pid, rf, wf in workers:
            try:
                wf.close()
            except OSError:
                pass
        if not finished:
            import signal

            for pid, rf, wf in workers:
                try:
                    os.kill(pid, signal.SIGTERM)
                except OSError:
                    pass
        for pid, rf, wf in workers:
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
            rf.close()


def explore_parallel(scenario, jobs=None, deadline=None, is_known=None):
    """
    ``explore`` over forked worker processes.  A worker explores a subtree for a
    slice of time and hands back the alternatives it did not reach.
    """
    jobs = jobs or min(8, os.cpu_count() or 1)
    if jobs <= 1:
        return explore(scenario, deadline, is_known)
    memo = SharedMemo()
    results = _pool(
        lambda p, slice_s: explore(
            scenario, deadline, is_known, p, len(p), memo, slice_s
        ),
        [[]],
        jobs,
    )
    total = Result()
    for res in results:
        total.executions += res.executions
        total.states += res.states
        total.transitions += res.transitions
        total.exhausted = total.exhausted and res.exhausted
        for k, n in res.outcomes.items():
            if k not in total.outcomes:
                total.samples.extend(
                    s for s in res.samples if s["outcome"] == k and len(total.samples) < 12
                )
            total.outcomes[k] = total.outcomes.get(k, 0) + n
        for k, l in res.known.items():
            total.known.setdefault(k, l)
        if res.violation is not None and total.violation is None:
            what, detail, trace, log = res.violation
            v = Violation(what, detail)
            v.trace = trace
            v.log = log
            total.violation = v
    return total


def bfs(build, canon, enabled, max_depth, check_state=None, deadline=None):
    """
    Breadth first search over histories.

    :param build: ``build(history) -> world`` re-executes a history on fresh real
        objects, raising ``Violation`` if an oracle fails.
    :param canon: ``canon(world) -> hashable``
    :param enabled: ``enabled(world, depth) -> [event]``
    """
    res = Result()
    seen = set()
    world = build(())
    if check_state is not None:
        check_state(world)
    seen.add(canon(world))
    first = enabled(world, 0)
    frontier = deque([((), first)])
    while frontier:
        hist, events = frontier.popleft()
        if len(hist) >= max_depth:
            continue
        for ev in events:
            h = hist + (ev,)
            res.executions += 1
            try:
                world = build(h)
                if check_state is not None:
                    check_state(world)
            except Violation as v:
                v.trace = []
                v.log = [_short(repr(e)) for e in h]
                v.history = h
                res.violation = v
                return res
            except Exception as e:
                v = Violation(
                    "unexpected %s: %s" % (type(e).__name__, e),
                    {"traceback": traceback.format_exc()},
                )
                v.trace = []
                v.log = [_short(repr(e)) for e in h]
                v.history = h
                res.violation = v
                return res
            res.transitions += 1
            k = canon(world)
            if k not in seen:
                seen.add(k)
                frontier.append((h, enabled(world, len(h))))
                if len(res.samples) < 6:
                    res.samples.append({"history": [_short(repr(e)) for e in h]})
        if deadline is not None and time.time() > deadline:
            res.exhausted = False
            break
    res.states = len(seen)
    return res
