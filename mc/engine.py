"""Stateless model-checking engine.

A driver is a nondeterministic Python function ``body(ck)``: it calls
``ck.choose(label, options)`` wherever the environment may pick (a sparsity
pattern, a grouping, the next operation of a history, a flag ...), drives the
real code with the picks and checks it against a reference with ``ck.expect``.
``explore`` runs the body once for *every* sequence of picks (depth-first
search over the choice tree, by re-execution of the prefix).  Nothing is
sampled: numeric payloads that are not part of the enumerated space are fixed
by VERIF_SEED.

``states``      = distinct nodes of the choice tree that were reached
``transitions`` = edges of the choice tree that were taken
``traces``      = complete executions of the real code compared with the model
"""
import collections
import hashlib
import json
import mmap
import multiprocessing as mp
import multiprocessing.connection
import os
import pathlib
import sys
import time
import traceback
import zlib

import numpy as np

HERE = pathlib.Path(__file__).resolve().parent.parent
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Cut(BaseException):
    """prefix exhausted (used while splitting work between processes)"""


class Prune(Exception):
    """this pick combination is outside the enumerated space"""


class Stop(Exception):
    """abandon this execution after a recorded failure"""


def _short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def _ragged_eq(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(_ragged_eq(u, v) for u, v in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


class Ck:
    def __init__(self, prop, driver, prefix=(), cut=None):
        self.prop, self.driver = prop, driver
        self.prefix = list(prefix)
        self.cut = cut
        self.picks = []      # indices
        self.counts = []     # number of options
        self.labels = []
        self.fails = []
        self.outcomes = set()
        self.n_expect = 0
        self._rng = None

    # ---- choices -------------------------------------------------------
    def choose(self, label, options):
        options = list(options)
        if not options:
            raise Prune()
        d = len(self.picks)
        if self.cut is not None and d >= self.cut and d >= len(self.prefix):
            self.counts.append(len(options))
            raise Cut()
        i = self.prefix[d] if d < len(self.prefix) else 0
        self.picks.append(i)
        self.counts.append(len(options))
        if _TRACK is not None and d < 60:
            _TRACK[1] = d + 1
            _TRACK[2 + d] = i
        v = options[i]
        self.labels.append((label, _short(v)))
        return v

    def flag(self, label):
        return self.choose(label, [False, True])

    def require(self, cond):
        if not cond:
            raise Prune()

    # ---- numeric payload (seeded; a function of the driver and `tag`) ---
    def rng(self, *tag):
        return np.random.default_rng([SEED, zlib.crc32(repr((self.driver,) + tag).encode())])

    # ---- oracles ---------------------------------------------------------
    def fail(self, key, msg):
        self.fails.append((str(key), str(msg)[:1500], list(self.picks), list(self.labels)))

    def expect(self, key, cond, msg=""):
        self.n_expect += 1
        ok = bool(np.all(cond))
        if not ok:
            self.fail(key, msg() if callable(msg) else msg)
        return ok

    def eq(self, key, got, want, msg=""):
        self.n_expect += 1
        try:
            g, w = np.asarray(got), np.asarray(want)
            ok = g.shape == w.shape and bool(np.all(g == w))
        except ValueError:      # ragged
            ok = _ragged_eq(got, want)
        if not ok:
            self.fail(key, f"{msg} got={_short(got, 500)} want={_short(want, 500)}")
        return ok

    def close(self, key, got, want, tol=1e-8, msg="", scale=None):
        """max|got-want| <= tol*(1+max|want|) (scale overrides 1+max|want|)"""
        self.n_expect += 1
        try:
            g = np.asarray(got.todense() if hasattr(got, "todense") else got, dtype=float)
            w = np.asarray(want.todense() if hasattr(want, "todense") else want, dtype=float)
        except Exception as e:  # noqa: BLE001
            self.fail(key, f"{msg} not numeric: {e!r} got={_short(got)}")
            return False
        if g.shape != w.shape:
            self.fail(key, f"{msg} shape got={g.shape} want={w.shape}")
            return False
        if g.size == 0:
            return True
        if not np.array_equal(np.isfinite(g), np.isfinite(w)):
            self.fail(key, f"{msg} finiteness differs got={_short(g, 500)} want={_short(w, 500)}")
            return False
        fin = np.isfinite(w)
        if not fin.all():
            if not np.array_equal(g[~fin], w[~fin], equal_nan=True):
                self.fail(key, f"{msg} non-finite values differ got={_short(g, 300)} want={_short(w, 300)}")
                return False
            if not fin.any():
                return True
            g, w = g[fin], w[fin]
        s = scale if scale is not None else 1.0 + np.max(np.abs(w))
        err = np.max(np.abs(g - w))
        if not err <= tol * s:
            self.fail(key, f"{msg} err={err:.3g} tol={tol * s:.3g} got={_short(g, 500)} want={_short(w, 500)}")
            return False
        return True

    def call(self, key, f, *a, **k):
        """run real code that gives a value; an exception or no value is a recorded failure"""
        self.n_expect += 1
        try:
            r = f(*a, **k)
            if r is None:
                self.fail(key, "returned None")
            return r
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            loc = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else "?"
            self.fail(key, f"raised {type(e).__name__}: {e} at {loc}")
            return None

    def do(self, key, f, *a, **k):
        """run a procedure; an exception is a recorded failure, after which the execution ends"""
        self.n_expect += 1
        n = len(self.fails)
        r = self.call(key, lambda: (f(*a, **k),))
        if len(self.fails) > n and r is None:
            raise Stop()
        return r[0]

    def must(self, key, f, *a, **k):
        return self.do(key, f, *a, **k)

    def outcome(self, *obj):
        self.outcomes.add(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest())


_TRACK = None      # shared memory: [executions started, depth, picks ...] of this worker
EXEC_LIMIT_S = float(os.environ.get("VERIF_EXEC_LIMIT", "240"))    # one execution; far above normal
TOTAL_LIMIT_S = float(os.environ.get("VERIF_TOTAL_LIMIT", "0"))


def run_one(prop, driver, body, prefix, cut=None):
    ck = Ck(prop, driver, prefix, cut)
    status = "done"
    if _TRACK is not None:
        _TRACK[0] += 1
        _TRACK[1] = 0
    try:
        body(ck)
    except Prune:
        status = "pruned"
    except Stop:
        status = "done"
    except Cut:
        status = "cut"
    except Exception as e:  # noqa: BLE001  real code (or driver) blew up
        ck.fail("exception:" + type(e).__name__, "".join(traceback.format_exception(e))[-1500:])
    return ck, status


def _new_stats():
    return dict(states=0, transitions=0, traces=0, pruned=0, expects=0, fails=[], outcomes=set(),
                samples=[], nfail=collections.Counter())


def _merge(a, b):
    for k in ("states", "transitions", "traces", "pruned", "expects"):
        a[k] += b[k]
    a["fails"] += b["fails"]
    a["outcomes"] |= b["outcomes"]
    a["samples"] += b["samples"][:1]
    a["nfail"] += b["nfail"]
    return a


MAXFAIL_PER_KEY = 2


def _dfs(prop, driver, body, root):
    """explore every extension of prefix `root` (root itself not counted)"""
    st = _new_stats()
    prefix = list(root)
    base = len(root)
    prev = None
    while True:
        ck, status = run_one(prop, driver, body, prefix)
        # nodes newly reached compared with the previous execution
        if prev is None:
            common = base
        else:
            common = len(prefix) - 1
        new = len(ck.picks) - common
        st["transitions"] += max(new, 0)
        st["states"] += max(new, 0)
        if status == "pruned":
            st["pruned"] += 1
        else:
            st["traces"] += 1
        st["expects"] += ck.n_expect
        st["outcomes"] |= ck.outcomes
        for f in ck.fails:
            st["nfail"][f[0]] += 1
            if st["nfail"][f[0]] <= MAXFAIL_PER_KEY:
                st["fails"].append((driver,) + f)
        if not st["samples"] and status == "done":
            st["samples"].append(dict(driver=driver, picks=ck.labels))
        prev = ck
        # backtrack
        picks, counts = ck.picks, ck.counts
        d = len(picks) - 1
        while d >= base and picks[d] + 1 >= counts[d]:
            d -= 1
        if d < base:
            return st
        prefix = picks[:d] + [picks[d] + 1]


class _Proc:
    """forked worker; survives nothing, but its death is observed"""

    def __init__(self, prop, driver, body):
        self.track = np.frombuffer(mmap.mmap(-1, 8 * 64), dtype=np.int64)
        self.job = None
        self.dead = False
        self.conn, child = mp.Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            global _TRACK
            code = 0
            try:
                self.conn.close()
                _TRACK = self.track
                while True:
                    root = child.recv()
                    if root is None:
                        break
                    child.send(_dfs(prop, driver, body, root))
            except (EOFError, BrokenPipeError):      # the parent has stopped listening
                code = 3
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                os._exit(code)
        child.close()

    def send(self, root):
        self.job, self.t, self.seen = root, time.time(), -1
        self.conn.send(root)

    def picks(self):
        return [int(x) for x in self.track[2:2 + int(self.track[1])]]

    def stop(self):
        try:
            self.conn.close()
        except OSError:
            pass
        try:
            os.kill(self.pid, 9)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def _labels(prop, driver, body, picks):
    return [("pick", str(p)) for p in picks]


def _pool(prop, driver, body, jobs, procs, deadline):
    """run all jobs in forked workers -> (merged stats, complete?)"""
    st = _new_stats()
    jobs = list(jobs)
    ws = [_Proc(prop, driver, body) for _ in range(min(procs, len(jobs)))]
    complete = True
    deaths = 0
    try:
        for w in ws:
            w.send(jobs.pop(0))
        while any(w.job is not None for w in ws):
            busy = {w.conn: w for w in ws if w.job is not None}
            for c in mp.connection.wait(list(busy), timeout=1.0):
                w = busy[c]
                try:
                    r = c.recv()
                    _merge(st, r)
                    w.job = None
                except (EOFError, ConnectionResetError, OSError):
                    picks = w.picks()
                    st["fails"].append((driver, "process-died", "the process running the code under test died "
                                        "(memory corruption, abort or signal)", picks, _labels(prop, driver, body, picks)))
                    st["nfail"]["process-died"] += 1
                    w.job, w.dead = None, True
                    deaths += 1
            now = time.time()
            for w in ws:
                if w.job is None:
                    continue
                n = int(w.track[0])
                if n != w.seen:
                    w.seen, w.t = n, now
                elif now - w.t > EXEC_LIMIT_S:
                    picks = w.picks()
                    st["fails"].append((driver, "no-termination", f"one execution did not finish within {EXEC_LIMIT_S:.0f} s",
                                        picks, _labels(prop, driver, body, picks)))
                    st["nfail"]["no-termination"] += 1
                    w.job, w.dead = None, True
                    deaths += 1
            if deadline and now > deadline:
                complete = False
                break
            for i, w in enumerate(ws):
                if w.job is None and jobs and deaths < 12:
                    if w.dead:
                        w.stop()
                        ws[i] = w = _Proc(prop, driver, body)
                    w.send(jobs.pop(0))
    finally:
        for w in ws:
            w.stop()
    return st, complete and not jobs


def _split(prop, driver, body, want):
    """prefixes covering the whole tree, breadth first until >= want"""
    frontier, done, depth = [()], [], 0
    nodes = 0
    while frontier and len(frontier) + len(done) < want and depth < 12:
        nxt = []
        for p in frontier:
            ck, status = run_one(prop, driver, body, p, cut=len(p))
            if status != "cut":
                done.append(p)
                continue
            n = ck.counts[len(p)]
            nodes += n
            nxt += [p + (i,) for i in range(n)]
        frontier, depth = nxt, depth + 1
    return done + frontier, nodes


def _split_child(conn, *a):
    try:
        conn.send(_split(*a))
    finally:
        conn.close()
        os._exit(0)


def _split_safe(prop, driver, body, want):
    """_split in a child, so that a crash of the code under test cannot end the checker"""
    a, b = mp.Pipe()
    pid = os.fork()
    if pid == 0:
        a.close()
        _split_child(b, prop, driver, body, want)
    b.close()
    try:
        if not a.poll(EXEC_LIMIT_S):
            raise RuntimeError("split timed out")
        return a.recv()
    except EOFError as e:
        raise RuntimeError("split died") from e
    finally:
        try:
            os.kill(pid, 9)
        except OSError:
            pass
        os.waitpid(pid, 0)
        a.close()


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.stats = _new_stats()
        self.stats["states"] = 0
        self.per = {}
        self.assumptions = []
        self.extra = {}
        self.exhaustive = True
        self.skipped = []
        self.only = set(filter(None, os.environ.get("VERIF_ONLY", "").split(",")))
        lim = TOTAL_LIMIT_S or (780.0 if tier == "quick" else 0.0)
        self.deadline = self.t0 + lim if lim else None

    def warm(self, f, *a, **k):
        """run once before forking (compiles jitted code); failures surface later"""
        try:
            f(*a, **k)
        except Exception:  # noqa: BLE001
            pass

    def explore(self, name, body, procs=None, split=None, warm=True):
        """run `body` for every sequence of its choices"""
        t = time.time()
        if self.only and name not in self.only:
            return
        procs = procs or min(8, os.cpu_count() or 1)
        if self.deadline and t > self.deadline:
            self.exhaustive = False
            self.skipped.append(name)
            return
        if warm:      # first path in this process, so that jitted code is compiled once, then forked
            self.warm(run_one, self.prop, name, body, warm if isinstance(warm, (list, tuple)) else ())
        try:
            jobs, nodes = _split_safe(self.prop, name, body, split or procs * 6)
        except RuntimeError:
            jobs, nodes = [()], 0
        st = _new_stats()
        st["states"] = 1 + nodes
        st["transitions"] = nodes
        r, complete = _pool(self.prop, name, body, jobs, procs, self.deadline)
        _merge(st, r)
        if not complete:
            self.exhaustive = False
            self.skipped.append(name)
        st["samples"] = st["samples"][:1]
        self.add(name, st, time.time() - t)

    def add(self, name, st, wall):
        self.per[name] = dict(states=st["states"], transitions=st["transitions"], executions=st["traces"],
                              pruned=st["pruned"], comparisons=st["expects"],
                              distinct_outcomes=len(st["outcomes"]), wall_s=round(wall, 2))
        print(f"[{self.prop}] {name}: states={st['states']} transitions={st['transitions']} "
              f"executions={st['traces']} comparisons={st['expects']} outcomes={len(st['outcomes'])} "
              f"fails={sum(st['nfail'].values())} {wall:.1f}s", flush=True)
        keep = self.stats["samples"] + st["samples"]
        _merge(self.stats, st)
        self.stats["samples"] = keep

    # ------------------------------------------------------------------
    def finish(self):
        known = load_known(self.prop)
        bad, seen_known = [], {}
        for driver, key, msg, picks, labels in self.stats["fails"]:
            full = f"{driver}/{key}"
            if full in known:
                seen_known.setdefault(full, known[full])
            else:
                bad.append((driver, key, msg, picks, labels))
        s = self.stats
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level="model_checking",
                  coverage=dict(states=s["states"], transitions=s["transitions"],
                                traces_validated_against_impl=s["traces"],
                                comparisons=s["expects"],
                                distinct_outcomes=len(s["outcomes"]),
                                pruned=s["pruned"],
                                drivers=self.per,
                                samples=s["samples"] or [dict(note="no execution completed")],
                                rule="stateless model checking of the real code: every sequence of picks of every "
                                     "driver is executed on the implementation and compared with a dense reference "
                                     "model; states are the nodes of the choice tree, transitions its edges, traces "
                                     "the complete executions",
                                incomplete_drivers=self.skipped, exhaustive=bool(self.exhaustive), **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(bad))
        d = HERE / "evidence"
        d.mkdir(exist_ok=True)
        (d / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        for k, what in sorted(seen_known.items()):
            print(f"KNOWN-FINDING: property={self.prop} {k} {what}")
        done = set()
        rd = HERE / "replays" / self.prop
        n = 0
        for driver, key, msg, picks, labels in bad:
            if (driver, key) in done:
                continue
            done.add((driver, key))
            n += 1
            if n > 25:
                break
            rd.mkdir(parents=True, exist_ok=True)
            h = hashlib.sha1(repr((driver, key, picks)).encode()).hexdigest()[:12]
            f = rd / f"{h}.json"
            f.write_text(json.dumps(dict(property=self.prop, tier=self.tier, seed=SEED, driver=driver, key=key,
                                         picks=picks, labels=labels, message=msg,
                                         how="bash /verif/run.sh replay " + str(f)), indent=1, default=str))
            print(f"  {driver}/{key}: {msg[:600]}")
            print(f"    picks: {labels}")
            print(f"VIOLATION property={self.prop} replay={f}", flush=True)
        print(f"[{self.prop}] {self.tier}: states={s['states']} transitions={s['transitions']} "
              f"executions={s['traces']} comparisons={s['expects']} violations={len(bad)} "
              f"wall={time.time() - self.t0:.1f}s")
        return 1 if bad else 0


def load_known(prop):
    """lines:  known: property=<id> key=<driver/key> <what>   |  fixed: property=<id> <commit> <what>"""
    out = {}
    f = HERE / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if line.startswith("known:"):
                parts = line[len("known:"):].split(None, 2)
                if parts[0] == f"property={prop}" and parts[1].startswith("key="):
                    out[parts[1][4:]] = parts[2] if len(parts) > 2 else ""
    return out
