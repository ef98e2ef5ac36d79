"""Runs the units of a property over worker processes and reports."""
import importlib
import json
import os
import queue
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import zlib

import numpy as np

from .core import Ctx, Violation, jdump

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
BUDGET = {"quick": 330.0, "thorough": 5400.0}  # soft: stop generating further cases
UNIT_HARD = {"quick": 300.0, "thorough": 3600.0}  # a unit with no answer for so long is killed
CASE_HARD = 150.0  # one case alone, fresh process (normal: a few seconds, compilation included)
CRASH_SIGNALS = (-11, -7, -6, -8, -4, -9)


# A result the oracle cannot even compare (wrong type, ragged, not a number ...) is a wrong result.
UNJUDGED = (ValueError, TypeError, IndexError, ArithmeticError, MemoryError, np.linalg.LinAlgError)
MEMORY = 6 << 30  # per worker; a normal one stays below 1 GB


def unjudged(e, ctx):
    if not ctx.called:
        return None  # nothing of the code under test involved yet
    if isinstance(e, MemoryError):
        return Violation("the memory needed grew beyond %d GB" % (MEMORY >> 30))
    return Violation("the result cannot be compared with the expected one (%s: %s)" % (type(e).__name__, str(e)[:300]))


def limit_memory():
    resource.setrlimit(resource.RLIMIT_DATA, (MEMORY, MEMORY))


def load(pid):
    return importlib.import_module("vp.props." + pid.lower())


def seed_of():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return zlib.crc32(os.environ["VERIF_SEED"].encode())


# ------------------------------------------------------------------ worker side


def run_unit(unit, tier, seed, journal, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as ce

    ce.MAX_SHRINKING_SECONDS = 25
    ctx = Ctx()
    fails = []
    truncated = [0]
    jf = open(journal, "w+")

    def body(case):
        if time.time() > deadline and not fails:
            truncated[0] += 1
            return
        s = jdump(case)
        jf.seek(0)
        jf.write(s)
        jf.truncate()
        jf.flush()
        ctx.begin()
        try:
            unit.check(case, ctx)
        except Violation as v:
            fails.append((jdump(v.case) if v.case is not None else s, str(v)))
            raise
        except UNJUDGED as e:
            v = unjudged(e, ctx)
            if v is None:
                raise
            fails.append((s, str(v)))
            raise v from e
        ctx.end(case)

    n = unit.n[tier]
    test = given(unit.strategy())(body)
    test = settings(
        max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
        print_blob=False, derandomize=False, verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(zlib.crc32(("%s|%d" % (unit.name, seed)).encode()))(test)
    err = None
    try:
        test()
    except Violation:
        pass
    except Exception:  # noqa: BLE001
        if not fails:
            err = traceback.format_exc()
    jf.close()
    res = dict(unit=unit.name, evaluations=ctx.evaluations, calls=ctx.calls,
               seen=sorted(ctx.seen), labels=dict(ctx.labels), samples=ctx.samples,
               truncated=truncated[0], error=err)
    if fails:
        # the last failure is hypothesis' minimal one (or, if the failure is not
        # deterministic, the last one observed)
        s, msg = fails[-1]
        res["violation"] = dict(case=json.loads(s), message=msg, failures_seen=len(fails))
    return res


def worker_main(argv):
    pid, tier, seed, journal, deadline = argv
    seed = int(seed)
    mod = load(pid)
    units = {u.name: u for u in mod.units(tier, seed)}
    limit_memory()
    proto = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # anything printed by the code under test goes to stderr
    sys.stdout = sys.stderr
    for line in sys.stdin:
        name = line.strip()
        t = time.time()
        try:
            r = run_unit(units[name], tier, seed, journal, float(deadline))
        except BaseException:  # noqa: BLE001
            r = dict(unit=name, error=traceback.format_exc(), evaluations=0, calls=0,
                     seen=[], labels={}, samples=[], truncated=0)
        r["wall"] = time.time() - t
        proto.write(json.dumps(r) + "\n")
        proto.flush()
    return 0


def replay_main(argv):
    """Run one case without hypothesis: exit 0 holds, 1 violated, 2 error."""
    path = argv[0]
    d = json.load(open(path))
    mod = load(d["property"])
    units = {u.name: u for u in mod.units(d["tier"], d["seed"])}
    unit = units[d["unit"]]
    ctx = Ctx()
    ctx.begin()
    limit_memory()
    try:
        unit.check(d["case"], ctx)
    except Violation as v:
        print("violated: %s" % v)
        return 1
    except UNJUDGED as e:
        v = unjudged(e, ctx)
        if v is None:
            traceback.print_exc()
            return 2
        print("violated: %s" % v)
        return 1
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        return 2
    print("holds on this case")
    return 0


# ------------------------------------------------------------------ parent side


class Slot(threading.Thread):
    def __init__(self, run, idx):
        super().__init__(daemon=True)
        self.run_, self.idx = run, idx
        self.proc = None

    def start_worker(self, uenv):
        r = self.run_
        self.uenv = uenv
        self.journal = os.path.join(r.tmp, "journal%d.json" % self.idx)
        env = r.child_env()
        env.update(uenv)
        self.proc = subprocess.Popen(
            [sys.executable, "-B", os.path.join(HERE, "check.py"), "--worker", r.pid, r.tier, str(r.seed),
             self.journal, repr(r.deadline)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=open(os.path.join(r.tmp, "err%d.txt" % self.idx), "ab"),
            env=env, text=True, cwd=r.tmp,
        )

    def run(self):
        r = self.run_
        try:
            while not r.stop.is_set():
                try:
                    unit = r.todo.get_nowait()
                except queue.Empty:
                    break
                uenv = r.uenv[unit]
                if self.proc is not None and self.proc.poll() is None and uenv != self.uenv:
                    self.proc.stdin.close()
                    self.proc.wait()
                if self.proc is None or self.proc.poll() is not None:
                    self.start_worker(uenv)
                r.busy[self.idx] = (time.time(), unit)
                try:
                    self.proc.stdin.write(unit + "\n")
                    self.proc.stdin.flush()
                except (BrokenPipeError, OSError):
                    pass
                line = self.proc.stdout.readline()
                r.busy.pop(self.idx, None)
                if r.stop.is_set() and not line:
                    break
                if line:
                    r.on_result(json.loads(line))
                else:
                    rc = self.proc.wait()
                    r.on_death(unit, rc, self.journal, self.idx)
                    self.proc = None
        except Exception:  # noqa: BLE001
            r.errors.append(traceback.format_exc())
        finally:
            if self.proc is not None:
                try:
                    self.proc.stdin.close()
                except OSError:
                    pass
                try:
                    self.proc.wait(timeout=10)
                except subprocess.TimeoutExpired:
                    self.proc.kill()


class Run:
    def __init__(self, pid, tier, seed, only=None, workers=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="vp_%s_" % pid)
        self.mod = load(pid)
        us = self.mod.units(tier, seed)
        names = [u.name for u in us]
        assert len(set(names)) == len(names), "duplicate unit names"
        if only:
            us = [u for u in us if only in u.name]
        # keep units with the same environment together (they share workers), expensive ones first
        top = {}
        for u in us:
            k = tuple(sorted(u.env.items()))
            top[k] = max(top.get(k, 0), u.cost)
        us = sorted(us, key=lambda u: (-top[tuple(sorted(u.env.items()))], tuple(sorted(u.env.items())), -u.cost))
        self.nunits = len(us)
        self.uenv = {u.name: u.env for u in us}
        self.todo = queue.Queue()
        for u in us:
            self.todo.put(u.name)
        self.workers = min(workers or int(os.environ.get("VERIF_WORKERS", "8")), max(1, len(us)))
        self.results, self.errors, self.violation = [], [], None
        self.stop = threading.Event()
        self.lock = threading.Lock()
        self.busy = {}
        self.killed_slow = {}
        self.t0 = time.time()
        self.deadline = self.t0 + BUDGET[tier]

    def child_env(self):
        env = dict(os.environ)
        env["NUMBA_CACHE_DIR"] = os.path.join(self.tmp, "numba")
        env["PYTHONPYCACHEPREFIX"] = os.path.join(self.tmp, "pyc")
        env["MPLBACKEND"] = "Agg"
        env.update(getattr(self.mod, "ENV", {}))
        return env

    def on_result(self, res):
        with self.lock:
            self.results.append(res)
            if res.get("error"):
                self.errors.append("unit %s: %s" % (res["unit"], res["error"]))
            if res.get("violation") and self.violation is None:
                self.violation = dict(res["violation"], unit=res["unit"])
                self.stop.set()

    def on_death(self, unit, rc, journal, idx):
        slow = self.killed_slow.pop(idx, None)
        try:
            case = json.load(open(journal))
        except Exception:  # noqa: BLE001
            case = None
        if case is None or (rc not in CRASH_SIGNALS and not slow):
            with self.lock:
                self.errors.append("worker for unit %s died with %s" % (unit, rc))
                self.stop.set()
            return
        # confirm in a fresh process
        rep = os.path.join(self.tmp, "confirm%d.json" % idx)
        json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, unit=unit, case=case), open(rep, "w"))
        try:
            p = subprocess.run([sys.executable, "-B", os.path.join(HERE, "check.py"), "--run-replay", rep],
                               env=dict(self.child_env(), **self.uenv[unit]), cwd=self.tmp, capture_output=True, timeout=CASE_HARD)
            code = p.returncode
        except subprocess.TimeoutExpired:
            code = "timeout"
        msg = None
        if slow:
            if code == "timeout":
                msg = "the call did not return within %d s (alone, fresh process)" % CASE_HARD
        else:
            msg = "the process was killed by signal %d while evaluating this case" % -rc
            if rc == -9 and code not in (1, -9, "timeout"):
                msg = None  # killed from outside, not by the case
            elif code == 0:
                msg += " (not reproduced by the case alone: memory damaged by an earlier case of the unit)"
        with self.lock:
            if msg is None:
                self.errors.append("unit %s %s" % (unit, "exceeded its time limit" if slow else "was killed"))
                self.stop.set()
            elif self.violation is None:
                self.violation = dict(case=case, message=msg, unit=unit, failures_seen=1)
                self.stop.set()

    def go(self):
        slots = [Slot(self, i) for i in range(self.workers)]
        for s in slots:
            s.start()
        while any(s.is_alive() for s in slots):
            time.sleep(0.05)
            now = time.time()
            if self.stop.is_set():
                break
            for i, (t, u) in list(self.busy.items()):
                if now - t > UNIT_HARD[self.tier] and i not in self.killed_slow:
                    self.killed_slow[i] = u
                    try:
                        slots[i].proc.kill()
                    except Exception:  # noqa: BLE001
                        pass
        if self.stop.is_set():
            for s in slots:
                if s.proc is not None and s.proc.poll() is None:
                    s.proc.kill()
        for s in slots:
            s.join(timeout=CASE_HARD + 30)

    def evidence(self):
        seen = set()
        labels, samples = {}, []
        ev = calls = trunc = 0
        for r in self.results:
            ev += r["evaluations"]
            calls += r["calls"]
            trunc += r["truncated"]
            seen.update((r["unit"], h) for h in r["seen"])
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
        for r in sorted(self.results, key=lambda r: r["unit"]):
            for s in r["samples"][-1:]:
                samples.append("%s: %s" % (r["unit"], s))
        step = max(1, len(samples) // 12)
        cov = dict(
            evaluations=ev, distinct_nontrivial=len(seen), rule=self.mod.RULE,
            samples=samples[::step][:14], calls_of_code_under_test=calls,
            units_run=len(self.results), units_planned=self.nunits,
            cases_skipped_by_time_budget=trunc,
            labels=dict(sorted(labels.items())),
        )
        return dict(
            property=self.pid, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
            assumptions=list(getattr(self.mod, "ASSUMPTIONS", [])),
            wall_s=round(time.time() - self.t0, 2),
            violations=1 if self.violation else 0,
        )


def main(argv):
    if argv and argv[0] == "--worker":
        return worker_main(argv[1:])
    if argv and argv[0] == "--run-replay":
        return replay_main(argv[1:])
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only units whose name contains this")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property.upper()
    seed = seed_of()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    if a.replay:
        tmp = tempfile.mkdtemp(prefix="vp_replay_")
        try:
            env = dict(os.environ, NUMBA_CACHE_DIR=tmp + "/numba", PYTHONPYCACHEPREFIX=tmp + "/pyc")
            env.update(getattr(load(pid), "ENV", {}))
            d = json.load(open(a.replay))
            for u in load(pid).units(d["tier"], d["seed"]):
                if u.name == d["unit"]:
                    env.update(u.env)
            rc = subprocess.call([sys.executable, "-B", os.path.join(HERE, "check.py"), "--run-replay",
                                  os.path.abspath(a.replay)], env=env, cwd=tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if rc < 0:
            print("violated: killed by signal %d" % -rc)
        if rc == 1 or rc < 0:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        return 0 if rc == 0 else 2
    run = None
    try:
        run = Run(pid, tier, seed, only=a.only)
        run.go()
        ev = run.evidence()
        os.makedirs(EVID, exist_ok=True)
        if not a.only:
            tmpf = os.path.join(EVID, ".%s.tmp" % pid)
            with open(tmpf, "w") as f:
                json.dump(ev, f, indent=1)
            os.replace(tmpf, os.path.join(EVID, "%s.json" % pid))
        c = ev["coverage"]
        if a.v:
            for r in sorted(run.results, key=lambda r: -r["wall"])[:30]:
                print("  %-50s %6.1fs ev=%d nt=%d" % (r["unit"], r["wall"], r["evaluations"], len(r["seen"])))
            print(json.dumps(c["labels"], indent=1))
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d calls, %d/%d units, %.1f s" % (
            pid, tier, seed, c["evaluations"], c["distinct_nontrivial"], c["calls_of_code_under_test"],
            c["units_run"], c["units_planned"], ev["wall_s"]))
        if run.violation:
            v = run.violation
            rd = os.path.join(EVID, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s-%d.json" % (pid, tier, seed))
            with open(path, "w") as f:
                json.dump(dict(property=pid, tier=tier, seed=seed, unit=v["unit"], case=v["case"],
                               message=v["message"], how="python3 check.py %s --replay %s" % (pid, path)), f, indent=1)
            print("unit %s: %s" % (v["unit"], v["message"]))
            print("case: %s" % jdump(v["case"])[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        if run.errors:
            for e in run.errors[:3]:
                print("CHECK-ERROR %s" % e, file=sys.stderr)
            return 2
        if len(run.results) != run.nunits:
            print("CHECK-ERROR only %d of %d units answered" % (len(run.results), run.nunits), file=sys.stderr)
            return 2
        return 0
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        return 2
    finally:
        if run is not None:
            if os.environ.get("VERIF_KEEP"):
                print("kept", run.tmp)
            else:
                shutil.rmtree(run.tmp, ignore_errors=True)
