"""
Runner for the property checks: hypothesis generates and shrinks the cases,
persistent Jython workers (jy/run.sh) execute them on the code in /repo, the
oracles run here.

usage: python3-vt /verif/check.py C01            (VERIF_SEED, VERIF_TIER)
       python3-vt /verif/check.py C01 --replay FILE
       python3-vt /verif/check.py C01 --only TEST [--n CASES]
"""
import hashlib
import json
import multiprocessing
import os
import queue
import select
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = int(os.environ.get("VERIF_JOBS", "6"))
SHRINK_S = 40
HANG_S = 200
BUDGET_S = {"quick": 420, "thorough": 3000}


class Violation(Exception):
    """the code broke the property on this case; finding: signature of a
    class of failures, for the known-findings file"""
    def __init__(self, msg, finding=None):
        Exception.__init__(self, msg)
        self.finding = finding


class HarnessError(Exception):
    pass


class Hang(Violation):
    """the code under test did not return from a call that takes milliseconds"""


class Discard(Exception):
    """the case is outside the domain of the property"""


class _Stop(BaseException):
    pass


def require(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def expect_eq(got, want, what):
    if not same(got, want):
        raise Violation("%s: got %s, expected %s" % (what, short(got), short(want)))


def same(a, b):
    """equality that separates bool from int and equates NaN with itself"""
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a == b


def short(x, n=600):
    s = x if isinstance(x, str) else json.dumps(x, default=repr)
    return s if len(s) <= n else s[:n] + "...(%d)" % len(s)


class Worker:
    """a Jython process with the code in /repo loaded"""
    def __init__(self, modules):
        self.modules = modules
        self.dir = tempfile.mkdtemp(prefix="vp-")
        self.err = open(os.path.join(self.dir, "stderr"), "w+b")
        env = dict(os.environ, VERIF_SCRATCH=self.dir)
        self.p = subprocess.Popen([os.path.join(VERIF, "jy", "run.sh")] + modules,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, cwd=self.dir, env=env)
        self.calls = 0
        self._read()

    def _read(self):
        # unbuffered reads: one reply per request, so nothing is left over
        if not select.select([self.p.stdout], [], [], HANG_S)[0]:
            self.p.kill()
            raise Hang("no answer in %d s" % HANG_S)
        line = self.p.stdout.readline()
        if not line:
            self.err.seek(0)
            e = self.err.read().decode("utf-8", "replace")[-3000:]
            raise HarnessError("worker died: %s" % e)
        return json.loads(line)

    def call(self, op, a, seed="0", now=1500000000.0):
        self.calls += 1
        self.p.stdin.write(json.dumps(dict(op=op, a=a, seed=str(seed), now=now)).encode("ascii") + b"\n")
        self.p.stdin.flush()
        r = self._read()
        if "ok" in r:
            return r["ok"]
        name, msg, tb = r["exc"]
        if _in_repo(tb):
            raise Violation("%s: unexpected %s: %s\n%s" % (op, name, msg, _tail(tb)),
                            finding="exception:" + name)
        raise HarnessError("%s: %s: %s\n%s" % (op, name, msg, tb))

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.err.close()
        subprocess.call(["rm", "-rf", self.dir])


def _in_repo(tb):
    """whether the exception came out of the code under test (the deepest
    frame that is not a library is in /repo)"""
    frames = [l for l in tb.splitlines() if l.strip().startswith("File ")]
    for l in reversed(frames):
        if "/repo/privcount/" in l:
            return True
        if "/verif/jy/" in l and "/verif/jy/shim/" not in l and "/verif/jy/world" not in l:
            return False
    return False


def _tail(tb, n=12):
    return "\n".join(tb.strip().splitlines()[-n:])


class Test:
    def __init__(self, name, strategy, run, quick, thorough=None, shards=1, jy=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.n = {"quick": quick, "thorough": thorough or quick * 10}
        self.shards = shards
        self.jy = jy


class Check:
    def __init__(self, prop, tests, jy, rule, assumptions=(), level="exploration"):
        self.prop, self.tests, self.jy, self.rule = prop, tests, jy, rule
        self.assumptions = list(assumptions)
        self.level = level


def canon(case):
    return json.dumps(case, sort_keys=True, default=repr)


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        items = json.load(open(path))["findings"]
    except FileNotFoundError:
        return []
    return [i for i in items if i["property"] == prop and i.get("status") == "known"]


def run_case(test, case, worker):
    try:
        out = test.run(case, worker)
    except (LookupError, TypeError, ValueError, AttributeError, AssertionError, ArithmeticError):
        # the program answered with something no oracle expects
        raise Violation("the result has an unexpected form: %s" % traceback.format_exc(limit=-3))
    if out is None:
        return True, []
    if isinstance(out, bool):
        return out, []
    return out


def _shard(check, test, shard, n, seed, q, budget, known):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGTERM, lambda *a: os._exit(1))
    os.environ["PYTHONHASHSEED"] = "0"
    import random
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    stats = dict(test=test.name, shard=shard, evaluations=0, discarded=0, nontrivial=[],
                 labels={}, samples=[], violation=None, error=None, known={}, truncated=False)
    worker = None
    fails = []          # (len, case, msg)
    history = []        # cases run on this worker
    first_fail = [None]
    t0 = time.time()
    seen = set()
    try:
        worker = Worker(test.jy or check.jy)

        def body(case):
            if time.time() - t0 > budget and first_fail[0] is None:
                stats["truncated"] = True
                raise _Stop
            if first_fail[0] is not None and time.time() - first_fail[0] > SHRINK_S:
                raise _Stop
            case = json.loads(json.dumps(case))
            history.append(case)
            try:
                nontrivial, labels = run_case(test, case, worker)
            except Discard:
                stats["discarded"] += 1
                hypothesis.reject()
            except Violation as e:
                if e.finding is not None and e.finding in known:
                    stats["known"][e.finding] = stats["known"].get(e.finding, 0) + 1
                    stats["evaluations"] += 1
                    return
                if first_fail[0] is None:
                    first_fail[0] = time.time()
                fails.append((len(canon(case)), case, str(e), len(history)))
                raise
            except Exception:
                stats["error"] = traceback.format_exc() + "\ncase: " + short(canon(case), 3000)
                raise _Stop
            if first_fail[0] is not None:
                return
            stats["evaluations"] += 1
            for l in labels:
                stats["labels"][l] = stats["labels"].get(l, 0) + 1
            if nontrivial:
                c = canon(case)
                h = hashlib.sha1(c.encode()).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    if len(stats["samples"]) < 2 or (len(seen) in (20, 200) and len(stats["samples"]) < 4):
                        stats["samples"].append(short(c, 1500))

        f = given(test.strategy)(body)
        f = settings(max_examples=n, deadline=None, database=None,
                     phases=[Phase.generate] + [Phase.shrink] * ("VERIF_NOSHRINK" not in os.environ),
                     suppress_health_check=list(HealthCheck), print_blob=False,
                     report_multiple_bugs=False)(f)
        f = hypothesis.seed(seed * 1000003 + shard * 7919 + _name_seed(test.name))(f)
        try:
            f()
        except (_Stop, Violation):
            pass
        except hypothesis.errors.HypothesisException:
            if not fails:
                raise
        if fails:
            stats["violation"] = _confirm(check, test, fails, history)
    except BaseException:
        stats["error"] = traceback.format_exc()
    finally:
        stats["nontrivial"] = sorted(seen)
        stats["wall"] = time.time() - t0
        if worker is not None:
            worker.close()
        q.put(stats)
        q.close()
        q.join_thread()


def _name_seed(name):
    return int(hashlib.sha1(name.encode()).hexdigest()[:8], 16)


def _confirm(check, test, fails, history):
    """re-run the smallest failing cases on a fresh worker"""
    tried = 0
    for _, case, msg, _ in sorted(fails, key=lambda x: x[0])[:3] + fails[:1]:
        w = Worker(test.jy or check.jy)
        try:
            run_case(test, case, w)
        except Violation as e:
            return dict(test=test.name, case=case, message=str(e))
        finally:
            w.close()
        tried += 1
    # only after other cases in the same process: the history is the reproduction
    upto = fails[0][3]
    w = Worker(test.jy or check.jy)
    try:
        for c in history[:upto]:
            try:
                run_case(test, c, w)
            except Violation as e:
                if c is history[upto - 1]:
                    return dict(test=test.name, history=history[:upto], message=str(e))
            except Discard:
                pass
    finally:
        w.close()
    raise HarnessError("failure did not reproduce: %s" % fails[0][2])


def main(check, argv):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    n_override = int(argv[argv.index("--n") + 1]) if "--n" in argv else None
    if "--replay" in argv:
        return replay(check, argv[argv.index("--replay") + 1])
    t0 = time.time()
    known = known_findings(check.prop)
    kset = {k["finding"] for k in known}
    tasks = []
    for t in check.tests:
        if only and t.name != only:
            continue
        total = n_override or t.n[tier]
        shards = t.shards if tier == "quick" else max(t.shards, min(JOBS, total // 50 or 1))
        for s in range(shards):
            tasks.append((t, s, max(1, total // shards)))
    # longest first
    q = multiprocessing.Queue()
    pending = list(tasks)
    running = {}
    results = []
    bad = None
    budget = BUDGET_S[tier]
    while (pending or running) and bad is None:
        while pending and len(running) < JOBS:
            t, s, n = pending.pop(0)
            p = multiprocessing.Process(target=_shard, args=(check, t, s, n, seed, q, budget, kset))
            p.start()
            running[(t.name, s)] = p
        try:
            st = q.get(timeout=5)
        except queue.Empty:
            for k, p in list(running.items()):
                if not p.is_alive():
                    try:
                        st = q.get(timeout=1)
                    except queue.Empty:
                        bad = dict(error="shard %s died (exit %s)" % (k, p.exitcode), violation=None)
                        break
                    break
            else:
                continue
            if bad is not None:
                break
        p = running.pop((st["test"], st["shard"]), None)
        results.append(st)
        if st["violation"] or st["error"]:
            bad = st
        if p is not None:
            p.join(30)
    if bad is not None:
        # a violation elsewhere is worth more than a harness error
        if not bad["violation"]:
            end = time.time() + 60
            while running and time.time() < end:
                try:
                    st = q.get(timeout=2)
                except queue.Empty:
                    if not any(p.is_alive() for p in running.values()):
                        break
                    continue
                running.pop((st["test"], st["shard"]), None)
                results.append(st)
                if st["violation"]:
                    bad = st
                    break
        for p in running.values():
            _kill_tree(p)
    violations = 1 if bad is not None and bad.get("violation") else 0
    ev = evidence(check, results, tier, seed, time.time() - t0, violations)
    if only is None:
        write_evidence(check, ev)
    for l, c in sorted(ev["coverage"]["classes"].items()):
        print("  %-60s %d" % (l, c))
    print("%s: %d cases, %d distinct non-trivial, %d discarded, %.1f s" % (
        check.prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"],
        ev["coverage"]["discarded"], ev["wall_s"]))
    if violations:
        v = bad["violation"]
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (check.prop, v["test"]))
        with open(path, "w") as f:
            json.dump(dict(property=check.prop, **v), f, indent=1, sort_keys=True)
        print(v["message"])
        print("case: " + short(v.get("case", "(history)"), 3000))
        print("VIOLATION property=%s replay=%s" % (check.prop, path))
        return 1
    if bad is not None:
        print("check error:\n" + str(bad["error"]), file=sys.stderr)
        return 2
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (check.prop, k["what"]))
    return 0


def _kill_tree(p):
    try:
        kids = subprocess.run(["pgrep", "-P", str(p.pid)], capture_output=True, text=True).stdout.split()
        p.terminate()
        for k in kids:
            os.kill(int(k), signal.SIGKILL)
    except Exception:
        pass
    p.join(5)


def evidence(check, results, tier, seed, wall, violations):
    nontrivial = set()
    labels, known, per_test, samples = {}, {}, {}, []
    for r in results:
        nontrivial.update((r["test"], h) for h in r["nontrivial"])
        for k, v in r["labels"].items():
            labels[r["test"] + ": " + k] = labels.get(r["test"] + ": " + k, 0) + v
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        per_test[r["test"]] = per_test.get(r["test"], 0) + r["evaluations"]
        if r["shard"] == 0:
            samples.extend(dict(test=r["test"], case=s) for s in r["samples"])
    return dict(property=check.prop, tier=tier, seed=seed, level=check.level,
                coverage=dict(evaluations=sum(r["evaluations"] for r in results),
                              distinct_nontrivial=len(nontrivial), rule=check.rule,
                              samples=samples[:24], classes=labels, cases_per_test=per_test,
                              discarded=sum(r["discarded"] for r in results),
                              excluded_known=known,
                              truncated_shards=sum(1 for r in results if r["truncated"])),
                assumptions=check.assumptions, wall_s=round(wall, 2), violations=violations)


def write_evidence(check, ev):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, check.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)


def replay(check, path):
    v = json.load(open(path))
    test = [t for t in check.tests if t.name == v["test"]][0]
    w = Worker(test.jy or check.jy)
    try:
        cases = v["history"] if "history" in v else [v["case"]]
        for c in cases:
            try:
                run_case(test, c, w)
            except Violation as e:
                if c is cases[-1]:
                    print(str(e))
                    print("VIOLATION property=%s replay=%s" % (check.prop, path))
                    return 1
            except Discard:
                pass
    finally:
        w.close()
    print("the case passes")
    return 0
