'''The monitoring harness: runs generated cases against the real code, watches them, and reports.'''
import collections
import gc
import hashlib
import importlib
import itertools
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO_SRC = os.environ.get("MON_REPO_SRC", "/repo/src")     # another tree is for development only
SHARDS = int(os.environ.get("MON_SHARDS", "8"))
SCALE = float(os.environ.get("MON_SCALE", "1"))             # for development: fewer cases, no required events
CASE_SECONDS = 40           # of processor time; after this a case is re-run under a step budget, which decides
STEP_BUDGET = 300_000_000   # executed lines of /repo/src per case
MEMORY = 2 << 30            # bytes a shard may use
LAST_SECONDS = 240          # of processor time, for what hangs without executing lines of /repo/src


class Violation(Exception):
    '''The code under test broke the property.  `key` identifies the mechanism, for known findings.'''
    def __init__(self, msg, key=None):
        super().__init__(msg if len(msg) <= 3000 else msg[:1500] + " ... " + msg[-1500:])
        self.key = key


class TooLong(BaseException):
    pass


class Mon:
    '''What the monitors observed.'''
    def __init__(self):
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.evaluations = 0
        self.nontrivial = False
        self.sample = None

    def ev(self, name, n=1):
        self.events[name] += n

    def mark(self):
        '''The current case is non-trivial.'''
        self.nontrivial = True

    def check(self, cond, msg, *args):
        self.events["oracle_decisions"] += 1
        if not cond:
            raise Violation(msg % args if args else msg)

    def eq(self, got, want, what):
        self.events["oracle_decisions"] += 1
        if got != want:
            raise Violation(f"{what}: got {short(got)}, want {short(want)}")


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def case_hash(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).digest()


def load_real():
    sys.path.insert(0, REPO_SRC)
    sys.dont_write_bytecode = True
    import bibleref
    if not os.path.realpath(bibleref.__file__).startswith(os.path.realpath(REPO_SRC) + os.sep):
        print(f"ERROR bibleref was imported from {bibleref.__file__}, not from {REPO_SRC}")
        sys.exit(2)


def load_prop(pid):
    return importlib.import_module(f"mon.props.{pid.lower()}")


# ---------------------------------------------------------------- running one case

def _alarm(signum, frame):
    raise TooLong()


def run_case(mod, case, m):
    '''Runs a case under its watchdog; returns None or (message, key).'''
    from . import real
    seconds = getattr(mod, "CASE_SECONDS", CASE_SECONDS)
    watch(seconds)
    h = case_hash(case)
    worn = h[0] < 40 and getattr(mod, "WEAR", True)
    real.wear(h if worn else None)
    real.wears = 0
    try:
        real.reset_flags()
        mod.run(case, m)
        if real.wears:
            m.ev("cases_on_used_objects")
            m.ev("used_objects", real.wears)
        return None
    except Violation as e:
        return str(e) + (" (on objects that were used before)" if real.wears else ""), e.key
    except (TooLong, MemoryError) as e:
        full = isinstance(e, MemoryError)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-6:]))
        return f"unexpected {type(e).__name__}: {short(str(e), 300)} at {where}", None
    finally:
        watch(0)
        real.wear(None)
    if full:            # out of the handler, so that what the case held can go
        free_memory()
    return run_budgeted(mod, case)


def free_memory():
    '''After the memory of a case ran out: forget it, and allow a little more for the report.'''
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    if soft != resource.RLIM_INFINITY:
        resource.setrlimit(resource.RLIMIT_AS, (min(hard, soft + (64 << 20)), hard))
    gc.collect()


def watch(seconds):
    '''Raises TooLong after so many seconds of processor time, or four times as many of waiting; 0 for never.'''
    for sig, timer, n in ((signal.SIGPROF, signal.ITIMER_PROF, 1), (signal.SIGALRM, signal.ITIMER_REAL, 4)):
        signal.signal(sig, _alarm)
        signal.setitimer(timer, seconds * n)


class OverBudget(BaseException):
    pass


def run_budgeted(mod, case):
    '''A case that took too long is run again counting executed lines of the code under test: only a case that uses up
    a fixed number of steps (or, where it executes none, a very long time) counts as not terminating.'''
    from . import real
    mon = sys.monitoring
    tool = 3
    count = 0

    def line(code, lineno):
        nonlocal count
        if not code.co_filename.startswith(REPO_SRC):
            return mon.DISABLE
        count += 1
        if count > STEP_BUDGET:
            raise OverBudget()
    mon.use_tool_id(tool, "steps")
    mon.register_callback(tool, mon.events.LINE, line)
    mon.set_events(tool, mon.events.LINE)
    watch(LAST_SECONDS)
    h = case_hash(case)
    real.wear(h if h[0] < 40 and getattr(mod, "WEAR", True) else None)
    try:
        real.reset_flags()
        mod.run(case, Mon())
        return None
    except Violation as e:
        return str(e), e.key
    except OverBudget:
        return f"does not terminate: more than {STEP_BUDGET} lines executed for one case", None
    except TooLong:
        return f"does not terminate: no end after {LAST_SECONDS} s of processor time ({count} lines executed)", None
    except MemoryError:
        pass
    except Exception as e:
        return f"unexpected {type(e).__name__}: {short(str(e), 300)}", None
    finally:
        watch(0)
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)
        mon.restart_events()
    free_memory()
    return f"does not terminate: memory grows without bound (after {count} lines executed)", None


# ---------------------------------------------------------------- shards

def cases(mod, pid, tier, seed, shard):
    fixed = mod.fixed(tier)[::max(1, round(1 / SCALE))] if hasattr(mod, "fixed") else []
    yield from fixed[shard::SHARDS]
    for i in range(shard, int(mod.CASES[tier] * SCALE), SHARDS):
        yield mod.make(random.Random(f"{seed}/{pid}/{i}"), i, tier)


def shard_main(conn, pid, tier, seed, shard, known, at):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY + (512 << 20)))
        mod = load_prop(pid)
        m = Mon()
        out = {"violation": None, "known": []}
        r = random.Random(f"{seed}/{pid}/sample{shard}")
        seen, slowest = 0, 0
        for at.value, case in enumerate(cases(mod, pid, tier, seed, shard)):
            m.nontrivial = False
            m.evaluations += 1
            t1 = time.process_time()
            res = run_case(mod, case, m)
            slowest = max(slowest, time.process_time() - t1)
            if res is not None:
                msg, key = res
                if key is not None and key in known:
                    if key not in out["known"]:
                        out["known"].append(key)
                    continue
                if "MemoryError" in msg:
                    free_memory()
                elif "does not terminate" not in msg:
                    case = shrink(mod, case, msg)
                out["violation"] = {"case": case, "message": msg}
                break
            if m.nontrivial:
                m.distinct.add(case_hash(case))
                seen += 1
                if len(m.samples) < 2:
                    m.samples.append(case)
                elif r.random() < 2 / seen:
                    m.samples[r.randrange(2)] = case
        out.update(events=dict(m.events), distinct=m.distinct, evaluations=m.evaluations,
                   samples=m.samples, slowest=slowest)
        if hasattr(mod, "finish"):
            out["extra"] = mod.finish(m)
        conn.send(out)
    except BaseException:
        conn.send({"error": traceback.format_exc()})
    finally:
        conn.close()
        os._exit(0)


def shrink(mod, case, msg):
    '''Greedy reduction of the list-valued parts of a failing case, if the module names them.'''
    fields = getattr(mod, "SHRINK", ())
    t0 = time.time()
    for f in fields:
        changed = True
        while changed and time.time() - t0 < 10:
            changed = False
            val = case.get(f)
            if not isinstance(val, list):
                break
            for i in range(len(val)):
                c2 = dict(case)
                c2[f] = val[:i] + val[i + 1:]
                try:
                    if run_case(mod, c2, Mon()) is not None:
                        case, changed = c2, True
                        break
                except BaseException:
                    pass
                if time.time() - t0 > 10:
                    break
    return case


def known_findings(pid):
    data = json.load(open(os.path.join(VERIF, "known_findings.json")))
    return {f["key"]: f for f in data["findings"] if f["property"] == pid}


def collect(procs):
    '''The reports of the shards.  After one of a violation, the others have a few more seconds.'''
    left = {a: (i, p) for i, (p, a) in enumerate(procs)}
    outs, end = {}, None
    while left:
        ready = multiprocessing.connection.wait(list(left), None if end is None else max(0, end - time.time()))
        if not ready:
            for _, p in left.values():
                p.kill()
                p.join()
            break
        for a in ready:
            i, p = left.pop(a)
            try:
                outs[i] = a.recv()
            except EOFError:
                p.join()
                outs[i] = {"died": f"exit code {p.exitcode}"}
            p.join()
            if outs[i].get("violation") and end is None:
                end = time.time() + 5
    return [outs.get(i, {"stopped": True}) for i in range(len(procs))]


def dies(mod, case):
    '''Whether a process that runs this case alone ends without an answer.'''
    ctx = multiprocessing.get_context("fork")
    p = ctx.Process(target=alone, args=(mod, case))
    p.start()
    p.join()
    return p.exitcode != 0              # a violation, if it is not the end


def alone(mod, case):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY + (512 << 20)))
    os._exit(0 if run_case(mod, case, Mon()) is None else 1)


def main(pid, tier, seed):
    t0 = time.time()
    os.environ["PYTHONHASHSEED"] = "0"
    load_real()
    mod = load_prop(pid)
    known = known_findings(pid)
    ctx = multiprocessing.get_context("fork")
    procs = []
    ats = [ctx.Value("q", -1, lock=False) for _ in range(SHARDS)]
    for s in range(SHARDS):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=shard_main, args=(b, pid, tier, seed, s, set(known), ats[s]))
        p.start()
        b.close()
        procs.append((p, a))
    outs = collect(procs)
    for s, o in enumerate(outs):
        if o.get("died") and ats[s].value >= 0:
            case = next(itertools.islice(cases(mod, pid, tier, seed, s), ats[s].value, None))
            if dies(mod, case):
                o["violation"] = {"case": case, "message": f"the Python process dies of this case ({o['died']})"}
    errors = [o.get("error") or "a shard died: " + o["died"] for o in outs
              if "error" in o or "died" in o and "violation" not in o]
    violations = [o["violation"] for o in outs if o.get("violation")]
    outs = [o for o in outs if "events" in o]
    events = collections.Counter()
    distinct = set()
    for o in outs:
        events.update(o["events"])
        distinct |= o["distinct"]
    cov = {
        "evaluations": sum(o["evaluations"] for o in outs),
        "distinct_nontrivial": len(distinct),
        "rule": mod.RULE,
        "samples": [c for o in outs for c in o["samples"]][:5],
        "events": dict(sorted(events.items())),
        "slowest_case_cpu_s": round(max([o["slowest"] for o in outs], default=0), 2),
    }
    if hasattr(mod, "merge"):
        cov.update(mod.merge([o["extra"] for o in outs if "extra" in o]))
    missing = {k: (events[k], n) for k, n in getattr(mod, "REQUIRED", {}).items() if events[k] < n and SCALE == 1}
    if missing:
        cov["missing_events"] = {k: list(v) for k, v in missing.items()}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
              "the reference model in mon/model.py and mon/canon.json is right",
              "behaviour outside the generated workloads is not observed"],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in sorted({k for o in outs for k in o["known"]}):
        print(f"KNOWN-FINDING: property={pid} {known[k]['what']}")
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for v in violations[:3]:
            body = json.dumps({"property": pid, "case": v["case"], "message": v["message"]}, indent=1)
            path = os.path.join(VERIF, "replays", f"{pid}-{hashlib.sha1(body.encode()).hexdigest()[:10]}.json")
            with open(path, "w") as f:
                f.write(body)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  {v['message']}")
            print(f"  case: {short(v['case'], 1500)}")
        return 1
    if errors:
        print(f"ERROR {pid}: the check itself failed\n{errors[0]}")
        return 2
    if missing:
        print(f"INCONCLUSIVE {pid}: monitors saw too little of {missing}")
        return 2
    print(f"OK {pid} tier={tier} seed={seed} cases={cov['evaluations']} distinct_nontrivial={len(distinct)} "
          f"decisions={events['oracle_decisions']} wall={ev['wall_s']}s")
    return 0


def replay(path):
    load_real()
    data = json.load(open(path))
    mod = load_prop(data["property"])
    res = run_case(mod, data["case"], Mon())
    if res is None:
        print(f"OK {data['property']}: the recorded case passes")
        return 0
    print(f"VIOLATION property={data['property']} replay={path}\n  {res[0]}")
    return 1
