"""
Runs the check of one property: enumerates its tasks, executes them in worker
processes, collects counts and violations, writes the evidence file.

usage: python -m mc.runner <PROPERTY> [quick|thorough]
       python -m mc.runner --replay <file>
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
MAX_VIOLATIONS_PER_TASK = 2
HANG_S = {"quick": 240, "thorough": 700}


class StopTask(Exception):
    pass


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if hasattr(x, "tolist"):
        try:
            return jsonable(x.tolist())
        except Exception:
            pass
    return repr(x)


class Recorder:
    """What one task explored and found."""

    def __init__(self, task):
        self.task = task
        self.states = set()
        self.n_states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.notes = {}
        self.checks = 0

    def state(self, key):
        """Count a distinct state (any hashable key). True if new."""
        h = hash(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def add_states(self, n):
        self.n_states += int(n)

    def trans(self, n=1):
        self.transitions += int(n)

    def trace(self, n=1):
        self.traces += int(n)

    def outcome(self, x):
        if len(self.outcomes) < 5000:
            self.outcomes.add(x)

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(jsonable(x))

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def violation(self, case, msg):
        self.violations.append({"case": jsonable(case), "msg": str(msg)[:3000]})
        if len(self.violations) >= MAX_VIOLATIONS_PER_TASK:
            raise StopTask()

    def check(self, cond, case, msg):
        self.checks += 1
        if not cond:
            self.violation(case() if callable(case) else case,
                           msg() if callable(msg) else msg)

    def out(self):
        return dict(task=self.task, states=len(self.states) + self.n_states,
                    transitions=self.transitions, traces=self.traces, checks=self.checks,
                    outcomes=list(self.outcomes), samples=self.samples,
                    violations=self.violations, notes=self.notes)


def _env(x64):
    os.environ["JAX_PLATFORMS"] = "cpu"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["JAX_ENABLE_X64"] = "1" if x64 else "0"
    os.environ["XLA_FLAGS"] = ("--xla_cpu_multi_thread_eigen=false "
                               "intra_op_parallelism_threads=1 "
                               "--xla_force_host_platform_device_count=1")
    os.environ["TF_CPP_MIN_LOG_LEVEL"] = "3"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    sys.dont_write_bytecode = True


def _init(x64):
    _env(x64)
    import warnings
    warnings.filterwarnings("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def run_task(arg):
    prop, task = arg
    _t0 = time.time()
    mod = importlib.import_module("mc.props." + prop.lower())
    R = Recorder(task)
    try:
        mod.run(task, R)
    except StopTask:
        pass
    except Exception as e:
        # Whatever the code under test raises inside its domain is a violation:
        # every expected refusal is handled where it is expected.
        R.violations.append({"case": jsonable(getattr(e, "mc_case", None)),
                             "msg": "unexpected %s: %s\n%s" % (type(e).__name__, str(e)[:600],
                                                              traceback.format_exc()[-2500:])})
    o = R.out()
    o["wall"] = time.time() - _t0
    return o


def _worker(conn, prop, x64):
    _init(x64)
    while True:
        task = conn.recv()
        if task is None:
            return
        conn.send(run_task((prop, task)))


def _gone(task, what, msg, wall):
    return dict(task=task, states=0, transitions=0, traces=0, checks=0, outcomes=[], samples=[], notes={},
                wall=wall, violations=[{"case": what, "msg": msg}])


class Slot:
    """One worker process and the task it is running."""

    def __init__(self, ctx, prop, x64):
        self.ctx, self.prop = ctx, prop
        self.first = x64            # which tasks it takes first
        self.x64 = None             # what its process was started for
        self.proc = None
        self.task = None

    def start(self, x64):
        self.conn, child = self.ctx.Pipe()
        self.x64 = x64
        self.proc = self.ctx.Process(target=_worker, args=(child, self.prop, x64), daemon=True)
        self.proc.start()
        child.close()

    def take(self, queues):
        order = (self.first, not self.first)
        for x64 in order:
            if queues[x64]:
                task = queues[x64].pop(0)
                if self.proc is not None and self.x64 != x64:
                    self.kill()
                if self.proc is None:
                    self.start(x64)
                self.task, self.t0 = task, time.time()
                self.conn.send(task)
                return

    def kill(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.join()
            self.conn.close()
            self.proc = None


def collect(prop, tasks, workers, hang_s=240):
    """Runs all tasks; returns their outputs and whether all were completed."""
    ctx = mp.get_context("fork")
    outs = []
    queues = {x: [t for t in tasks if bool(t.get("x64")) == x] for x in (False, True)}
    share = sum(t.get("cost", 1) for t in queues[True]) / max(1, sum(t.get("cost", 1) for t in tasks))
    n = max(1, min(workers, len(tasks)))
    n64 = 0 if not queues[True] else max(1, round(n * share))
    slots = [Slot(ctx, prop, i < n64) for i in range(n)]
    try:
        while queues[False] or queues[True] or any(s.task is not None for s in slots):
            for s in slots:
                if s.task is None:
                    s.take(queues)
            busy = [s for s in slots if s.task is not None]
            mp.connection.wait([s.conn for s in busy] + [s.proc.sentinel for s in busy], timeout=1.0)
            for s in busy:
                ended = False
                if s.conn.poll():
                    try:
                        outs.append(s.conn.recv())
                        s.task = None
                        continue
                    except (EOFError, OSError):
                        ended = True
                        s.proc.join(10)
                if not s.proc.is_alive():
                    if not ended and s.conn.poll():
                        continue
                    code = s.proc.exitcode
                    if s.task.get("may_crash_xla"):
                        # The XLA compiler itself crashes on some float16 programs
                        # (also of the original code): nothing was decided.
                        o = _gone(s.task, "", "", time.time() - s.t0)
                        o["violations"], o["notes"] = [], {"skipped_xla_compiler_crash": 1}
                        outs.append(o)
                    else:
                        outs.append(_gone(s.task, "crash", "the process running the code under test died "
                                          "(exit code %s)" % code, time.time() - s.t0))
                    s.kill()
                    s.task = None
                elif time.time() - s.t0 > hang_s:
                    # Tasks take a small fraction of this time.
                    outs.append(_gone(s.task, "no termination", "the task did not terminate within %d s: %s"
                                      % (hang_s, json.dumps(s.task)), hang_s))
                    s.kill()
                    s.task = None
            if sum(len(o["violations"]) for o in outs) >= 6:
                return outs, False
    finally:
        for s in slots:
            s.kill()
    return outs, True


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        data = json.load(fh)
    return [f for f in data.get("findings", []) if f.get("property") == prop]


def finding_of(viol, findings):
    for f in findings:
        if f["case"] == viol["case"] and f["task"] == viol.get("task"):
            return f
    return None


def main(argv):
    if argv and argv[0] == "--replay":
        with open(argv[1]) as fh:
            rec = json.load(fh)
        _init(bool(rec["task"].get("x64")))
        o = run_task((rec["property"], rec["task"]))
        for v in o["violations"]:
            print(json.dumps(v["case"]))
            print(v["msg"])
        print("reproduced" if o["violations"] else "not reproduced")
        return 1 if o["violations"] else 0

    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, HERE)
    mod = importlib.import_module("mc.props." + prop.lower())
    tasks = mod.tasks(tier)
    # Longest first keeps the pool busy; the seed only rotates ties.
    tasks = sorted(enumerate(tasks), key=lambda it: (-it[1].get("cost", 1), (it[0] + seed) % 7, it[0]))
    tasks = [t for _, t in tasks]
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    outs, complete = collect(prop, tasks, workers, HANG_S.get(tier, 240))
    if os.environ.get("VERIF_PROFILE"):
        for o in sorted(outs, key=lambda o: -o["wall"])[:25]:
            print("%6.1fs st=%d tr=%d %s" % (o["wall"], o["states"], o["transitions"], json.dumps(o["task"])[:150]),
                  file=sys.stderr)

    findings = known_findings(prop)
    fresh, known = [], []
    for o in outs:
        for v in o["violations"]:
            v["task"] = o["task"]
            (known if finding_of(v, findings) else fresh).append(v)
    for f in {json.dumps(finding_of(v, findings)["what"]) for v in known}:
        print("KNOWN-FINDING: property=%s %s" % (prop, json.loads(f)))

    outcomes = set()
    notes = {}
    for o in outs:
        outcomes.update(o["outcomes"])
        for k, n in o["notes"].items():
            notes[k] = notes.get(k, 0) + n
    samples = []
    for o in sorted(outs, key=lambda o: json.dumps(o["task"], sort_keys=True)):
        for s in o["samples"]:
            if len(samples) < 6 and s not in samples:
                samples.append(s)
    cov = dict(states=sum(o["states"] for o in outs),
               transitions=sum(o["transitions"] for o in outs),
               traces_validated_against_impl=sum(o["traces"] for o in outs),
               oracle_evaluations=sum(o["checks"] for o in outs),
               tasks=len(outs), distinct_outcomes=len(outcomes),
               exhaustive=bool(complete), bounds=getattr(mod, "BOUNDS", ""),
               counters=notes, samples=samples or ["none"])
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2),
              violations=len(fresh))
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")

    print("%s %s: %d tasks, %d states, %d transitions, %d traces, %d checks, %d outcomes, %.1fs" % (
        prop, tier, cov["tasks"], cov["states"], cov["transitions"],
        cov["traces_validated_against_impl"], cov["oracle_evaluations"],
        cov["distinct_outcomes"], ev["wall_s"]))
    if not fresh:
        if cov["transitions"] == 0 or cov["oracle_evaluations"] == 0:
            print("error: nothing was explored")
            return 2
        return 0
    rdir = os.path.join(EVIDENCE, "replays")
    os.makedirs(rdir, exist_ok=True)
    fresh.sort(key=lambda v: len(json.dumps(v["case"])))
    for v in fresh[:3]:
        rec = dict(property=prop, task=v["task"], case=v["case"], msg=v["msg"])
        body = json.dumps(rec, indent=1)
        path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
        with open(path, "w") as fh:
            fh.write(body + "\n")
        print("  " + v["msg"].replace("\n", "\n  ")[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
