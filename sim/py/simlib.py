"""Orchestration: seeded runs on a pool of simulator processes, gating, minimisation, replay files, evidence."""
import base64, hashlib, json, os, queue, random, re, shutil, subprocess, sys, threading, time, zlib

PY = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.dirname(PY)
VERIF = os.path.dirname(SIM)
sys.path.insert(0, SIM)
import build as simbuild

BUILD = simbuild.BUILD
WORK = os.environ.get("SIM_WORK", os.path.join(VERIF, "work"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = int(os.environ.get("SIM_JOBS", "8"))


def sub_seed(*parts):
    h = hashlib.sha256(repr((SEED,) + parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


class Result:
    """Parsed result file of one run."""

    def __init__(self, text, status):
        self.status = status
        self.text = text
        self.kv = {}
        self.multi = {}
        for line in text.split("\n"):
            k, eq, v = line.partition("=")
            if not eq:
                continue
            self.kv[k] = v
            self.multi.setdefault(k, []).append(v)

    def get(self, k, d=None):
        return self.kv.get(k, d)

    def all(self, k):
        return self.multi.get(k, [])

    @property
    def outcome(self):
        return self.kv.get("outcome", "lost")

    @property
    def rc(self):
        return int(self.kv.get("rc", "-1"))

    def num(self, k):
        return int(self.kv.get(k, "0"))

    def pairs(self, k):
        d = {}
        for v in self.all(k):
            n, _, c = v.rpartition(":")
            d[n] = int(c)
        return d

    def faults(self):
        return self.all("fault")

    def notes(self):
        return self.all("note")


class Case:
    """One simulated run: specification lines plus the files it starts with."""

    def __init__(self, workload, lines=(), files=None, exe="engine", tag=""):
        self.workload = workload
        self.lines = list(lines)  # "key=value"; {D} is replaced by the run's directory
        self.files = dict(files or {})  # name -> bytes; put into the run's directory
        self.exe = exe
        self.tag = tag
        self.oracle = {}  # whatever the property's judge needs (JSON-able)

    def with_lines(self, drop_prefixes, add):
        c = Case(self.workload, [l for l in self.lines if not l.startswith(tuple(drop_prefixes))] + list(add), self.files, self.exe, self.tag)
        c.oracle = self.oracle
        return c

    def spec(self, d):
        # the first line with a key counts
        out = [l.replace("{D}", d + "/f").replace("{L}", d) for l in self.lines]
        out += [f"workload={self.workload}", f"faultdir={d}/f/", f"stdout={d}/stdout", f"cwd={d}/f"]
        return "\n".join(out) + "\n"

    def prepare(self, d):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/f")
        for n, b in self.files.items():
            p = f"{d}/f/{n}"
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)
        with open(d + "/spec", "w") as f:
            f.write(self.spec(d))

    def to_json(self):
        return {"workload": self.workload, "lines": self.lines, "exe": self.exe, "tag": self.tag, "oracle": self.oracle,
                "files": {n: base64.b64encode(zlib.compress(b, 9)).decode() for n, b in self.files.items()}}

    @staticmethod
    def from_json(j):
        c = Case(j["workload"], j["lines"], {n: zlib.decompress(base64.b64decode(b)) for n, b in j["files"].items()}, j["exe"], j.get("tag", ""))
        c.oracle = j.get("oracle", {})
        return c


class Server:
    def __init__(self, exe):
        self.p = subprocess.Popen([f"{BUILD}/{exe}", "server"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def run(self, d):
        self.p.stdin.write(f"{d}/spec\t{d}/result\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line.startswith("done"):
            raise RuntimeError("simulator server ended")
        return int(line.split()[1])

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def read_file(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return None


class Run:
    """A finished run, as a judge sees it: result, and the files it left."""

    def __init__(self, case, res, d):
        self.case = case
        self.res = res
        self.dir = d

    def file(self, name):
        return read_file(f"{self.dir}/f/{name}")

    def log(self, name):
        return read_file(f"{self.dir}/{name}")


def load_result(d, status):
    t = read_file(d + "/result")
    return Result(t.decode(errors="replace") if t else "", status)


_dirs = {"n": 0}
_lock = threading.Lock()


def new_dir(prop):
    with _lock:
        _dirs["n"] += 1
        # always of the same length: the length of a path shifts what the allocator does
        return f"{WORK}/{prop:_<8}/{_dirs['n']:07d}"


def run_fresh(case, prop):
    """In a process of its own."""
    d = new_dir(prop)
    case.prepare(d)
    try:
        p = subprocess.run([f"{BUILD}/{case.exe}", "run", d + "/spec", d + "/result"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        st = p.returncode
    except subprocess.TimeoutExpired:
        st = 1999
    return Run(case, load_result(d, st), d)


class Pool:
    def __init__(self, prop, n=None):
        self.prop = prop
        self.n = n or NPROC

    def map(self, cases, on_result, stop=None, keep=False):
        """cases: iterable of Case (pulled lazily, in order); on_result(Run) is called in this thread, in case order."""
        it = iter(cases)
        itlock = threading.Lock()
        results = queue.Queue()
        counter = {"i": 0}
        halt = threading.Event()

        def worker():
            servers = {}
            while not halt.is_set():
                with itlock:
                    if halt.is_set() or (stop and stop()):
                        break
                    try:
                        c = next(it)
                    except StopIteration:
                        break
                    i = counter["i"]
                    counter["i"] += 1
                d = new_dir(self.prop)
                c.prepare(d)
                try:
                    if c.exe not in servers:
                        servers[c.exe] = Server(c.exe)
                    st = servers[c.exe].run(d)
                except Exception:
                    st = 2000
                    servers.pop(c.exe, None)
                results.put((i, Run(c, load_result(d, st), d)))
            for s in servers.values():
                s.close()
            results.put(None)

        ts = [threading.Thread(target=worker, daemon=True) for _ in range(self.n)]
        for t in ts:
            t.start()
        left = len(ts)
        pending = {}
        nxt = 0
        exc = None
        while left:
            r = results.get()
            if r is None:
                left -= 1
                continue
            pending[r[0]] = r[1]
            while nxt in pending:
                run = pending.pop(nxt)
                nxt += 1
                if exc is None and not halt.is_set():
                    try:
                        if on_result(run) is False:
                            halt.set()
                    except Exception as e:
                        exc = e
                        halt.set()
                if not keep:
                    shutil.rmtree(run.dir, ignore_errors=True)
        for r in pending.values():
            shutil.rmtree(r.dir, ignore_errors=True)
        if exc:
            raise exc


# ---------------------------------------------------------------- symbols
_syms = {}


def symbolise(exe, pcs):
    """Function names for program counters (hex strings)."""
    if exe not in _syms:
        out = subprocess.run(["nm", "-n", "--defined-only", f"{BUILD}/{exe}"], stdout=subprocess.PIPE, text=True).stdout
        a, n = [], []
        for l in out.split("\n"):
            f = l.split(" ", 2)
            if len(f) == 3 and f[1] in "tTwWiV":
                a.append(int(f[0], 16))
                n.append(f[2])
        _syms[exe] = (a, n)
    import bisect
    a, n = _syms[exe]
    names = []
    for pc in pcs:
        v = int(pc, 16) - 1
        i = bisect.bisect_right(a, v) - 1
        names.append(n[i] if i >= 0 else "?")
    if not names:
        return []
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    return [re.sub(r"\s+", " ", x) for x in r[: len(names)]]


def short(name):
    """A function name without template arguments and parameters."""
    out, depth = "", 0
    name = name.replace("operator<", "operator_lt").replace("operator>", "operator_gt").replace("operator->", "operator_arrow").replace("(anonymous namespace)", "anon").replace("{lambda", "lambda")
    for ch in name:
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif depth <= 0:
            if ch == "(":
                break
            out += ch
    return out.split(" ")[-1]


def stack_names(run, key):
    s = run.res.get(key)
    return [short(x) for x in symbolise(run.case.exe, [p for p in s.split(",") if p])] if s else []


def races_of(run):
    """[(key, text)] - key identifies the pair of functions, independent of addresses."""
    out = []
    for r in run.res.all("race"):
        m = re.match(r"(\S+) (\S+) pc=(\w+) prev=(.*?) pc=(\w+) mem=(\S+)", r)
        if not m:
            continue
        f = [short(x) for x in symbolise(run.case.exe, [m.group(3), m.group(5)])]
        key = " / ".join(sorted(f))
        out.append((key, f"{m.group(1)} in {f[0]} against {m.group(4)} in {f[1]} ({m.group(6)})"))
    return out


# ---------------------------------------------------------------- known findings
def known_findings():
    """KNOWN_FINDINGS lines: 'known: property=C01 sig=<exact signature> :: description'; 'fixed: ...' lines suppress nothing."""
    out = []
    try:
        for l in open(f"{VERIF}/KNOWN_FINDINGS"):
            m = re.match(r"known: property=(\w+) sig=(.*?) :: (.*)", l.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    except OSError:
        pass
    return out


# ---------------------------------------------------------------- a check
class Check:
    """Runs cases, judges them, and on a violation gates, minimises and writes a replay file."""

    def __init__(self, prop, title, level="exploration"):
        self.prop = prop
        self.title = title
        self.t0 = time.time()
        self.level = level
        self.runs = 0
        self.faults = {}
        self.simtime = 0.0
        self.events = 0
        self.schedules = set()
        self.outcomes = {}
        self.probes = {}
        self.samples = []
        self.distinct = set()
        self.extra = {}
        self.known_hit = {}
        self.known = [(s, d) for p, s, d in known_findings() if p == prop]
        self.pool = Pool(prop)
        self.search_s = 0.0
        self.violation = None
        self.det_checked = 0
        shutil.rmtree(f"{WORK}/{prop:_<8}", ignore_errors=True)

    def build(self, *targets):
        if not simbuild.build(list(targets)):
            print(f"ERROR property={self.prop} the code under test does not build for simulation")
            self.done(2)

    def account(self, run, nontrivial=None):
        r = run.res
        self.runs += 1
        self.simtime += r.num("simtime_ns") / 1e9
        self.events += r.num("ev")
        self.schedules.add(r.get("shash"))
        self.outcomes[r.outcome] = self.outcomes.get(r.outcome, 0) + 1
        for f in r.faults():
            k = f.split("@")[0]
            self.faults[k] = self.faults.get(k, 0) + 1
        for k, v in r.pairs("probe").items():
            self.probes[k] = self.probes.get(k, 0) + v
        if nontrivial is None:
            nontrivial = r.num("switches") > 2 or bool(r.faults())
        if nontrivial:
            self.distinct.add((r.get("hash"), run.case.tag))
        if len(self.samples) < 4 or (len(self.samples) < 8 and self.runs % 37 == 0):
            self.samples.append({"tag": run.case.tag, "spec": [l for l in run.case.lines if not l.startswith(("arg=", "devs", "adevs"))][:20], "outcome": r.outcome, "rc": r.rc, "events": r.num("ev"), "switches": r.num("switches"), "faults": r.faults()[:6], "hash": r.get("hash")})

    def search(self, cases, judge, budget_s, minimise=True, nontrivial=None, max_runs=None):
        """judge(run) -> None, or (signature, message). Returns True when no unlisted violation was found."""
        if self.violation:
            return False
        t = time.time()
        found = []
        judge_output = judge

        def judge(run):
            try:
                return judge_output(run)
            except (ArithmeticError, AssertionError, AttributeError, LookupError, TypeError, ValueError) as e:
                if os.environ.get("SIM_DEBUG"):
                    raise
                return "unreadable output", f"what the run left behind is not in the form that such a run leaves: {e!r} in line {e.__traceback__.tb_next and e.__traceback__.tb_next.tb_lineno}"

        def stop():
            return time.time() - t > budget_s or (max_runs and self.runs >= max_runs)

        def on(run):
            if run.res.status >= 1000 or run.res.outcome in ("lost", "error", "timeout"):
                # no verdict from this run: machinery, not the property; once more in a fresh process
                again = run_fresh(run.case, self.prop)
                if again.res.outcome in ("lost", "error", "timeout"):
                    self.fail_machinery(f"a run gave no verdict ({again.res.outcome}, status {again.res.status})", again)
                run = again
            if os.environ.get("SIM_DEBUG"):
                print(run.case.tag, run.res.outcome, run.res.rc, "ev", run.res.get("ev"), "sw", run.res.get("switches"), "races", run.res.get("races"), " ".join(run.res.faults())[:150], flush=True)
            self.account(run, None if nontrivial is None else nontrivial(run))
            v = judge(run)
            if v:
                # a deterministic repeat in a fresh process must agree
                again = run_fresh(run.case, self.prop)
                if again.res.get("hash") != run.res.get("hash"):
                    self.fail_machinery("a violating run did not repeat (hash differs)", again)
                v2 = judge(again)
                if not v2 or v2[0] != v[0]:
                    self.fail_machinery(f"a violating run was judged differently on repetition: {v} then {v2}", again)
                for s, d in self.known:
                    if s == v[0]:
                        self.known_hit[s] = self.known_hit.get(s, 0) + 1
                        return True
                if os.environ.get("SIM_ALL"):
                    print("FOUND", v[0], "|", v[1].split("\n")[0], run.case.tag, flush=True)
                    return True
                found.append((run.case, v))
                return False
            # sampled determinism check on quiet runs
            if self.runs in (2, 17):
                again = run_fresh(run.case, self.prop)
                self.det_checked += 1
                if again.res.get("hash") != run.res.get("hash"):
                    self.fail_machinery("a run is not deterministic", again)
                shutil.rmtree(again.dir, ignore_errors=True)
            return True

        self.pool.map(cases, on, stop)
        self.search_s += time.time() - t
        if found:
            case, v = found[0]
            self.report(case, v, judge, minimise)
            return False
        return True

    def fail_machinery(self, msg, run):
        print(f"ERROR property={self.prop} {msg}; spec kept in {run.dir}")
        print(run.res.text[:1500])
        self.done(2)

    # ---- minimisation
    def report(self, case, v, judge, minimise=True):
        best = case
        steps = 0
        if minimise:
            try:
                best, steps = self.minimise(case, v, judge)
            except Exception as e:
                print("note: minimisation stopped:", repr(e))
        final = run_fresh(best, self.prop)
        fv = judge(final)
        if not fv or fv[0] != v[0]:
            best = case
            final = run_fresh(best, self.prop)
            fv = judge(final) or v
        rp = f"{VERIF}/evidence/{self.prop}.replay.json"
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        trace = {"faults": final.res.faults(), "outcome": final.res.outcome, "rc": final.res.rc, "notes": final.res.notes()[:40],
                 "schedule_deviations": sum(l.count(":") for l in best.lines if l.startswith(("devs=", "adevs="))),
                 "crash_stack": stack_names(final, "crash_stack")[:25], "violation_stack": stack_names(final, "violation_stack")[:25]}
        with open(rp, "w") as f:
            json.dump({"property": self.prop, "signature": fv[0], "message": fv[1], "seed": SEED, "hash": final.res.get("hash"), "trace": trace, "minimisation_runs": steps, "case": best.to_json()}, f, indent=1)
        print(f"{self.prop}: {fv[1]}")
        print(f"  case: {best.tag}; faults: {final.res.faults()[:10]}; outcome {final.res.outcome} rc {final.res.rc}; {trace['schedule_deviations']} schedule decisions differ from the default schedule; {steps} runs to minimise")
        print(f"VIOLATION property={self.prop} replay={rp}", flush=True)
        self.violation = fv

    def minimise(self, case, v, judge, budget_s=40, budget_runs=150):
        t = time.time()
        steps = 0

        def ok(c):
            nonlocal steps
            steps += 1
            r = run_fresh(c, self.prop)
            x = judge(r)
            shutil.rmtree(r.dir, ignore_errors=True)
            return bool(x) and x[0] == v[0]

        def left():
            return time.time() - t < budget_s and steps < budget_runs

        # the seeded run, written out as explicit decisions
        rec = run_fresh(case.with_lines(["emit_devs="], ["emit_devs=1"]), self.prop)
        faults = rec.res.faults()
        devs = [x for l in rec.res.all("devs") for x in l.strip(",").split(",") if x]
        adevs = [x for l in rec.res.all("adevs") for x in l.strip(",").split(",") if x]
        drop = ["sched=", "fault=", "pfault=", "devs=", "adevs=", "emit_devs="]

        def mk(f, d, a):
            lines = ["sched=replay"] + ["fault=" + x for x in f]
            for i in range(0, len(d), 200):
                lines.append("devs=" + ",".join(d[i:i + 200]))
            for i in range(0, len(a), 200):
                lines.append("adevs=" + ",".join(a[i:i + 200]))
            return case.with_lines(drop, lines)

        if not ok(mk(faults, devs, adevs)):
            return case, steps
        cur = [faults, devs, adevs]
        # the default schedule first
        for trial in ([cur[0], [], []], [[], [], []], [[], cur[1], cur[2]], [cur[0], [], cur[2]], [cur[0], cur[1], []]):
            if left() and trial != cur and ok(mk(*trial)):
                cur = trial
                if not trial[0] and not trial[1] and not trial[2]:
                    break
        for part in (0, 1, 2):
            xs = cur[part]
            n = 2
            while len(xs) > 0 and left():
                size = max(1, len(xs) // n)
                reduced = False
                for i in range(0, len(xs), size):
                    if not left():
                        break
                    y = xs[:i] + xs[i + size:]
                    t2 = list(cur)
                    t2[part] = y
                    if ok(mk(*t2)):
                        xs = y
                        cur[part] = y
                        reduced = True
                        n = max(2, n - 1)
                        break
                if not reduced:
                    if size == 1:
                        break
                    n = min(len(xs), n * 2)
        return mk(*cur), steps

    # ---- the end
    def done(self, rc=None):
        if rc is None:
            rc = 1 if self.violation else 0
        for s, d in self.known:
            if s in self.known_hit:
                print(f"KNOWN-FINDING: property={self.prop} {d}")
        wall = time.time() - self.t0
        if rc != 2:
            rate = self.runs / self.search_s * 3600 if self.search_s else 0
            cov = {"evaluations": self.runs, "distinct_nontrivial": len(self.distinct),
                   "rule": self.extra.pop("rule", "one evaluation is one complete simulated run; non-trivial when the scheduler switched threads more than twice or a fault fired; distinct by the hash of the run's whole event history and its case"),
                   "samples": self.samples, "seeds_per_hour": round(rate), "simulated_seconds": round(self.simtime, 3), "scheduling_events": self.events,
                   "distinct_schedules": len(self.schedules), "faults_injected": self.faults, "outcomes": self.outcomes,
                   "probes": self.probes, "determinism_rechecks": self.det_checked, "known_findings_hit": self.known_hit}
            cov.update(self.extra)
            ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level, "coverage": cov,
                  "assumptions": ["one thread runs at a time: weak-memory reorderings are represented only through the happens-before race check", "libraries below the engine (libstdc++, spdlog, clipper, protobuf) run real, uninstrumented code", "third-party parts absent here (libArcus, plugins' gRPC, formula engine, wagyu) are replaced by the stand-ins listed in DESIGN.md"],
                  "wall_s": round(wall, 2), "violations": 1 if self.violation else 0}
            os.makedirs(f"{VERIF}/evidence", exist_ok=True)
            with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
                json.dump(ev, f, indent=1)
        if not os.environ.get("SIM_KEEP") and rc != 2:
            shutil.rmtree(f"{WORK}/{self.prop:_<8}", ignore_errors=True)
        print(f"{self.prop}: {self.runs} runs, {len(self.distinct)} distinct non-trivial, {len(self.schedules)} schedules, {sum(self.faults.values())} faults, {wall:.1f} s, exit {rc}", flush=True)
        sys.exit(rc)


def sched_lines(rng, kind=None, quantum=None):
    """A random schedule policy."""
    k = kind or rng.choice(["random", "random", "random", "pct", "pct", "rr"])
    l = [f"sched={k}", f"sched_seed={rng.getrandbits(40)}"]
    q = quantum if quantum is not None else rng.choice([0, 0, 300, 3000, 30000, 300000])
    if k == "random":
        l.append(f"p_sync={rng.choice([0.5, 0.1, 0.02, 0.004])}")
        if rng.random() < 0.3:
            l += ["p_stall=0.05", f"stall_len={rng.choice([200, 5000, 50000])}"]
    if k == "pct":
        l.append(f"pct_span={rng.choice([50, 500, 5000])}")
    if k == "rr":
        q = 0 if q == 0 else max(q, 30000)
    l.append(f"quantum={q}")
    return l
