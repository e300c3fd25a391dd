"""Checks that run the whole engine."""
import hashlib, random, re, shutil
import models as M
import profiles as PR
import simlib
from simlib import Case, Check, TIER, races_of, sched_lines, stack_names, sub_seed
from props_pool import component_judge

BUDGET = 1 if TIER != "thorough" else 20
HEAVY = {"paint", "treesupport", "treeroof", "treelattice"}
LIMITS = ["max_ev=60000000", "max_acc=2500000000", "wall_limit=150"]


def sha(b):
    return None if b is None else hashlib.sha256(b).hexdigest()[:20]


def with_threads(case, n):
    return case.with_lines(["arg=-m"], []) if n is None else threads_line(case, n)


def threads_line(case, n):
    c = Case(case.workload, [f"arg=-m{n}" if l.startswith("arg=-m") and l[6:].isdigit() else l for l in case.lines], case.files, case.exe, case.tag)
    c.oracle = dict(case.oracle)
    return c


def add(case, lines, tag=""):
    c = Case(case.workload, case.lines + list(lines), case.files, case.exe, case.tag + tag)
    c.oracle = dict(case.oracle)
    return c


def engine_sched(rng, heavy=False):
    """heavy: False, True or the name of a heavy profile. Insertions into boost's concurrent map that are interleaved step
    by step make each other start over for ever, so paint gets schedules that leave a thread alone now and then."""
    if heavy == "paint":
        l = sched_lines(rng, kind="random", quantum=rng.choice([0, 30000, 300000]))
        return [f"p_sync={rng.choice([0.1, 0.02, 0.004])}" if x.startswith("p_sync=") else x for x in l]
    return sched_lines(rng, kind=rng.choice(["random", "random", "pct"]) if heavy else None,
                       quantum=rng.choice([30000, 300000, 1000000]) if heavy else rng.choice([0, 0, 3000, 30000, 300000]))


class Baselines:
    """The sequential, fault-free run every variant is compared with."""

    def __init__(self):
        self.known = {}

    def lines(self, case):
        return threads_line(case, 1)

    def make(self, case, key, what):
        """The baseline case; its result is stored when it is judged."""
        b = add(threads_line(case, 1), LIMITS + ["sched=seq", "alloc_seed=1"], "/reference")
        b.oracle = {"baseline_for": key, "what": what}
        return b

    def store(self, run, extract):
        self.known[run.case.oracle["baseline_for"]] = extract(run)

    def of(self, case, extract, prop, key="key", base="base"):
        k = case.oracle[key]
        if k not in self.known:
            b = Case.from_json(case.oracle[base]) if base in case.oracle else None
            if b is None:
                raise RuntimeError("no reference run for " + k)
            r = simlib.run_fresh(b, prop)
            self.known[k] = extract(r)
            shutil.rmtree(r.dir, ignore_errors=True)
        return self.known[k]


def failing(run):
    """Anything that is wrong with a fault-free engine run whatever the property."""
    r = run.res
    if r.outcome == "violation":
        st = stack_names(run, "violation_stack")
        return "memory error", f"{r.get('violation')} in {' < '.join(st[:4])}"
    if r.outcome in ("deadlock", "livelock"):
        return r.outcome, f"no progress: {r.outcome} {r.get('limit', '')}; " + "; ".join((r.all("blocked") + r.all("alive"))[:6])
    if r.outcome != "exit":
        st = stack_names(run, "crash_stack") or stack_names(run, "violation_stack")
        return r.outcome, f"the process ended with {r.outcome} in {' < '.join(st[:5])}"
    if r.rc != 0:
        return "status", f"slicing a valid model ended with status {r.rc}"
    return None


# ------------------------------------------------------------------ the sweep over profiles and schedules
def sweep(prop, names, variants, heavy_variants, variant_lines, seed0=0, extra=None):
    """References and schedule variants, profile after profile with new models each round."""
    rnd = seed0
    while True:
        order = list(names)
        random.Random(sub_seed(prop, "order", rnd)).shuffle(order)
        for name in order:
            rng = random.Random(sub_seed(prop, name, rnd))
            if name in HEAVY and rnd % 3 and TIER != "thorough":
                continue
            case = PR.any_case(name, rng, 3, dict(extra or {}))
            key = f"{name}/{rnd}"
            base = BASE.make(case, key, name)
            yield base
            bj = None
            for v in range(heavy_variants if name in HEAVY else variants):
                w = rng.choice([2, 2, 3, 4, 6]) if name not in HEAVY else rng.choice([2, 3])
                c = add(threads_line(case, w), LIMITS + variant_lines(rng, name in HEAVY and name))
                bj = bj or base.to_json()
                c.oracle = {"key": key, "profile": name, "base": bj}
                yield c
        rnd += 1


BASE = Baselines()
OUT = "out.gcode"
MIXES = [f"mix{i}" for i in range(9)] + [f"dualmix{i}" for i in range(4)] + ["modsmix0", "modsmix1"] + [f"treemix{i}" for i in range(8)] + [f"supmix{i}" for i in range(5)]
DETERMINISTIC = MIXES + [n for n in PR.ALL if n not in ("seamrandom",)]


def first_difference(a, b):
    al, bl = a.split(b"\n"), b.split(b"\n")
    for i, (x, y) in enumerate(zip(al, bl)):
        if x != y:
            return f"line {i + 1}: {x.decode(errors='replace')[:60]!r} instead of {y.decode(errors='replace')[:60]!r}"
    return f"{len(al)} lines instead of {len(bl)}"


# ------------------------------------------------------------------ C04
def judge_c04(run):
    if "baseline_for" in run.case.oracle:
        BASE.store(run, lambda r: (r.res.outcome, r.res.rc, r.file(OUT)))
        return None
    ref = BASE.of(run.case, lambda r: (r.res.outcome, r.res.rc, r.file(OUT)), "C04")
    if ref[0] != "exit" or ref[1] != 0:
        return None  # the model cannot be sliced at all: not this property
    r = run.res
    name = run.case.oracle["profile"]
    if r.outcome != "exit" or r.rc != 0:
        return f"ends differently: {name}", f"profile {run.case.tag}: the sequential run succeeds, this one ends with {r.outcome} {r.rc}"
    g = run.file(OUT)
    if g != ref[2]:
        return f"g-code differs: {name}", f"profile {run.case.tag}: g-code differs from the sequential run, {first_difference(g or b'', ref[2] or b'')}"
    return None


def c04_lines(rng, heavy):
    l = engine_sched(rng, heavy) + [f"alloc_seed={rng.getrandbits(30)}", f"fault_seed={rng.getrandbits(40)}", f"ncpu={rng.choice([1, 2, 4, 8])}", "hb=0"]
    if rng.random() < 0.25:
        l.append(f"pfault=clock_jump:{rng.choice([0.01, 0.2])}:50")
    return l


def c04():
    c = Check("C04", "same g-code")
    c.build("engine")
    c.search(sweep("C04", DETERMINISTIC, 3, 2, c04_lines), judge_c04, 70 * BUDGET)
    c.extra["real_code"] = "the whole engine from main() on"
    c.done()


# ------------------------------------------------------------------ C05
def judge_c05(run):
    r = run.res
    if r.outcome == "violation":
        st = stack_names(run, "violation_stack")
        return "memory error: " + (st[0] if st else "?"), f"{r.get('violation')} in {' < '.join(st[:5])}"
    if r.num("races"):
        rs = races_of(run)
        return "race: " + rs[0][0], f"unsynchronised access: {rs[0][1]}"
    if r.outcome in ("crash", "abort"):
        st = stack_names(run, "crash_stack") or stack_names(run, "violation_stack")
        return "crash: " + (st[0] if st else "?"), f"{r.outcome} in {' < '.join(st[:6])}"
    return None


def c05_lines(rng, heavy):
    return engine_sched(rng, heavy) + [f"alloc_seed={rng.getrandbits(30)}", f"ncpu={rng.choice([1, 2, 4, 8])}"]


def c05():
    c = Check("C05", "no race, no stray access")
    c.build("engine")
    cases = (x for x in sweep("C05", PR.ALL + MIXES, 2, 1, c05_lines) if "baseline_for" not in x.oracle)
    c.search(cases, judge_c05, 90 * BUDGET)
    c.extra["real_code"] = "the whole engine from main() on"
    c.done()


# ------------------------------------------------------------------ C06
def judge_c06(run):
    r = run.res
    if r.outcome in ("deadlock", "livelock"):
        what = "; ".join((r.all("blocked") + r.all("alive"))[:8])
        return r.outcome, f"slicing does not end ({r.outcome} {r.get('limit', '')}): {what}"
    if r.outcome == "exit" and r.rc == 0 and not (run.file(OUT) or b"").rstrip().endswith(END_MARK):
        return "no output", "slicing ended without writing its output to the end"
    return None


END_MARK = b""


def c06_lines(rng, heavy):
    l = engine_sched(rng, heavy) + [f"alloc_seed={rng.getrandbits(30)}", f"fault_seed={rng.getrandbits(40)}", f"ncpu={rng.choice([0, 1, 2, 4, 8])}", "hb=0"]
    if rng.random() < 0.6:
        l.append(f"pfault=spurious_wakeup:{rng.choice([0.02, 0.3])}:500")
    if rng.random() < 0.4:
        l.append(f"pfault=stall:0.01:50")
    if rng.random() < 0.3:
        l.append(f"pfault=spurious_cas:0.05:500")
    return l


def c06():
    c = Check("C06", "slicing ends")
    c.build("engine")
    cases = (x for x in sweep("C06", PR.ALL + MIXES, 2, 1, c06_lines) if "baseline_for" not in x.oracle)
    c.search(cases, judge_c06, 60 * BUDGET)
    c.extra["real_code"] = "the whole engine from main() on"
    c.done()
