"""Checks of the whole engine under faults of storage, memory and the system."""
import random
import profiles as PR
import simlib
from simlib import Case, Check, TIER, stack_names, sub_seed
from props_pool import component_judge, fine_sched
from props_engine import BASE, BUDGET, LIMITS, OUT, add, engine_sched, first_difference, threads_line

LIGHT = ["plain", "relative", "ufp", "griffin", "next", "dual", "raft", "spiral", "brim", "thick", "zseam", "mods"]


def reference(run):
    r = run.res
    return r.outcome, r.rc, run.file(OUT)


def pick(rng, kind, probs, late, mx=3):
    """One fault kind: at a random early operation, or with a probability at every operation."""
    if rng.random() < 0.5:
        return f"pfault={kind}:{rng.choice(probs)}:{rng.choice([1, 1, mx])}"
    idx = rng.randrange(8) if rng.random() < 0.5 else int(2 ** rng.uniform(0, late))
    return f"fault={kind}@{idx}:{rng.randint(1, 4096)}"


def fault_sweep(prop, names, variants, fault_lines, make=None, height=(0.9, 1.6), threads=(1, 1, 2, 3), extra=None):
    rnd = 0
    while True:
        order = list(names)
        random.Random(sub_seed(prop, "order", rnd)).shuffle(order)
        for name in order:
            rng = random.Random(sub_seed(prop, name, rnd))
            case = make(name, rng) if make else (PR.slice_case(name, rng, 3, rng.uniform(*height), dict(extra or {})) if name in PR.PROFILES else PR.any_case(name, rng, 3, dict(extra or {})))
            key = f"{name}/{rnd}"
            base = BASE.make(case, key, name)
            base = add(base, ["hb=0"])
            yield base
            bj = base.to_json()
            for v in range(variants):
                w = rng.choice(threads)
                sched = ["sched=seq"] if rng.random() < 0.4 else engine_sched(rng)
                c = add(threads_line(case, w), LIMITS + sched + [f"alloc_seed={rng.getrandbits(30)}", f"fault_seed={rng.getrandbits(40)}", "hb=0"] + fault_lines(rng))
                c.oracle = {"key": key, "profile": name, "base": bj}
                yield c
        rnd += 1


ERRORS = ("read_eintr", "open_fail", "write_enospc", "write_eio", "close_eio", "read_eio", "seek_fail")


WRITE_ERRORS = ("write_enospc", "write_eio", "write_eintr", "close_eio")


def fired(run, kinds):
    return [f for f in run.res.faults() if f.split("@")[0] in kinds]


def bad_end(run):
    """Ends that no fault excuses: memory errors, hangs, crashes."""
    r = run.res
    if r.outcome == "violation":
        st = stack_names(run, "violation_stack")
        return "memory error: " + (st[0] if st else "?"), f"{r.get('violation')} in {' < '.join(st[:5])} after {r.faults()[:3]}"
    if r.outcome in ("deadlock", "livelock"):
        return r.outcome, f"the process hangs ({r.outcome} {r.get('limit', '')}) after {r.faults()[:3]}; " + "; ".join((r.all("blocked") + r.all("alive"))[:5])
    if r.outcome not in ("exit", "killed"):
        st = stack_names(run, "crash_stack") or stack_names(run, "violation_stack")
        return f"{r.outcome}: " + (st[0] if st else "?"), f"the process ends with {r.outcome} in {' < '.join(st[:6])} after {r.faults()[:3]}"
    return None


def judge_output(run, prop, tolerate_prefix=True, excuses=ERRORS):
    """Success means the output of the fault-free run; failure needs a fault as its reason and leaves a part of that output."""
    if "baseline_for" in run.case.oracle:
        BASE.store(run, reference)
        b = bad_end(run)
        if b or run.res.rc != 0:
            return b or ("status", f"slicing a valid model without any fault ended with status {run.res.rc}")
        return None
    ref = BASE.of(run.case, reference, prop)
    if ref[0] != "exit" or ref[1] != 0:
        return None
    b = bad_end(run)
    if b:
        return b
    r = run.res
    g = run.file(OUT)
    if r.outcome == "exit" and r.rc == 0:
        if g != ref[2]:
            what = "is missing" if g is None else f"has {len(g)} of {len(ref[2])} bytes" if ref[2].startswith(g) else f"differs: {first_difference(g, ref[2])}"
            return "success without the whole output", f"exit status 0, but the output file {what}; faults: {r.faults()[:5]}"
        if fired(run, ("close_eio",)):
            return "success although closing failed", f"exit status 0, but closing the output file failed; faults: {r.faults()[:5]}"
        return None
    # after a write that failed part-way, the stream may write the same bytes again when it is closed: the failure is reported, nothing is claimed about the content
    if g and not ref[2].startswith(g) and not fired(run, WRITE_ERRORS):
        return "wrong content", f"{r.outcome} {r.rc}: what is in the output file is not the beginning of the right output: {first_difference(g, ref[2])}; faults: {r.faults()[:5]}"
    if r.outcome == "exit" and not fired(run, excuses):
        return "failure without a reason", f"exit status {r.rc} although no error was injected; faults: {r.faults()[:5]}"
    return None


# ------------------------------------------------------------------ C07
def judge_c07(run):
    return judge_output(run, "C07")


def c07_lines(rng):
    return ["faultdir={D}/" + OUT] + c07_faults(rng)


def c07_faults(rng):
    k = rng.choice(["write_enospc", "write_enospc", "write_eio", "write_short", "write_eintr", "close_eio", "kill", "kill", "open_fail", "mix", "benign", "last"])
    if k == "mix":
        return [pick(rng, x, [0.02, 0.2], 7) for x in rng.sample(["write_enospc", "write_eio", "write_short", "write_eintr", "close_eio", "kill"], 3)]
    if k == "benign":
        return [f"pfault=write_short:{rng.choice([0.1, 0.5, 0.9])}:500", f"pfault=write_eintr:{rng.choice([0.1, 0.4])}:200"]
    if k == "last":
        return ["pfault=close_eio:1:1"]
    if k == "write_short" or k == "write_eintr":
        return [f"pfault={k}:{rng.choice([0.05, 0.3, 0.9])}:300"]
    if k == "open_fail":
        return ["fault=open_fail@0:1"]
    return [pick(rng, k, [0.003, 0.03, 0.3], 8)]


def c07():
    c = Check("C07", "output on disk")
    c.build("engine")
    c.search(fault_sweep("C07", LIGHT, 9, c07_lines), judge_c07, 35 * BUDGET)
    c.extra["real_code"] = "the whole engine from main() on, libstdc++ streams over simulated file operations"
    c.done()


# ------------------------------------------------------------------ C17
SHORT = ("alloc_fail", "thread_fail")


def judge_c17(run):
    if run.case.workload == "failing":
        # an exception may end the process, with whatever still runs
        e = run.res.get("exception", "")
        if run.res.outcome == "abort" and not run.res.num("races") and ("Failure" in e or e == "std::bad_alloc" and fired(run, SHORT)):
            return None
        return component_judge(run)
    v = judge_short(run)
    if v and any(x.startswith("1 libpolyclipping") for x in run.res.all("alloc_failed")):
        return CLIPPER, v[1]
    return v


def judge_short(run):
    if "baseline_for" in run.case.oracle:
        BASE.store(run, reference)
        return bad_end(run) or (("status", f"slicing a valid model without any fault ended with status {run.res.rc}") if run.res.rc else None)
    ref = BASE.of(run.case, reference, "C17")
    if ref[0] != "exit" or ref[1] != 0:
        return None
    r = run.res
    short = [x for x in r.all("alloc_failed") if x.startswith("1")] or fired(run, ("thread_fail",))
    if not (r.outcome == "abort" and short and r.get("exception")):
        b = bad_end(run)
        if b:
            return b
    g = run.file(OUT)
    if r.outcome == "exit" and r.rc == 0 and g != ref[2]:
        what = "is missing" if g is None else f"has {len(g)} of {len(ref[2])} bytes" if ref[2].startswith(g) else f"differs: {first_difference(g, ref[2])}"
        return "success without the whole output", f"exit status 0, but the output file {what}; faults: {r.faults()[:5]}"
    if g and not ref[2].startswith(g):
        return "wrong content", f"{r.outcome} {r.rc}: what is in the output file is not the beginning of the right output: {first_difference(g, ref[2])}; faults: {r.faults()[:5]}"
    if r.outcome == "exit" and r.rc and not short:
        return "failure without a reason", f"exit status {r.rc} although nothing was refused; faults: {r.faults()[:5]}"
    return None


CLIPPER = "success after Clipper ran out of memory"


def c17_cases():
    """The whole engine; now and then an allocation inside Clipper fails, which Clipper keeps to itself."""
    for c in fault_sweep("C17", LIGHT + ["lightning", "support", "treeroof", "adaptive", "bridge"], 9, c17_lines, threads=(1, 2, 2, 3, 4)):
        yield c


def throwing_cases():
    i = 0
    while True:
        rng = random.Random(sub_seed("C17", "throwing", i))
        i += 1
        l = [f"work_seed={rng.getrandbits(40)}", f"alloc_seed={rng.getrandbits(30)}", f"fault_seed={rng.getrandbits(40)}", "max_ev=400000", "wall_limit=60", f"ncpu={rng.choice([1, 2, 4])}"] + fine_sched(rng)
        if rng.random() < 0.4:
            l.append(f"pfault=alloc_fail:{rng.choice([0.003, 0.03, 0.2])}:{rng.choice([1, 1, 3])}")
        if rng.random() < 0.4:
            l.append("pfault=spurious_wakeup:0.2:100")
        yield Case("failing", l, exe="pool", tag="failing")


def c17_lines(rng):
    if rng.random() < 0.06:
        return ["alloc_in=libpolyclipping", f"pfault=alloc_fail:{10 ** rng.uniform(-5.2, -4):.8f}:30"]
    k = rng.choice(["alloc_fail", "alloc_fail", "alloc_fail", "thread_fail", "both", "none"])
    l = []
    if k in ("alloc_fail", "both"):
        l.append(f"fault=alloc_fail@{int(2 ** rng.uniform(0, 21))}:1" if rng.random() < 0.6 else f"pfault=alloc_fail:{10 ** rng.uniform(-6.5, -3):.8f}:{rng.choice([1, 1, 3, 100])}")
    if k in ("thread_fail", "both"):
        l.append(f"fault=thread_fail@{rng.randrange(4)}:1" if rng.random() < 0.7 else f"pfault=thread_fail:{rng.choice([0.2, 1])}:{rng.choice([1, 3])}")
    if rng.random() < 0.3:
        l.append("pfault=spurious_wakeup:0.05:100")
    return l


def c17():
    c = Check("C17", "out of memory")
    c.build("engine", "pool")
    if c.search(throwing_cases(), judge_c17, 12 * BUDGET):
        c.search(c17_cases(), judge_c17, 30 * BUDGET)
    c.extra["real_code"] = "the whole engine from main() on; ThreadPool.h alone with throwing bodies; operator new and malloc are those of the simulator"
    c.done()
