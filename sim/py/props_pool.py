"""C01-C03: the thread pool and its primitives."""
import random
from simlib import Case, Check, TIER, races_of, sched_lines, stack_names, sub_seed


def crash_sig(run, what="crash"):
    return what


def component_judge(run, ok_outcomes=("exit",)):
    """The verdict shared by the component workloads: invariant violations, races, memory errors, hangs, crashes."""
    r = run.res
    if r.outcome == "violation":
        v = r.get("violation", "?")
        if v.startswith("memory:"):
            st = stack_names(run, "violation_stack")
            return "memory error", f"{v} in {' < '.join(st[:4])}"
        import re
        return "invariant: " + re.sub(r"-?\d+", "N", v), v
    if r.outcome in ("deadlock", "livelock"):
        return r.outcome, f"no progress: {r.outcome}; " + "; ".join(r.all("blocked") + r.all("alive"))
    if r.num("races"):
        rs = races_of(run)
        return "race: " + rs[0][0], f"unsynchronised access: {rs[0][1]}"
    if r.outcome not in ok_outcomes:
        st = stack_names(run, "crash_stack") or stack_names(run, "violation_stack")
        return r.outcome, f"the process ended with {r.outcome}: {r.get('what', '')} in {' < '.join(st[:5])}"
    if r.outcome == "exit" and r.rc != 0:
        return "status", f"exit status {r.rc}"
    return None


def fine_sched(rng):
    l = sched_lines(rng, quantum=rng.choice([0, 0, 0, 30, 300]))
    return [x for x in l if not x.startswith("pct_span")] + [f"pct_span={rng.choice([5, 20, 60, 200])}"]


def pool_cases(workload, tag, faults=True, thread_fail=False):
    i = 0
    while True:
        rng = random.Random(sub_seed(workload, i))
        lines = [f"work_seed={rng.getrandbits(40)}", f"alloc_seed={rng.getrandbits(30)}", f"fault_seed={rng.getrandbits(40)}",
                 "max_ev=400000", "wall_limit=60", f"ncpu={rng.choice([0, 1, 2, 3, 4, 8])}"] + fine_sched(rng)
        if faults and rng.random() < 0.6:
            lines.append(f"pfault=spurious_wakeup:{rng.choice([0.02, 0.2, 0.6])}:200")
        if rng.random() < 0.3:
            lines.append("pfault=stall:0.02:20")
        if thread_fail and rng.random() < 0.15:
            lines.append(f"pfault=thread_fail:{rng.choice([0.1, 0.4])}:1")
        yield Case(workload, lines, exe="pool", tag=tag)
        i += 1


def judge_lifecycle(run):
    # the system refusing a thread may end the process with an error, never with lost or doubled work
    if any(f.startswith("thread_fail") for f in run.res.faults()) and run.res.outcome in ("abort", "exit") and not run.res.num("races"):
        return None
    return component_judge(run)


def pool_check(prop, title, parts, budget):
    c = Check(prop, title)
    c.build("pool")
    n = len(parts)
    for wl, judge, kw in parts:
        if not c.search(pool_cases(wl, wl, **kw), judge, (budget * (20 if TIER == "thorough" else 1)) / n):
            break
    c.extra["real_code"] = "ThreadPool.h, ThreadPool.cpp, Application.cpp (pool start and restart)"
    c.extra["stub_code"] = "none below the pool except threads, locks, condition variables and heap, which the simulator provides"
    c.done()


def c01():
    pool_check("C01", "parallel loops", [("parfor", component_judge, {})], 25)


def c02():
    pool_check("C02", "ordered pipelines", [("ordered", component_judge, {})], 25)


def c03():
    pool_check("C03", "pool life cycle", [("lifecycle", judge_lifecycle, {"thread_fail": True}), ("restart", judge_lifecycle, {"thread_fail": True})], 25)
