"""C12: progress and clocks."""
import math, random
import simlib
from simlib import Case, Check, sub_seed
from props_engine import BASE, BUDGET, failing, first_difference
from props_faults import bad_end, reference
from props_front import FRONT, front_sweep, log_of
from props_pool import component_judge


def component_cases():
    i = 0
    while True:
        rng = random.Random(sub_seed("C12", i))
        wl = rng.choice(["progress", "progress", "estimators", "watches"])
        lines = ["sched=seq", f"work_seed={rng.getrandbits(40)}", f"alloc_seed={rng.getrandbits(30)}", f"fault_seed={rng.getrandbits(40)}", "max_ev=2000000", "wall_limit=60", "hb=0", f"tick_ns={rng.choice([1, 150, 150, 20000, 1000000])}"]
        if wl == "watches" and "tick_ns=1000000" in lines:
            lines.remove("tick_ns=1000000")
        if rng.random() < 0.4:
            lines += [f"pfault=clock_jump:{rng.choice([0.05, 0.5])}:50", "jumps=1"]
        yield Case(wl, lines, exe="progress", tag=wl)
        i += 1


def engine_lines(rng):
    l = [f"tick_ns={rng.choice([150, 2000, 20000, 200000, 1000000])}"]
    k = rng.choice(["", "jump", "jump", "jump", "slow", "net"])
    if k == "jump":
        l.append(f"pfault=clock_jump:{rng.choice([0.01, 0.2, 0.7])}:{rng.choice([5, 200])}")
    if k == "slow":
        l += ["p_stall=0.002", f"stall_len={rng.choice([50, 400])}"]
    if k == "net":
        l.append(f"pfault=net_delay:{rng.choice([0.1, 0.5])}:400")
    return l


def story(log, groups):
    """What is wrong with the progress that was told: it stays within 0..1 and never goes back; the end is 1."""
    a = [float(l[1]) for l in log if l[0] == "Progress"]
    for x in a:
        if not math.isfinite(x) or x < 0 or x > 1 + 1e-6:
            return "progress out of range", f"progress {x}"
    for x, y in zip(a, a[1:]):
        if y < x - 1e-6:
            return "progress goes back", f"progress {y} after {x}"
    return None


def judge_c12(run):
    if run.case.workload != "slice":
        return component_judge(run)
    o = run.case.oracle
    if "baseline_for" in o and not o["baseline_for"].endswith("/connected"):
        BASE.store(run, reference)
        return failing(run)
    ref = BASE.of(run.case, reference, "C12")
    if ref[0] != "exit" or ref[1] != 0 or ref[2] is None:
        return None
    b = bad_end(run)
    if b:
        return b
    if run.res.rc != 0:
        return "status", f"ended with status {run.res.rc}; faults {run.res.faults()[:5]}"
    log = log_of(run)
    v = story(log, o.get("groups", 1))
    if v:
        return v[0], f"profile {run.case.tag}: {v[1]}; faults {run.res.faults()[:5]}"
    a = [float(l[1]) for l in log if l[0] == "Progress"]
    if not a or abs(a[-1] - 1) > 1e-6:
        return "progress ends early", f"the last progress is {a[-1:]}"
    if run.file("front.gcode") != ref[2]:
        return "output", f"profile {run.case.tag}: the output differs: {first_difference(run.file('front.gcode') or b'', ref[2])}; faults {run.res.faults()[:5]}"
    return None


def c12():
    c = Check("C12", "progress")
    c.build("progress", "engine")
    c.search(component_cases(), judge_c12, 12 * BUDGET, nontrivial=lambda r: True)
    c.search(front_sweep("C12", FRONT, 5, engine_lines), judge_c12, 25 * BUDGET, nontrivial=lambda r: True)
    c.done()
