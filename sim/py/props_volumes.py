"""C15: collision data for tree supports."""
import random
import profiles as PR
from simlib import Case, Check, TIER, sub_seed
from props_pool import component_judge, fine_sched
from props_engine import BUDGET

SETTINGS = "\n".join(PR.BASE) + "\n"


def cases():
    i = 0
    while True:
        rng = random.Random(sub_seed("C15", i))
        i += 1
        concurrent = rng.random() < 0.75
        lines = [f"work_seed={rng.getrandbits(40)}", f"alloc_seed={rng.getrandbits(30)}", f"fault_seed={rng.getrandbits(40)}", "max_ev=400000", "wall_limit=120",
                 f"workers={rng.choice([1, 2, 3, 4])}", f"concurrent={int(concurrent)}", "settings={D}/settings"] + fine_sched(rng)
        if rng.random() < 0.4:
            lines.append(f"pfault=spurious_wakeup:{rng.choice([0.02, 0.2])}:100")
        if rng.random() < 0.3:
            lines.append("pfault=stall:0.01:20")
        yield Case("volumes", lines, {"settings": SETTINGS.encode()}, exe="volumes", tag="concurrent" if concurrent else "in order")


judge_c15 = component_judge


def c15():
    c = Check("C15", "tree support collisions")
    c.build("volumes")
    c.search(cases(), judge_c15, 50 * BUDGET)
    c.extra["real_code"] = "TreeModelVolumes.cpp, geometry and clipper operations, Simplify, Settings, SliceDataStorage, ThreadPool"
    c.extra["stub_code"] = "models are outlines built directly; the connection is a silent receiver"
    c.done()
