"""C16: painted voxels."""
import random
from simlib import Case, Check, sub_seed
from props_pool import component_judge
from props_engine import BUDGET


def sched(rng):
    """Two insertions into the map from the same position that are interleaved step by step make each other start over
    again and again, so that a thread has to be left alone for a while now and then (as any real scheduler does)."""
    l = [f"sched_seed={rng.getrandbits(40)}"]
    if rng.random() < 0.1:
        return l + ["sched=seq"]
    l += ["sched=random", f"p_sync={rng.choice([0.1, 0.05, 0.02, 0.004])}", f"quantum={rng.choice([0, 0, 300])}"]
    if rng.random() < 0.3:
        l += ["p_stall=0.05", f"stall_len={rng.choice([200, 5000])}"]
    return l


def cases():
    i = 0
    while True:
        rng = random.Random(sub_seed("C16", i))
        i += 1
        lines = [f"work_seed={rng.getrandbits(40)}", f"alloc_seed={rng.getrandbits(30)}", f"fault_seed={rng.getrandbits(40)}", "max_ev=4000000", "wall_limit=120", f"workers={rng.choice([1, 2, 3, 4])}"] + sched(rng)
        if rng.random() < 0.4:
            lines.append(f"pfault=spurious_wakeup:{rng.choice([0.02, 0.2])}:100")
        if rng.random() < 0.3:
            lines.append("pfault=stall:0.01:20")
        if rng.random() < 0.3:
            lines.append("pfault=spurious_cas:0.05:100")
        yield Case("voxels", lines, exe="voxels", tag="voxels")


judge_c16 = component_judge


def c16():
    c = Check("C16", "painted voxels")
    c.build("voxels")
    c.search(cases(), judge_c16, 30 * BUDGET)
    c.extra["real_code"] = "VoxelGrid.cpp, SpatialLookup.cpp, PlanarPolygon3LL, Segment3LL, ThreadPool, boost's concurrent map and r-tree"
    c.extra["stub_code"] = "the parallel algorithms of the standard library run on threads of the simulator instead of TBB's"
    c.done()
