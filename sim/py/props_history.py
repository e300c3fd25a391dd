"""What the finished g-code tells as a history: C14 (layers), C18 (announced totals), C20 (what the machine is asked to do)."""
import random, re
import gcode
import profiles as PR
from simlib import Check, TIER, sub_seed
from props_engine import BASE, BUDGET, HEAVY, LIMITS, OUT, add, engine_sched, failing, threads_line

NAMES = [n for n in PR.ALL if n not in ("paint",)]


def settings_of(case):
    d = {}
    for l in case.lines:
        if l.startswith("arg=") and "=" in l[4:]:
            k, v = l[4:].split("=", 1)
            d[k] = v
    return d


def per_extruder(case):
    """A function from the name of a setting to its values for the extruders."""
    glob, ext, ctx = {}, {}, None
    for l in case.lines:
        if not l.startswith("arg="):
            continue
        a = l[4:]
        if re.fullmatch(r"-e\d+", a):
            ctx = ext.setdefault(int(a[2:]), {})
        elif a in ("-l", "-g", "--next"):
            ctx = None if a != "-l" else {}
        elif "=" in a:
            (glob if ctx is None else ctx).update([a.split("=", 1)])
    n = int(glob.get("machine_extruder_count", 1))
    return lambda k: [str(ext.get(t, {}).get(k, glob.get(k))).replace("True", "true").replace("False", "false") for t in range(n)]


def history_cases(prop, mix_share=0.6):
    """Single runs: profiles and random mixes, one schedule each."""
    i = 0
    while True:
        rng = random.Random(sub_seed(prop, "history", i))
        i += 1
        u = rng.random()
        if u < mix_share:
            case = PR.any_case(rng.choices(["mix", "dualmix", "modsmix", "treemix", "supmix"], [10, 5, 2, 3, 3])[0], rng, 3)
        else:
            name = rng.choice(NAMES)
            if name in HEAVY and rng.random() < 0.7:
                continue
            case = PR.next_case(rng, 3, n=rng.choice([2, 3, 4]), modifier=rng.choice([None, None, 0, 1])) if name == "next" else PR.any_case(name, rng, 3)
            case.tag = name + "/" + case.tag
        sched = ["sched=seq"] if rng.random() < 0.2 else engine_sched(rng, True)
        yield add(threads_line(case, rng.choice([1, 2, 3, 4])), LIMITS + sched + [f"alloc_seed={rng.getrandbits(30)}", f"fault_seed={rng.getrandbits(40)}", "hb=0"] + (["pfault=clock_jump:0.1:50"] if rng.random() < 0.15 else []))


def ended(run):
    return failing(run)


def judge_c14(run):
    v = ended(run)
    if v:
        return v
    g = run.file(OUT) or b""
    d = settings_of(run.case)
    groups = sum(1 for l in run.case.lines if l == "arg=--next") + 1 - ("/modifier" in run.case.tag)  # one group may have nothing to print
    raft = d["adhesion_type"] == "raft"
    w = gcode.check_layers(g, groups, raft)
    if w:
        return "layers", f"{run.case.tag[:300]}: {w}"
    I = gcode.Interp(g)
    # The start of a scarf seam slopes up from the height of the layer below; on a raft the first layer lies higher than the others by this much.
    scarf = raft and float(d["scarf_joint_seam_length"]) > 0
    w = gcode.check_heights(I, lower_z_ok=float(d["layer_0_z_overlap"]) if scarf else 0.0)
    if w:
        return "heights", f"{run.case.tag[:300]}: {w}"
    if d["magic_spiralize"] != "true" and d["adaptive_layer_height_enabled"] != "true":
        h0 = float(d["layer_height_0"])
        first = None
        if raft:
            h0 += float(d["raft_airgap"]) + float(d["raft_base_thickness"])
            h0 += sum(int(d[f"raft_{k}_layers"]) * float(d[f"raft_{k}_thickness"]) for k in ("interface", "surface"))
            first = h0
            h0 -= float(d["layer_0_z_overlap"])
        w = gcode.check_layer_z(I, h0, float(d["layer_height"]), first)
        if w:
            return "layer height", f"{run.case.tag[:300]}: {w}"
    return None


def judge_c18(run):
    v = ended(run)
    if v:
        return v
    I = gcode.Interp(run.file(OUT) or b"")
    w = gcode.check_totals(I, [2.85] * 4)
    return ("totals: " + w.split(":")[0], f"{run.case.tag[:300]}: {w}") if w else None


def judge_c20(run):
    v = ended(run)
    if v:
        return v
    g = run.file(OUT) or b""
    w = gcode.check_frame(g, b";Testing", b";end")
    if w:
        return "frame", f"{run.case.tag[:300]}: {w}"
    I = gcode.Interp(g)
    w = gcode.check_protocol(I, per_extruder(run.case), float(settings_of(run.case)["prime_during_travel_ratio"]) > 0)
    return ("protocol: " + re.sub(r"[\d.-]+", "n", w), f"{run.case.tag[:300]}: {w}") if w else None


def history(prop, title, judge):
    def run():
        c = Check(prop, title)
        c.build("engine")
        c.search(history_cases(prop), judge, 35 * BUDGET)
        c.extra["real_code"] = "the whole engine from main() on"
        c.done()
    return run


c14 = history("C14", "layers", judge_c14)
c18 = history("C18", "totals", judge_c18)
c20 = history("C20", "machine protocol", judge_c20)
