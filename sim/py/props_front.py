"""C11: what a connected front-end receives. C12 (engine part): the progress it is told."""
import math, random
import front
import gcode
import profiles as PR
import simlib
from simlib import Check, TIER, sub_seed
from props_engine import BASE, BUDGET, HEAVY, LIMITS, OUT, add, engine_sched, failing, first_difference, threads_line
from props_faults import bad_end, reference

FRONT = [n for n in PR.ALL if n not in ("seamrandom", "paint")] + ["nextmod", "mix", "mix2", "mix3", "dualmix", "dualmix2", "supmix", "treemix", "modsmix"]
NET = ("net_refuse", "net_drop", "net_garbage")


def log_of(run):
    b = run.file("front.log")
    return [l.split() for l in (b or b"").decode(errors="replace").splitlines()]


def connected(run):
    return run.res.outcome, run.res.rc, (run.file("front.log") or b"").decode(errors="replace"), run.file("front.gcode")


def front_sweep(prop, names, variants, lines_of):
    """For every model: the command line's run, the connected run without faults, and variants of it."""
    rnd = 0
    while True:
        order = list(names)
        random.Random(sub_seed(prop, "order", rnd)).shuffle(order)
        for name in order:
            rng = random.Random(sub_seed(prop, name, rnd))
            if name in HEAVY and TIER != "thorough" and rnd % 3 != 2:
                continue
            case = PR.slice_case(name, rng, 3, rng.uniform(0.9, 1.8)) if name in PR.PROFILES else PR.next_case(rng, 3, n=rng.choice([2, 3])) if name == "next" else PR.next_case(rng, 3, n=3, modifier=rng.randrange(3)) if name == "nextmod" else PR.any_case(name, rng, 3)
            key = f"{name}/{rnd}"
            base = BASE.make(case, key, name)
            base = add(base, ["hb=0"])
            yield base
            conn = front.connected_case(case, rng)
            cb = add(threads_line(conn, 1), LIMITS + ["sched=seq", "alloc_seed=1", "hb=0"], "/reference")
            bj = base.to_json()
            cb.oracle.update({"baseline_for": key + "/connected", "key": key, "base": bj, "profile": name})
            yield cb
            cj = cb.to_json()
            for v in range(variants):
                w = rng.choice([1, 2, 3, 4])
                sched = ["sched=seq"] if rng.random() < 0.15 else engine_sched(rng, name in HEAVY and name)
                c = add(threads_line(conn, w), LIMITS + sched + [f"alloc_seed={rng.getrandbits(30)}", f"fault_seed={rng.getrandbits(40)}", "hb=0"] + lines_of(rng))
                c.oracle.update({"key": key, "base": bj, "key2": key + "/connected", "base2": cj, "profile": name})
                yield c
        rnd += 1


def c11_lines(rng):
    l = []
    if rng.random() < 0.7:
        l.append(f"pfault=net_delay:{rng.choice([0.01, 0.1, 0.5])}:{rng.choice([3, 50, 400])}")
    k = rng.choice(["", "", "", "drop", "drop", "drop", "garbage", "garbage", "refuse", "stall", "clock", "both"])
    if k == "drop":
        l.append(f"fault=net_drop@{rng.choice([0, 1, 2]) if rng.random() < 0.3 else int(2 ** rng.uniform(0, 7))}:1" if rng.random() < 0.7 else f"pfault=net_drop:{rng.choice([0.01, 0.1])}:1")
    if k in ("garbage", "both"):
        l.append(f"fault=net_garbage@0:{rng.randint(1, 9)}")
    if k == "refuse":
        l.append("fault=net_refuse@0:1")
    if k in ("stall", "both"):
        l.append(f"pfault=spurious_wakeup:{rng.choice([0.02, 0.2])}:40")
    if k == "clock":
        l.append(f"pfault=clock_jump:{rng.choice([0.01, 0.2])}:50")
    return l


def progress_story(log, groups):
    """Amounts the front-end was told, in order; None or what is wrong with them."""
    amounts = [float(l[1]) for l in log if l[0] == "Progress"]
    for a in amounts:
        if not math.isfinite(a) or a < -1e-6 or a > 1 + 1e-6:
            return "amount out of range", f"progress {a} is not between 0 and 1"
    return None


# what g-code comments call the lines the front-end gets by number, and the place of their times in the estimates
KINDS = {"WALL-OUTER": [1], "WALL-INNER": [2], "SKIN": [3], "SUPPORT": [4, 7], "SKIRT": [5], "FILL": [6], "SUPPORT-INTERFACE": [10], "PRIME-TOWER": [11]}
TIME_OF = {1: 1, 2: 2, 3: 3, 4: 4, 7: 7, 5: 5, 6: 6, 10: 10, 11: 11}


def per_setting(run):
    glob, ext, _, _ = front.parse_args(simlib.Case.from_json(run.case.oracle["base"]))
    return lambda t, k: ext.get(t, {}).get(k, glob.get(k, "0"))


def front_matches_gcode(run, log, g):
    """The layers shown are the layers of the g-code: numbers, heights, printed lengths and extents; estimates are those of its header."""
    shown = {int(l[1]): l for l in log if l[0] == "Layer"}
    I = gcode.Interp(g)
    grp, cur, G, kind, K, T = -1, None, {}, None, {}, {}
    of = per_setting(run)
    spiral = any(of(t, "magic_spiralize") == "true" for t in range(4))
    for e in I.events:
        if e[0] == "count":
            grp += 1
        elif e[0] == "layer":
            cur = (grp, e[2])
            kind = None
            G.setdefault(cur, [0.0, set(), 1e9, -1e9, 1e9, -1e9])
        elif e[0] == "type":
            kind = e[2]
        elif (e[0] == "ext" or e[1] in I.flat and not spiral) and cur is not None:
            _, n, t, x0, y0, z0, x1, y1, z1, de, f = e
            d = G[cur]
            d[0] += math.hypot(x1 - x0, y1 - y0)
            K.setdefault(cur, {})
            K[cur][kind] = K[cur].get(kind, 0.0) + math.hypot(x1 - x0, y1 - y0)
            T.setdefault(cur, {})
            T[cur][t] = T[cur].get(t, 0.0) + math.hypot(x1 - x0, y1 - y0)
            d[1].add(round(z1 * 1000))
            d[2], d[3], d[4], d[5] = min(d[2], x0, x1), max(d[3], x0, x1), min(d[4], y0, y1), max(d[5], y0, y1)
    base, cnt, prev = 0, 0, None
    number = {}
    for key in G:
        if prev is not None and key[0] != prev:
            base = cnt
        prev = key[0]
        number[key] = key[1] + base
        cnt += 1
    if sorted(number.values()) != sorted(shown):
        return "layers shown", f"the g-code has the layers {sorted(number.values())[:40]}, the front-end got {sorted(shown)[:40]}"
    offset = any(float(of(t, "machine_nozzle_offset_" + a)) for t in range(4) for a in "xy")  # moves are those of the head, lines those of the nozzle
    for key, d in G.items():
        l = shown[number[key]]
        if not d[1]:
            continue
        if not spiral and not any(abs(z - float(l[2])) <= 1 for z in d[1]):
            return "layer height shown", f"layer {l[1]} is shown at {l[2]}, but printed at {sorted(d[1])[:5]}"
        if spiral and number[key] == max(shown):
            continue
        if abs(d[0] - float(l[7])) > (0.3 + 0.006 * d[0] if spiral else 0.05 + 0.001 * d[0]):
            return "length shown", f"layer {l[1]}: lines of {l[7]} mm are shown, {d[0]:.3f} mm are printed"
        if not offset and max(abs(float(p) - q) for p, q in zip(l[8:12], d[2:6])) > 0.004:
            return "extents shown", f"layer {l[1]}: {l[8:12]} shown, {[round(q, 3) for q in d[2:6]]} printed"
        parts = {p.split(":")[0]: float(p.split(":")[1]) for p in next(k for k in log if k[0] == "Kinds" and k[1] == l[1])[2:]}
        for k, nums in KINDS.items():
            a, b = sum(parts.get(f"k{i}", 0.0) for i in nums), K.get(key, {}).get(k, 0.0)
            if abs(a - b) > (0.3 + 0.006 * b if spiral else 0.05 + 0.001 * b):
                return "kind of lines shown", f"layer {l[1]}: {a} mm of {k} are shown, {b:.3f} mm are printed"
        for t in range(4):
            a, b = parts.get(f"t{t}", 0.0), T.get(key, {}).get(t, 0.0)
            if abs(a - b) > (0.3 + 0.006 * b if spiral else 0.05 + 0.001 * b):
                return "extruder of lines shown", f"layer {l[1]}: {a} mm of extruder {t} are shown, {b:.3f} mm are printed"
    times = [float(x) for x in [l for l in log if l[0] == "Times"][0][1:]]
    for k, nums in KINDS.items():
        if not spiral and (sum(times[TIME_OF[i]] for i in nums) > 0) != any(K[c].get(k, 0.0) > 0 for c in K) and sum(K[c].get(k, 0.0) for c in K) > 0.3:
            return "time of a feature", f"the times are {times}, yet {k} is{'' if any(k in K[c] for c in K) else ' not'} printed"
    est = [l for l in log if l[0] == "Estimates"][0]
    for v in est[4:]:
        i, amount, length, weight, cost = (float(x) for x in v.split(":")[:5])
        i = int(i)
        if not math.isnan(amount):
            d, rho, sw, sc = (float(of(i, k)) for k in ("material_diameter", "material_density", "material_spool_weight", "material_spool_cost"))
            if abs(length * 1000 * math.pi * d * d / 4 - amount) > 1e-4 * amount + 1e-3 or abs(weight - amount * rho / 1000) > 1e-4 * weight + 1e-5 or abs(cost - (weight * sc / sw if sw > 0 else 0)) > 1e-4 * cost + 1e-5:
                return "material estimate", f"extruder {i}: {amount} mm3, {length} m, {weight} g, cost {cost} do not fit together"
            if T and amount > 1 and not any(T[c].get(i) for c in T):
                return "material estimate", f"extruder {i} uses {amount} mm3 but prints nothing"
        elif any(T[c].get(i, 0.0) > 0.3 for c in T):
            return "material estimate", f"extruder {i} prints but is said to be unused"
    if "TIME" in I.header and int(I.header["TIME"]) != int(float(est[3])) and abs(float(est[3]) - round(float(est[3]))) > 0.01:
        return "time estimate", f"{est[3]} s sent, {I.header['TIME']} in the g-code"
    if I.header.get("Filament used", "").endswith("m") and "m^3" not in I.header["Filament used"]:
        used = [float(v.strip().rstrip("m")) for v in I.header["Filament used"].split(",")]
        sent = [float(v.split(":")[2]) for v in est[4:]]
        for i, v in enumerate(used):
            if i < len(sent) and abs(v - sent[i]) > 1e-5 * max(1, v):
                return "material estimate", f"{sent} m sent, {used} in the g-code"
    return None


def judge_c11(run):
    o = run.case.oracle
    if "baseline_for" in o and not o["baseline_for"].endswith("/connected"):
        BASE.store(run, reference)
        return failing(run)
    ref = BASE.of(run.case, reference, "C11")
    if ref[0] != "exit" or ref[1] != 0 or ref[2] is None:
        return None
    if "baseline_for" in o:
        BASE.store(run, connected)
    b = bad_end(run)
    if b:
        return b
    r = run.res
    faults = [f.split("@")[0] for f in r.faults()]
    if r.rc != 0:
        return "status", f"ended with status {r.rc}; faults: {r.faults()[:5]}"
    log = log_of(run)
    g = run.file("front.gcode") or b""
    kinds = [l[0] for l in log]
    events = [" ".join(l[1:]) for l in log if l[0] == "--"]
    if "net_refuse" in faults:
        if any(k != "--" for k in kinds):
            return "messages without a connection", f"the connection was refused, yet the front-end received {kinds[:4]}"
        return None
    text = g
    if not ref[2].startswith(text):
        return "wrong g-code", f"profile {run.case.tag}: the g-code received is not the beginning of what the command line writes: {first_difference(text, ref[2])}; faults: {r.faults()[:5]}"
    layers = [l for l in log if l[0] == "Layer"]
    if any(l[-1] != "ok" for l in layers):
        return "malformed layer", f"a layer's arrays do not fit together: {[l for l in layers if l[-1] != 'ok'][0]}"
    ids = [int(l[1]) for l in layers]
    if len(set(ids)) != len(ids):
        return "layer twice", f"layers received twice: {sorted(i for i in ids if ids.count(i) > 1)[:5]}"
    for k in ("Estimates", "InitialExtruder", "SlicingFinished"):
        if kinds.count(k) > 1:
            return f"{k} twice", f"{k} was received {kinds.count(k)} times"
    if "Unknown" in kinds:
        return "unknown message", str(log[kinds.index("Unknown")])
    if "SlicingFinished" in kinds and any(k not in ("--",) for k in kinds[kinds.index("SlicingFinished") + 1:]):
        return "messages after the end", f"after SlicingFinished came {kinds[kinds.index('SlicingFinished') + 1:][:4]}"
    if "baseline_for" not in o:
        cref = BASE.of(run.case, connected, "C11", "key2", "base2")
        reflog = [l.split() for l in cref[2].splitlines()]
        known = {l[1]: l for l in reflog if l[0] == "Layer"}
        for l in layers:
            if l != known.get(l[1]):
                return "wrong layer", f"profile {run.case.tag}: layer {l[1]} differs from the one of the undisturbed run: {l} instead of {known.get(l[1])}; faults: {r.faults()[:5]}"
        est = [l for l in log if l[0] in ("Estimates", "InitialExtruder")]
        rest = [l for l in reflog if l[0] in ("Estimates", "InitialExtruder")]
        if est and est != rest[:len(est)]:
            return "wrong estimates", f"{est} instead of {rest}"
        if "connection lost" not in events and len(layers) != len(known):
            return "missing layers", f"{len(layers)} of {len(known)} layers arrived"
    if "connection lost" in events:
        return None
    if "slice sent" not in events:
        return "no slice", f"the slice message was not taken; {events}"
    if text != ref[2]:
        return "missing g-code", f"{len(text)} of {len(ref[2])} bytes of g-code arrived; faults: {r.faults()[:5]}"
    for k in ("Estimates", "InitialExtruder", "SlicingFinished"):
        if kinds.count(k) != 1:
            return f"no {k}", f"{k} was not received; faults: {r.faults()[:5]}"
    if "baseline_for" in o and ids and [i for i in sorted(ids) if i >= 0] != list(range(max(ids) + 1)):
        return "gap between layers", f"layers received: {sorted(ids)[:50]}"
    nl = ref[2].count(b"\n;LAYER:")
    if not ids and nl:
        return "no layers", "no layer was received"
    if "baseline_for" in o and len(ids) < nl:
        return "missing layers", f"{len(ids)} layers were received, the g-code has {nl}"
    if "baseline_for" in o:
        return front_matches_gcode(run, log, ref[2])
    return None


def c11():
    c = Check("C11", "front-end")
    c.build("engine")
    c.search(front_sweep("C11", FRONT, 6, c11_lines), judge_c11, 40 * BUDGET, nontrivial=lambda r: True)
    c.extra["real_code"] = "the whole engine from main() on with its front-end connection; libArcus is a simulated transport, the front-end is a script"
    c.done()
