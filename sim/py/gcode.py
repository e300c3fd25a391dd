"""A small interpreter of g-code: the history the machine would see."""
import json
import math
import re


def layers(g):
    """[(group, layer number)] in order of appearance, and announced layer counts in order."""
    seq, counts = [], []
    for m in re.finditer(rb"^;(LAYER|LAYER_COUNT):(-?\d+)\s*$", g, re.M):
        if m.group(1) == b"LAYER":
            seq.append((len(counts) - 1, int(m.group(2))))
        else:
            counts.append(int(m.group(2)))
    return seq, counts


NUMBER = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)")


class Interp:
    """Runs through a file; collects events: ('ext', line, tool, x0, y0, z0, x1, y1, z1, de), ('prime', ...) for retracted filament pushed forward while moving, ('travel', ...), ('tool', ...), ('temp', line, tool, t, wait), ('layer', n), ('count', n)."""

    def __init__(self, g):
        self.header = {}
        self.events = []
        self.extruded = {}  # tool -> net filament pushed forward, in the file's unit
        self.minmax = None
        self.elapsed = []
        self.errors = []
        self.flat = set()  # lines which are printed with no filament, where others give enough
        x = y = z = e = 0.0
        tool = 0
        rel = False
        cum, top = {}, {}
        self.head_lines = 0
        feed = 0.0  # mm/min
        self.fastest = []  # per part of the file up to a TIME_ELAPSED: seconds its moves take at their speeds at least
        least, counting = 0.0, False
        linear = b"FLAVOR:UltiGCode" not in g and b"Volumetric" not in g  # E counts millimetres
        for n, raw in enumerate(g.decode("latin-1").split("\n"), 1):
            line = raw.strip()
            if not line:
                continue
            if line[0] == ";":
                k, c, v = line[1:].partition(":")
                if c:
                    if k == "LAYER":
                        self.events.append(("layer", n, int(v)))
                    elif k == "LAYER_COUNT":
                        counting = True
                        self.events.append(("count", n, int(v)))
                    elif k == "TIME_ELAPSED":
                        self.elapsed.append(float(v))
                        self.fastest.append(least)
                        least = 0.0
                        self.events.append(("elapsed", n, float(v)))
                    elif k == "TYPE":
                        self.events.append(("type", n, v))
                    elif k == "MESH":
                        self.events.append(("mesh", n, v))
                    elif k not in self.header:
                        self.header[k] = v
                continue
            line = line.split(";")[0].strip()
            f = line.split()
            c = f[0]
            a = {}
            for w in f[1:] if c != "M117" else ():  # the rest of M117 is text for the display
                if NUMBER.fullmatch(w[1:]):
                    a[w[0]] = float(w[1:])
                else:
                    self.errors.append((n, f"not a number: {line[:80]}"))
            if c in ("G0", "G1"):
                nx, ny, nz = a.get("X", x), a.get("Y", y), a.get("Z", z)
                de = 0.0
                if "E" in a:
                    de = a["E"] if rel else a["E"] - e
                    e = e + de if rel else a["E"]
                moved = abs(nx - x) + abs(ny - y) > 0
                feed = a.get("F", feed)
                if counting and feed > 0:
                    least += 60 / feed * (math.dist((x, y, z), (nx, ny, nz)) or (abs(de) if linear else 0.0))
                kind = "ext" if de > 0 and moved else "travel" if de == 0 else "e"
                cum[tool] = cum.get(tool, 0.0) + de
                if kind == "ext" and cum[tool] - de < top.get(tool, 0.0) - 0.01:
                    kind = "prime"  # pushes retracted filament forward on the way, prints nothing
                top[tool] = max(top.get(tool, 0.0), cum[tool])
                if kind == "travel" and moved and c == "G1":
                    self.flat.add(n)
                self.events.append((kind, n, tool, x, y, z, nx, ny, nz, de, a.get("F")))
                x, y, z = nx, ny, nz
                self.extruded[tool] = self.extruded.get(tool, 0.0) + de
            elif c == "G92":
                if "E" in a:
                    e = a["E"]
                    self.events.append(("g92", n, tool, e))
            elif c == "M82":
                rel = False
            elif c == "M83":
                rel = True
            elif c in ("G10", "G11"):
                self.events.append((c, n, tool))
            elif re.fullmatch(r"T\d+", c) or c == "M135" and "T" in a:
                tool = int(c[1:] if c[0] == "T" else a["T"])
                self.events.append(("tool", n, tool))
            elif c in ("M106", "M126"):
                self.events.append(("fan", n, a.get("S", 255.0 if c == "M106" else 1.0)))
            elif c in ("M201", "M203", "M204", "M205"):
                self.events.append(("limit", n, c, a))
            elif c == "M116":
                self.events.append(("waitall", n))
            elif c in ("M104", "M109"):
                t = int(a.get("T", tool))
                self.events.append(("temp", n, t, a.get("S", 0.0), c == "M109"))
            elif c in ("M140", "M190"):
                self.events.append(("bed", n, a.get("S", 0.0), c == "M190"))
            else:
                self.events.append(("other", n, c, line))


def check_layers(g, groups=1, raft=False, spiral=False):
    """None, or what is wrong with the sequence of layers."""
    seq, counts = layers(g)
    if len(counts) != groups:
        return f"{len(counts)} layer counts announced for {groups} groups of objects"
    per = {}
    last = -1
    for grp, n in seq:
        if grp < last:
            return "layers of an earlier group after those of a later one"
        last = grp
        per.setdefault(grp, []).append(n)
    for grp in range(groups):
        ns = per.get(grp, [])
        neg = [n for n in ns if n < 0]
        pos = [n for n in ns if n >= 0]
        if ns != sorted(ns) or len(set(ns)) != len(ns):
            bad = next((f"{b} after {a}" for a, b in zip(ns, ns[1:]) if b <= a), "?")
            return f"group {grp}: layers out of order or repeated ({bad})"
        if pos != list(range(counts[grp])):
            miss = sorted(set(range(counts[grp])) - set(pos))
            more = sorted(set(pos) - set(range(counts[grp])))
            return f"group {grp}: {counts[grp]} layers announced, missing {miss[:5]}, surplus {more[:5]}"
        if neg and not raft:
            return f"group {grp}: layers below the first one without a raft: {neg[:5]}"
        if raft:
            if not neg:
                return f"group {grp}: no raft layers"
            gaps = sum(1 for a, b in zip(neg, neg[1:]) if b != a + 1)
            if gaps > 1:
                return f"group {grp}: raft layers are missing: {neg}"
    return None


def check_heights(I, spiral=False, lower_z_ok=0.0):
    """Extrusion never goes back down below the previous layer within a group."""
    layer, grp = None, -1
    top = None
    cur = None
    for ev in I.events:
        if ev[0] == "count":
            grp += 1
            top = cur = None
        elif ev[0] == "layer":
            layer = ev[2]
            top = cur if cur is not None else top
            cur = None
        elif ev[0] == "ext":
            z = ev[8]
            if top is not None and z < top - 1e-6 - lower_z_ok:
                return f"line {ev[1]}: layer {layer} extrudes at height {z} after the previous layer was at {top}"
            cur = z if cur is None else max(cur, z)
        elif ev[0] == "travel" and (ev[3], ev[4]) != (ev[6], ev[7]) and top is not None and ev[8] < top - 1e-6 - lower_z_ok:
            return f"line {ev[1]}: layer {layer} travels at height {ev[8]} after the previous layer was at {top}"
    return None


def check_layer_z(I, h0, h, first=None):
    """The highest extrusion of layer n is at its nominal height (of layer 0 at `first`, if given)."""
    grp, layer, z = -1, None, None
    done = []
    for ev in I.events:
        if ev[0] in ("count", "layer"):
            if layer is not None and z is not None:
                done.append((layer, z))
            layer, z = (None, None) if ev[0] == "count" else (ev[2], None)
        elif ev[0] == "ext" and layer is not None:
            z = max(z or 0.0, ev[8])
    done.append((layer, z))
    for n, z in done:
        want = first if n == 0 and first is not None else h0 + (n or 0) * h
        if n is not None and n >= 0 and z is not None and abs(z - want) > 0.0035:
            return f"layer {n} is printed at {z}, its height is {want:.3f}"
    return None


def filament(I):
    """Net filament per tool pushed out at most so far: retracted filament is not used up."""
    cum, mx = {}, {}
    for ev in I.events:
        if ev[0] in ("ext", "prime", "travel", "e"):
            t = ev[2]
            cum[t] = cum.get(t, 0.0) + ev[9]
            mx[t] = max(mx.get(t, 0.0), cum[t])
    return mx


def check_totals(I, diameters, slack_mm=0.02):
    h = I.header
    fil = filament(I)
    import math
    if "Filament used" in h:
        if "mm3" in h["Filament used"]:
            vals = [float(x.strip()[:-3]) for x in h["Filament used"].split(",")]
            got = {t: v for t, v in fil.items()}
            tol = 1.0
        else:
            vals = [float(x.strip().rstrip("m")) * 1000 for x in h["Filament used"].split(",")]
            got = fil
            tol = 0.05
        for t in range(max(len(vals), max(got, default=0) + 1)):
            a = vals[t] if t < len(vals) else 0.0
            b = got.get(t, 0.0)
            if abs(a - b) > tol + 1e-4 * max(a, b):
                return f"filament of extruder {t}: {a:.3f} announced, the moves use {b:.3f}"
    if "MATERIAL" in h:
        for t, k in ((0, "MATERIAL"), (1, "MATERIAL2")):
            a, b = float(h.get(k, 0)), fil.get(t, 0.0)
            if abs(a - b) > 1.5 + 1e-4 * b:
                return f"material of extruder {t}: {a} announced, the moves use {b:.2f}"
    for t in range(4):
        k = f"EXTRUDER_TRAIN.{t}.MATERIAL.VOLUME_USED"
        if k in h:
            a, b = float(h[k]), fil.get(t, 0.0) * math.pi * (diameters[t] / 2) ** 2
            if abs(a - b) > 1.5 + 1e-4 * b:
                return f"material volume of extruder {t}: {a} announced, the moves use {b:.2f}"
    T = h.get("TIME") or h.get("PRINT.TIME")
    if T is not None and I.elapsed:
        if abs(float(T) - I.elapsed[-1]) > 1.01 and not (float(T) >= I.elapsed[-1] and float(T) - I.elapsed[-1] < 5):
            return f"time: {T} announced, layers add up to {I.elapsed[-1]}"
    if any(b < a for a, b in zip(I.elapsed, I.elapsed[1:])):
        return "elapsed time goes back"
    for i, (a, b) in enumerate(zip([0.0] + I.elapsed, I.elapsed)):
        if b - a < I.fastest[i] - 0.03 - 0.01 * I.fastest[i]:
            return f"time of a layer: part {i} takes {b - a:.2f} s, its moves at their speeds {I.fastest[i]:.2f} s"
    for ax, i0, i1 in (("X", 3, 6), ("Y", 4, 7), ("Z", 5, 8)):
        for pre in ("MIN" + ax, "PRINT.SIZE.MIN." + ax):
            if pre in h:
                lo, hi = float(h[pre]), float(h[pre.replace("MIN", "MAX")])
                vals = [v for e in I.events if e[0] == "ext" for v in (e[i0], e[i1])]
                if vals and (min(vals) < lo - 0.002 or max(vals) > hi + 0.002):
                    return f"extent along {ax}: {lo}..{hi} announced, extrusion covers {min(vals)}..{max(vals)}"
    return None


def check_frame(g, start, end):
    """The start code of the machine comes once and before the first move, the end code once and after the last one."""
    lines = [l.strip() for l in g.split(b"\n")]
    moves = [i for i, l in enumerate(lines) if re.match(rb"G[01] .*[XY]", l)]
    for name, code in (("start", start), ("end", end)):
        if lines.count(code) != 1:
            return f"the {name} code comes {lines.count(code)} times"
    if moves and not lines.index(start) < moves[0]:
        return "moves before the start code"
    if moves and not lines.index(end) > moves[-1]:
        return "moves after the end code"
    return None


def check_protocol(I, d, prime_while_moving=False):
    """Commands are well-formed and sane; extrusion only when not retracted and, where the file controls temperature, only when told to be hot. d: values of a setting for each extruder."""
    if I.errors:
        return f"line {I.errors[0][0]}: {I.errors[0][1]}"
    count = len(d("material_standby_temperature"))
    low, high = [], []
    for t in range(count):
        ts = [float(d(k)[t]) for k in ("material_print_temperature", "material_print_temperature_layer_0", "material_initial_print_temperature", "material_final_print_temperature")]
        if d("material_flow_dependent_temperature")[t] == "true":
            ts += [p[1] for p in json.loads(d("material_flow_temp_graph")[t])]
        ts = [x for x in ts if x]
        delta = [0.0, float(d("material_delta_temperature_roofing")[t])]
        low.append(min(ts + [float(d("cool_min_temperature")[t])]) + min(delta) - 0.5)
        high.append(max(ts) + max(delta) + 0.5)
    shared = d("machine_extruders_share_heater")[0] == "true"
    if shared:  # heats for the next material while the one before is in use, and the other way round
        low, high = [min(low)] * count, [max(high)] * count
    fan_max = 1.0 if d("machine_scale_fan_speed_zero_to_one")[0] == "true" else 255.0
    cum, mx, target, fw, waited = {}, {}, {}, {}, {}
    tool = last = 0
    used = set()
    for ev in I.events:
        k = ev[0]
        if k in ("ext", "prime", "travel", "e"):
            t = ev[2]
            before = cum.get(t, 0.0)
            cum[t] = before + ev[9]
            if ev[10] is not None and not ev[10] > 0:
                return f"line {ev[1]}: a move at a speed of {ev[10]}"
            if k in ("ext", "prime"):
                if fw.get(t):
                    return f"line {ev[1]}: extrudes while the filament is retracted by the firmware"
                if before < mx.get(t, 0.0) - 0.02 and not prime_while_moving:
                    return f"line {ev[1]}: extrudes while {mx[t] - before:.2f} of filament are retracted"
                if t in target and not low[t] <= target[t] <= high[t]:
                    return f"line {ev[1]}: extruder {t} extrudes at a target of {target[t]} degrees"
                last = t
                used.add(t)
                if waited.get(t) is False:
                    return f"line {ev[1]}: extruder {t} extrudes after a change of tool, without waiting for its temperature"
            mx[t] = max(mx.get(t, 0.0), cum[t])
        elif k == "temp":
            if not 0 <= ev[3] <= max(high):
                return f"line {ev[1]}: a temperature of {ev[3]} degrees"
            if not 0 <= ev[2] < count:
                return f"line {ev[1]}: a temperature for extruder {ev[2]} of {count}"
            for t in range(count) if shared else (ev[2],):
                target[t] = ev[3]
            if ev[4]:
                waited.pop(ev[2], None)
            elif ev[2] != tool:
                waited[ev[2]] = False  # heats up or cools down while another one is in use
        elif k == "waitall":
            waited = {}
        elif k == "tool":
            tool = ev[2]
            if tool >= count:
                return f"line {ev[1]}: extruder {tool} of {count}"
        elif k == "fan":
            if not 0 <= ev[2] <= fan_max:
                return f"line {ev[1]}: a fan speed of {ev[2]}"
        elif k == "limit":
            if any(v < 0 or v == 0 and ev[2] != "M205" for v in ev[3].values()):
                return f"line {ev[1]}: a limit of the machine of {ev[3]}"
        elif k == "bed":
            if not 0 <= ev[2] <= 150:
                return f"line {ev[1]}: a bed temperature of {ev[2]}"
        elif k == "G10":
            fw[ev[2]] = True
        elif k == "G11":
            fw[ev[2]] = False
    for t in used - {last}:
        standby = float(d("material_standby_temperature")[t])
        if t in target and not shared and not target[t] <= standby + 0.5:
            return f"extruder {t} is left at {target[t]} degrees, not at its standby temperature of {standby}, when it is not used any more"
    return None
