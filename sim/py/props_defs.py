"""C09: where settings come from."""
import json, random
import models as M
import profiles as PR
import simlib
from simlib import Case, Check, sub_seed
from props_engine import BASE, BUDGET, LIMITS, OUT, add, engine_sched, first_difference, threads_line
from props_faults import ERRORS, bad_end, fired

BASEV = dict(l.split("=", 1) for l in PR.BASE)
VARY = {"infill_sparse_density": ["15", "35"], "infill_line_distance": ["2.5", "3", "5"], "wall_line_count": ["1", "2", "3"], "speed_wall_0": ["21", "25.5"], "speed_infill": ["44", "71"],
        "speed_travel": ["99", "150"], "material_print_temperature": ["205", "199"], "material_final_print_temperature": ["190"], "retraction_amount": ["4.5", "5"], "top_layers": ["1", "2"],
        "bottom_layers": ["1", "2"], "skirt_line_count": ["2", "3"], "cool_fan_speed_max": ["60"], "machine_start_gcode": [";begin \"a\" \\n b", ";ä"], "machine_end_gcode": [";fin"],
        "layer_height": ["0.25"], "retraction_speed": ["20"], "brim_line_count": ["3"]}
NUMERIC = {"infill_line_distance", "speed_wall_0", "speed_infill", "speed_travel", "retraction_amount", "layer_height", "infill_sparse_density"}


def value_text(v):
    """How a JSON value is turned into the text of a setting (None: not a value)."""
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return "%f" % v
    if isinstance(v, list):
        return "[" + ",".join(value_text(x) for x in v) + "]"
    return None


def dummy_value(rng, depth=0):
    k = rng.randrange(6 if depth == 0 else 4)
    if k == 0:
        return rng.choice([True, False])
    if k == 1:
        return rng.choice(["text", "a=b", "two words", "-1", "x" * rng.randint(1, 300), "tab\tand 'quotes'"])
    if k == 2:
        return rng.choice([0, 1, -3, 12345, 0.5, 1e6, -0.25, rng.randint(0, 10 ** 6) / 64])
    if k == 3:
        return str(rng.randint(0, 99))
    return [dummy_value(rng, depth + 1) for _ in range(rng.randint(0, 4))]


class World:
    """Definition files and command line, and the reference model of what they mean."""

    def __init__(self, rng):
        self.rng = rng
        self.files = {}  # path below {D} -> JSON document (or bytes)
        self.keys = set()
        self.search = []
        self.g = {}
        self.extruders = [{}]
        self.groups = [{}]
        self.objects = [[]]  # per group: (own settings, snapshot of the parent chain below them)
        self.limit = {}
        self.forced = {"parent": False, "nondefault": False}

    # -- reference of the loader
    def find(self, id):
        for d in self.search:
            if f"{d}/{id}.def.json" in self.files:
                return f"{d}/{id}.def.json"
        return None

    def load_settings(self, tree, into):
        for name, o in tree.items():
            if not isinstance(o, dict):
                continue
            if "children" in o:
                self.load_settings(o["children"], into)
                if not self.forced["parent"]:
                    continue
            if "default_value" not in o and (not self.forced["nondefault"] or "value" not in o or name in into):
                continue
            t = value_text(o["default_value"] if "default_value" in o else o["value"])
            if t is not None:
                into[name] = t

    def load(self, path, into):
        doc = self.files[path]
        self.search.append(path.rpartition("/")[0])
        if "inherits" in doc:
            self.load(self.find(doc["inherits"]), into)
        for nr, id in doc.get("metadata", {}).get("machine_extruder_trains", {}).items():
            while len(self.extruders) <= int(nr):
                self.extruders.append({})
            f = self.find(id)
            if f:
                self.load(f, self.extruders[int(nr)])
        self.load_settings(doc.get("settings", {}), into)
        self.load_settings(doc.get("overrides", {}), into)

    # -- lookup
    def effective(self, cont, key):
        def chain(c):
            if c == "g":
                return [self.g]
            if c[0] == "m":
                return [self.groups[int(c[1:])], self.g]
            if c[0] == "e":
                n = int(c[1:])
                return [self.extruders[n], self.groups[-1], self.g] if n < len(self.extruders) else None
            a, b = c[1:].split(".")
            return [self.objects[int(a)][int(b)], self.g]

        ch = chain(cont)
        if ch is None:
            return None
        if key in ch[0]:
            return ch[0][key]
        if key in self.limit:
            for s in chain("e%d" % self.limit[key]):
                if key in s:
                    return s[key]
        for s in ch[1:]:
            if key in s:
                return s[key]
        return None


def setting_tree(rng, values, w, depth=0):
    """Puts values into nested categories and parents."""
    names = list(values)
    rng.shuffle(names)
    t = {}
    i = 0
    while i < len(names):
        if depth < 3 and rng.random() < (0.3 if depth else 0.9):
            n = rng.randint(1, max(1, len(names) // (2 if depth else 8)))
            sub = {k: values[k] for k in names[i:i + n]}
            i += n
            parent = f"cat{rng.getrandbits(20)}" if rng.random() < 0.6 else f"dummy{rng.randrange(12)}"
            o = {"label": "x", "children": setting_tree(rng, sub, w, depth + 1)}
            if parent.startswith("dummy"):
                w.keys.add(parent)
                if parent in values or parent in t:
                    continue_name = f"cat{rng.getrandbits(20)}"
                    parent = continue_name
                else:
                    if rng.random() < 0.7:
                        o["default_value"] = dummy_value(rng)
                    if rng.random() < 0.5:
                        o["value"] = dummy_value(rng)
            t[parent] = o
        else:
            k = names[i]
            i += 1
            o = {"description": "d", "type": "float"}
            v = values[k]
            if k.startswith("dummy") and rng.random() < 0.25:
                o["value"] = v  # without a default value
                if rng.random() < 0.3:
                    o["default_value"] = dummy_value(rng)
            else:
                o["default_value"] = v
                if rng.random() < 0.3:
                    o["value"] = "extruderValue(0, 'x')"
            if k not in t:
                t[k] = o
    return t


def pick_values(rng, n_real, n_dummy, keys):
    v = {}
    for k in rng.sample(sorted(VARY), n_real):
        x = rng.choice(VARY[k])
        v[k] = float(x) if k in NUMERIC and rng.random() < 0.4 else x
        keys.add(k)
    for _ in range(n_dummy):
        k = f"dummy{rng.randrange(12)}"
        v[k] = dummy_value(rng)
        keys.add(k)
    return v


def definition_case(rng, tag):
    """-j: definition files with inheritance and extruder trains."""
    w = World(rng)
    dirs = [f"defs/{x}" for x in ("a", "b", "c")]
    n_ext = rng.choice([1, 1, 2, 3])
    base = dict(BASEV)
    base.update(PR.FAST)
    base.update({"machine_extruder_count": str(n_ext), "extruders_enabled_count": str(n_ext)})
    w.files[f"{rng.choice(dirs)}/base.def.json"] = {"version": 2, "name": "base", "settings": setting_tree(rng, {**base, **pick_values(rng, 0, 5, w.keys)}, w)}

    def middle(name, parent, dummies=4):
        d = {"version": 2, "name": name}
        if parent:
            d["inherits"] = parent
        if rng.random() < 0.5:
            d["settings"] = setting_tree(rng, pick_values(rng, 0, 3, w.keys), w)
        d["overrides"] = {k: {"default_value": v} if rng.random() < 0.85 or not k.startswith("dummy") else {"value": v} for k, v in pick_values(rng, rng.randint(1, 5), dummies, w.keys).items()}
        return d

    chain = ["base"]
    for i in range(rng.randint(0, 3)):
        w.files[f"{rng.choice(dirs)}/level{i}.def.json"] = middle(f"level{i}", chain[-1])
        chain.append(f"level{i}")
    if len(chain) > 1 and rng.random() < 0.3:
        # a file of the same name in a directory that is searched later or earlier
        id = rng.choice(chain[1:])
        d = next(x for x in dirs if f"{x}/{id}.def.json" not in w.files)
        w.files[f"{d}/{id}.def.json"] = middle(id, chain[chain.index(id) - 1])
    mdir = rng.choice(dirs)
    machine = middle("machine", chain[-1])
    trains = {}
    if rng.random() < 0.8:
        w.files[f"{rng.choice(dirs)}/extbase.def.json"] = middle("extbase", None)
        for i in rng.sample(range(n_ext), n_ext):
            id = f"ext{i}"
            w.files[f"{rng.choice(dirs)}/{id}.def.json"] = middle(id, rng.choice(["extbase", None, "extbase"]), 5)
            trains[str(i)] = id
        machine["metadata"] = {"machine_extruder_trains": trains, "author": "x"}
    w.files[f"{mdir}/machine.def.json"] = machine

    args, env = [], []
    order = dirs[:]
    rng.shuffle(order)
    if rng.random() < 0.7:
        args += ["-d", ":".join("{D}/" + d for d in order)]
    else:
        env.append("env=CURA_ENGINE_SEARCH_PATH=" + ":".join("{D}/" + d for d in order))
    w.search = order[:]
    if rng.random() < 0.4:
        args.append(rng.choice(["--force-read-parent", "--force_read_parent"]))
        w.forced["parent"] = True
    if rng.random() < 0.4:
        args.append(rng.choice(["--force-read-nondefault", "--force_read_nondefault"]))
        w.forced["nondefault"] = True
    if (w.forced["parent"] or w.forced["nondefault"]) and rng.random() < 0.2:
        args.append("--end-force-read")
        w.forced = {"parent": False, "nondefault": False}
    args += ["-j", f"{{D}}/{mdir}/machine.def.json"]
    w.load(f"{mdir}/machine.def.json", w.g)
    while len(w.extruders) < int(float(w.g["machine_extruder_count"])):
        w.extruders.append({})
    return command_line(rng, w, args, env, n_ext, tag)


def command_line(rng, w, args, env, n_ext, tag, load=True):
    """The rest of the command line: overrides, extruders, objects."""
    def more(into, n_real, n_dummy):
        a = []
        for k, v in pick_values(rng, n_real, n_dummy, w.keys).items():
            t = value_text(v)
            if t.startswith("-") and False:
                continue
            a += ["-s", f"{k}={t}"]
            into[k] = t
        return a

    args += more(w.g, rng.randint(0, 3), 2)
    order = list(range(n_ext))
    rng.shuffle(order)
    cur = None
    files = {}
    n_groups = rng.choice([1, 1, 1, 2]) if load else 1
    if n_groups > 1:
        args += ["-s", "print_sequence=one_at_a_time"]
        w.g["print_sequence"] = "one_at_a_time"
    for e in order:
        if rng.random() < 0.7 or cur is None:
            args.append(f"-e{e}")
            while len(w.extruders) <= e:
                w.extruders.append({})
            w.extruders[e]["extruder_nr"] = str(e)
            args += more(w.extruders[e], rng.randint(0, 3), 2)
            cur = e
            if rng.random() < 0.3 and w.find("extbase"):
                f = w.find("extbase")
                args += ["-j", "{D}/" + f]
                w.load(f, w.extruders[e])
                w.extruders[e]["extruder_nr"] = str(e)
    for g in range(n_groups):
        if g:
            args.append("--next")
            w.groups.append({})
            w.objects.append([])
            args += more(w.groups[g], 0, 2)
        for i in range(rng.choice([1, 1, 2])):
            if rng.random() < 0.5:
                e = rng.randrange(n_ext)
                args.append(f"-e{e}")
                while len(w.extruders) <= e:
                    w.extruders.append({})
                w.extruders[e]["extruder_nr"] = str(e)
                cur = e
                args += more(w.extruders[e], 0, 1)
            name = f"m{g}{i}.stl"
            files[name] = M.stl(M.box(30 + 40 * g + 12 * i, 40, 0, 36 + 40 * g + 12 * i, 46, 0.6))
            args += ["-l", "{D}/" + name]
            own = dict(w.extruders[cur])
            w.objects[g].append(own)
            args += more(own, rng.randint(0, 2), 2)
        if rng.random() < 0.4:
            args.append("-g")
            args += more(w.groups[g], 0, 2)
    return finish(rng, w, args, env, files, tag)


def finish(rng, w, args, env, files, tag):
    args = ["CuraEngine", "slice", "-m2"] + args + ["-o", "{D}/" + OUT]
    conts = ["g"] + [f"e{i}" for i in range(len(w.extruders) + 1)] + [f"m{i}" for i in range(len(w.groups))] + [f"o{g}.{i}" for g in range(len(w.groups)) for i in range(len(w.objects[g]))]
    keys = sorted(w.keys) + ["extruder_nr", "layer_height_0", "wall_line_width_0", "not_there"]
    expect = []
    for c in conts:
        for k in rng.sample(keys, min(len(keys), 14)):
            expect.append((f"{c}/{k}", w.effective(c, k)))
    lines = ["arg=" + a.replace("\n", " ") for a in args] + env + ["query=" + q for q, _ in expect]
    fs = {p: json.dumps(d, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 1, 4])).encode() if not isinstance(d, bytes) else d for p, d in w.files.items()}
    fs.update(files)
    c = Case("resolve", lines, fs, "engine", tag)
    want = [f"extruders {len(w.extruders)} groups {len(w.groups)}"] + [f"extruder {i} number {i}" for i in range(len(w.extruders))]
    for q, v in expect:
        e = q.startswith("e") and int(q[1:q.index("/")]) >= len(w.extruders)
        want.append(f"value {q} absent" if e else f"value {q} unset" if v is None else f"value {q} ={v}")
    c.oracle["want"] = want
    return c


def resolved_case(rng, tag):
    """-r: a file of resolved settings beside its models."""
    w = World(rng)
    n_ext = rng.choice([1, 2, 3])
    w.g = dict(BASEV)
    w.g.update(PR.FAST)
    w.g.update({"machine_extruder_count": str(n_ext), "extruders_enabled_count": str(n_ext)})
    w.keys |= {f"dummy{i}" for i in range(12)} | set(VARY)
    glob = dict(w.g)

    def put(into, n_real, n_dummy):
        v = pick_values(rng, n_real, n_dummy, w.keys)
        for k, x in v.items():
            into[k] = value_text(x)
        return v

    doc = {"global": {**glob, **put(w.g, 3, 6)}}
    ext = {}
    w.extruders = [{} for _ in range(n_ext)]
    for e in range(n_ext):
        ext[f"extruder.{e}"] = {**put(w.extruders[e], 4, 5), "extruder_nr": str(e)}
        w.extruders[e]["extruder_nr"] = str(e)
    names = rng.sample(sorted(ext), n_ext)
    for n in names:
        doc[n] = ext[n]
    e = rng.randrange(n_ext)
    own = dict(w.extruders[e])
    model = put(own, 3, 4)
    model["extruder_nr"] = str(e)
    own["extruder_nr"] = str(e)
    w.groups[0] = {k: value_text(v) for k, v in model.items()}
    doc["part.stl"] = model
    w.objects[0].append(own)
    lim = {}
    for k in rng.sample(sorted(k for k in w.keys if k.startswith("dummy")), 2):
        x = rng.randrange(n_ext)
        lim[k] = f"extruder.{x}"
        w.limit[k] = x
    doc["limit_to_extruder"] = lim
    items = list(doc.items())
    rng.shuffle(items)
    w.files["res/settings.json"] = dict(items)
    files = {"res/part.stl": M.stl(M.box(40, 40, 0, 47, 46, 0.6))}
    c = finish(rng, w, ["-r", "{D}/res/settings.json"], [], files, tag)
    return c


def reference(run):
    r = run.res
    return r.outcome, r.rc, run.file(OUT)


def judge_c09(run):
    r = run.res
    b = bad_end(run)
    base = "baseline_for" in run.case.oracle
    if base:
        BASE.store(run, reference)
    if r.outcome == "abort" and r.get("exception") and fired(run, ERRORS):
        return None  # ends with an error that is not handled: not a success
    if b:
        return b
    if r.outcome != "exit":
        return None
    if r.rc != 0:
        if base or not fired(run, ERRORS):
            return "failure without a reason", f"exit status {r.rc} although all files could be read; {r.notes()[:2]}"
        return None
    got = r.notes()
    for a, b in zip(run.case.oracle["want"], got):
        if a != b:
            return "wrong value: " + a.split(" ")[0], f"settings resolve differently: expected '{a[:150]}', got '{b[:150]}'; faults {r.faults()[:4]}"
    if len(got) < len(run.case.oracle["want"]):
        return "wrong value: count", f"only {len(got)} answers of {len(run.case.oracle['want'])}"
    if base:
        return None
    ref = BASE.of(run.case, reference, "C09")
    if ref[0] == "exit" and ref[1] == 0 and run.file(OUT) != ref[2]:
        return "g-code differs", f"success, but the g-code is not that of the definitions: {first_difference(run.file(OUT) or b'', ref[2] or b'')}; faults {r.faults()[:4]}"
    return None


def c09_lines(rng, where):
    l = [f"faultdir={{D}}/{where}/"]
    k = rng.choice(["open", "eio", "short", "eintr", "mix", "mix"])
    if k == "open":
        l.append(f"fault=open_fail@{rng.randrange(9)}:1")
    elif k == "eio":
        l.append(f"fault=read_eio@{rng.randrange(rng.choice([4, 20]))}:1")
    elif k == "short":
        l.append(f"pfault=read_short:{rng.choice([0.2, 0.9])}:500")
    elif k == "eintr":
        l.append("pfault=read_eintr:0.3:50")
    else:
        l += [f"pfault=read_short:{rng.choice([0.1, 0.7])}:200", "pfault=read_eintr:0.1:20", f"pfault=open_fail:{rng.choice([0.05, 0.2])}:2", f"pfault=read_eio:{rng.choice([0.02, 0.2])}:2"]
    return l


def c09_cases():
    n = 0
    while True:
        rng = random.Random(sub_seed("C09", n))
        mode = "defs" if rng.random() < 0.65 else "res"
        case = definition_case(rng, f"definitions/{n}") if mode == "defs" else resolved_case(rng, f"resolved/{n}")
        key = f"{mode}/{n}"
        base = add(BASE.make(case, key, mode), ["hb=0"])
        base.oracle["want"] = case.oracle["want"]
        yield base
        bj = base.to_json()
        for v in range(4):
            c = add(case, LIMITS + (["sched=seq"] if rng.random() < 0.5 else engine_sched(rng)) + [f"alloc_seed={rng.getrandbits(30)}", f"fault_seed={rng.getrandbits(40)}", "hb=0"] + c09_lines(rng, mode))
            c.oracle.update({"key": key, "base": bj})
            yield c
        n += 1


def c09():
    c = Check("C09", "settings")
    c.build("engine")
    c.search(c09_cases(), judge_c09, 30 * BUDGET)
    c.extra["real_code"] = "the whole engine from main() on"
    c.done()
