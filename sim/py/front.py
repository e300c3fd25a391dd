"""A slice request as the front-end sends it, made from the command line of an engine case."""
import struct
from simlib import Case


def varint(v):
    v &= (1 << 64) - 1
    b = bytearray()
    while True:
        b.append((v & 127) | (128 if v > 127 else 0))
        v >>= 7
        if not v:
            return bytes(b)


def ld(field, data):
    if isinstance(data, str):
        data = data.encode()
    return varint(field << 3 | 2) + varint(len(data)) + data


def num(field, v):
    return varint(field << 3) + varint(v)


def settings(field, d):
    return b"".join(ld(field, ld(1, k) + ld(2, v)) for k, v in d.items())


def parse_args(case):
    """What the command line says: (global settings, extruders, groups of objects, threads)."""
    args = [l[4:] for l in case.lines if l.startswith("arg=")][2:]
    glob, ext, groups = {}, {0: {}}, [{"settings": {}, "objects": []}]
    target, last_ext, threads = glob, 0, None
    i = 0
    while i < len(args):
        a = args[i]
        if a == "-s":
            i += 1
            k, v = args[i].split("=", 1)
            target[k] = v
        elif a.startswith("-m"):
            threads = int(a[2:])
        elif a == "--next":
            groups.append({"settings": {}, "objects": []})
        elif a == "-g":
            target = groups[-1]["settings"]
        elif a.startswith("-e"):
            last_ext = int(a[2:])
            target = ext.setdefault(last_ext, {})
        elif a == "-l":
            i += 1
            o = {"model": args[i], "settings": {"extruder_nr": str(last_ext)}}
            groups[-1]["objects"].append(o)
            target = o["settings"]
        elif a == "-o":
            i += 1
        i += 1
    return glob, ext, groups, threads


def vertices(case, name):
    b = case.files[name]
    n = struct.unpack_from("<I", b, 80)[0]
    return b"".join(b[84 + 50 * i + 12:84 + 50 * i + 48] for i in range(n))


def request(case, rng, odd=True):
    """The Slice message."""
    glob, ext, groups, threads = parse_args(case)
    glob.setdefault("machine_extruder_count", "1")
    n_ext = int(glob["machine_extruder_count"])
    out, lists = [], []
    oid = 0
    for g in groups:
        body = b""
        objs = list(g["objects"])
        for o in objs:
            oid += 1
            name = o["model"].split("/")[-1]
            stem = name.rsplit(".", 1)[0]
            body += ld(1, num(1, oid) + ld(2, vertices(case, name)) + settings(5, o["settings"]) + ld(6, stem))
            if odd and rng.random() < 0.1:
                body += ld(1, num(1, 1000 + oid) + settings(5, {"extruder_nr": "0"}) + ld(6, "empty"))  # an object without faces
        body += settings(2, g["settings"])
        lists.append(body)
    if odd and rng.random() < 0.2:
        lists.insert(rng.randrange(len(lists) + 1), b"")  # a group without objects
    out += [ld(1, l) for l in lists]
    out.append(ld(2, settings(1, glob)))
    order = [(k, v) for k, v in ext.items()]
    if odd:
        rng.shuffle(order)
        if rng.random() < 0.2:
            order.insert(rng.randrange(len(order) + 1), (rng.choice([n_ext, -1, 17]), {"layer_height": "0.77"}))  # an extruder that does not exist
    out += [ld(3, (num(1, k) if k else b"") + ld(2, settings(1, v))) for k, v in order]
    if odd and n_ext == 1:
        for key in rng.sample(["wall_line_width_0", "infill_line_distance", "speed_print", "layer_height", "support_angle", "brim_width", "material_diameter"], rng.randint(0, 4)):
            to = rng.choice([0, 0, -1, n_ext, 5])
            out.append(ld(4, ld(1, key) + (num(2, to) if to else b"")))
    if odd:
        if rng.random() < 0.5:
            rng.shuffle(out[len(lists):])
        out.append(ld(6, "sentry") + ld(7, "5.9") + (ld(8, "project") if rng.random() < 0.5 else b""))
    return b"".join(out), threads, len([1 for g in groups if g["objects"]])


def connected_case(case, rng, odd=True):
    msg, threads, n_groups = request(case, rng, odd)
    files = {"slice.pb": msg}
    lines = ["arg=CuraEngine", "arg=connect", "arg=127.0.0.1:49674", f"arg=-m{threads or 1}", "arcus_slice={D}/slice.pb", "arcus_log={D}/front.log", "arcus_gcode={D}/front.gcode"]
    c = Case("slice", lines, files, case.exe, case.tag + "/connected")
    c.oracle = {"groups": n_groups}
    return c
