"""C08 and C10: models, textures and images read from a failing disk, against an independent model of the files."""
import json, math, random, struct, zlib
import models as M
import profiles as PR
import simlib
from simlib import Case, Check, sub_seed
from props_engine import BASE, BUDGET, LIMITS, OUT, add, engine_sched, first_difference, threads_line
from props_faults import ERRORS, bad_end, fired, reference

GRID = 0.25  # most coordinates are multiples of this: exact in every notation, far enough apart never to be melded


# ------------------------------------------------------------------ shapes
def lattice_model(rng):
    """Triangles with vertices on the grid: closed bodies, patches, fans, loose and degenerate triangles."""
    T = []

    def pt(lo=-80, hi=80):
        return tuple(rng.randint(lo, hi) * GRID for _ in range(3))

    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["box", "box", "grid", "fan", "loose", "tetra", "far", "tiny", "alike", "book", "edge"])
        if k == "box":
            a, d = pt(), [rng.randint(1, 40) * GRID for _ in range(3)]
            T += M.box(*a, *[x + y for x, y in zip(a, d)])
        elif k == "grid":
            n, m, o = rng.randint(1, 6), rng.randint(1, 6), pt()
            z = [[rng.randint(0, 8) * GRID for _ in range(m + 1)] for _ in range(n + 1)]
            P = lambda i, j: (o[0] + i * 0.5, o[1] + j * 0.5, o[2] + z[i][j])
            for i in range(n):
                for j in range(m):
                    T += [(P(i, j), P(i + 1, j), P(i + 1, j + 1)), (P(i, j), P(i + 1, j + 1), P(i, j + 1))]
        elif k == "fan":
            c = pt()
            ring = [(c[0] + x * GRID * 8, c[1] + y * GRID * 8, c[2] + rng.randint(0, 3) * GRID) for x, y in [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)]]
            T += [(c, ring[i], ring[(i + 1) % 8]) for i in range(8)]
        elif k == "loose":
            T += [(pt(), pt(), pt()) for _ in range(rng.randint(1, 5))]
        elif k == "tetra":
            p = [pt() for _ in range(4)]
            T += [(p[0], p[2], p[1]), (p[0], p[1], p[3]), (p[1], p[2], p[3]), (p[2], p[0], p[3])]
        elif k == "tiny":
            # corners just too far apart to be one vertex
            a = [rng.randint(-2000, 2000) * 30 for _ in range(3)]
            p = [tuple((a[j] + (14 if c[j] else -15)) / 1000 for j in range(3)) for c in ((0, 0, 0), (1, 1, 0), (1, 0, 1), (0, 1, 1))]
            T += [(p[0], p[2], p[1]), (p[0], p[1], p[3]), (p[1], p[2], p[3]), (p[2], p[0], p[3])]
        elif k == "alike":
            # corners far apart whose cells have much in common
            c = [rng.randint(0, 1500) for _ in range(3)]
            p = []
            for _ in range(4):
                d, e = rng.randint(0, 7), rng.choice([0, rng.randint(0, 1)])
                p.append((c[0] ^ (d << 10), c[1] ^ d ^ (e << 10), c[2] ^ e))
            p = [tuple((30 * x + 3) / 1000 for x in q) for q in p]
            T += [(p[0], p[2], p[1]), (p[0], p[1], p[3]), (p[1], p[2], p[3]), (p[2], p[0], p[3])]
        elif k == "book":
            # several pages on one spine
            a, b = pt(), pt()
            pages = [pt() for _ in range(rng.randint(3, 6))]
            T += [rng.choice([(a, b, q), (b, a, q), (q, a, b)]) for q in pages]
        elif k == "edge":
            # two bodies that touch along an edge
            a, d = pt(), [rng.randint(1, 40) * GRID for _ in range(3)]
            b = [x + y for x, y in zip(a, d)]
            e = [rng.randint(1, 40) * GRID for _ in range(3)]
            T += M.box(*a, *b) + M.box(b[0], b[1], a[2], b[0] + e[0], b[1] + e[1], b[2])
        else:
            a = tuple(rng.randint(-4000, 4000) * GRID for _ in range(3))
            T += M.box(*a, *[x + 1 for x in a])
    if crowded(T):
        return lattice_model(rng)
    for _ in range(rng.choice([0, 0, 1, 3])):
        t = list(rng.choice(T))
        i, j = rng.sample(range(3), 2)
        t[i] = t[j]
        T.insert(rng.randrange(len(T) + 1), tuple(t))
    if rng.random() < 0.3:
        rng.shuffle(T)
    return T


def crowded(T):
    """Are there different vertices so close that they may count as one?"""
    cells = {}
    for v in {micron(v) for t in T for v in t}:
        cells.setdefault(tuple(c // 40 for c in v), []).append(v)
    for k, vs in cells.items():
        near = [w for dx in (-1, 0, 1) for dy in (-1, 0, 1) for dz in (-1, 0, 1) for w in cells.get((k[0] + dx, k[1] + dy, k[2] + dz), ())]
        if any(v != w and sum((x - y) ** 2 for x, y in zip(v, w)) < 34 ** 2 for v in vs for w in near):
            return True
    return False


def next_page(a, b, own, others):
    """Of several triangles on the edge a-b, the next one counter-clockwise, looking from b to a (index, or None when too close to call)."""
    sub = lambda p, q: [x - y for x, y in zip(p, q)]
    cross = lambda p, q: [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]]
    dot = lambda p, q: sum(x * y for x, y in zip(p, q))
    e = sub(b, a)
    n = math.sqrt(dot(e, e))
    n0 = cross(sub(own, a), e)
    at = []
    for i, c in enumerate(others):
        n1 = cross(e, sub(c, a))
        if not any(n0) or not any(n1):
            return None
        w = math.atan2(dot(e, cross(n0, n1)) / n, dot(n0, n1)) % (2 * math.pi)
        if w < 1e-6 or w > 2 * math.pi - 1e-6:
            return None
        at.append((w, i))
    at.sort()
    return None if at[1][0] - at[0][0] < 1e-6 else at[0][1]


def micron(v):
    return tuple(int(round(c * 1000)) for c in v)


def expected(T, matrix, uv=None):
    """Faces as the engine has to hold them: (corners, neighbours (None: not judged), uv)."""
    def tr(v):
        if matrix:
            v = [sum(matrix[3 * k + r] * v[k] for k in range(3)) for r in range(3)]
        return micron(v)

    F = []
    for i, t in enumerate(T):
        c = tuple(tr(v) for v in t)
        if len(set(c)) == 3:
            F.append((c, uv[i] if uv else None))
    at = {}
    for i, (c, _) in enumerate(F):
        for v in c:
            at.setdefault(v, set()).add(i)
    out = []
    for i, (c, u) in enumerate(F):
        n = []
        for a, b in ((0, 1), (1, 2), (2, 0)):
            o = sorted((at[c[a]] & at[c[b]]) - {i})
            if len(o) > 1:
                k = next_page(c[a], c[b], c[3 - a - b], [next(v for v in F[f][0] if v not in (c[a], c[b])) for f in o])
                n.append(None if k is None else o[k])
            else:
                n.append(o[0] if o else -1)
        out.append((c, n, u))
    return out


# ------------------------------------------------------------------ encodings
def number(rng, v):
    k = rng.randrange(7)
    if k == 0:
        s = "%g" % v
        return s if "e" not in s and float(s) == v else "%.3f" % v
    if k == 1:
        return "%.6f" % v
    if k == 2:
        return "%.8e" % v
    if k == 3:
        return "%.8E" % v
    if k == 4:
        return ("+" if v >= 0 else "") + "%.4f" % v
    if k == 5 and v != 0 and abs(v) < 1:
        return ("-" if v < 0 else "") + ("%.3f" % abs(v))[1:]
    if k == 6 and v == int(v):
        return "%d." % int(v)
    return "%.3f" % v


def stl_text(rng, T):
    eol = rng.choice(["\n", "\n", "\r\n", "\r", "\n\n"])
    up = rng.choice([str, str, str.upper, str.title])
    ind = rng.choice(["  ", "\t", "", "    "])
    name = rng.choice(["model", "", "two words", "vertex 1 2 3", "x" * rng.choice([60, 1000, 1023, 1024, 5000]), "ünicode"])
    o = [rng.choice(["", "", " ", "\n", "\t \n"]) + up("solid") + " " + name]
    for i, t in enumerate(T):
        o += [ind + up("facet normal ") + "0 0 1", ind * 2 + up("outer loop")]
        o += [ind * 3 + up("vertex") + rng.choice([" ", "  ", "\t"]) + rng.choice([" ", "   "]).join(number(rng, c) for c in v) + rng.choice(["", "", " "]) for v in t]
        o += [ind * 2 + up("endloop"), ind + up("endfacet")]
        if rng.random() < 0.03:
            o += [up("endsolid") + " " + name, up("solid") + " next"]
    o.append(up("endsolid") + " " + name)
    return (eol.join(o) + rng.choice([eol, eol, ""])).encode()


def stl_binary(rng, T):
    h = rng.choice([b"header", b"solid but binary", b"SOLID", b"\0" * 80, b"binary stl\n\n", bytes(rng.randrange(33, 255) for _ in range(80))])
    b = [(h + rng.choice([b" ", b"\0"]) * 80)[:80], struct.pack("<I", len(T))]
    for t in T:
        b.append(struct.pack("<12fH", *[rng.choice([0.0, 1.0, -0.5, float("nan")]) for _ in range(3)], *[c for v in t for c in v], rng.choice([0, 0, 0xFFFF, 7])))
    return b"".join(b)


def obj_text(rng, T, uv=None):
    """T may be given as polygons (tuples of three or more points, not degenerate)."""
    eol = rng.choice(["\n", "\n", "\r\n"])
    o = ["# made by nobody", "mtllib x.mtl", "o thing"]
    idx, n, nvt, nvn = {}, 0, 0, 0
    late = rng.random() < 0.5  # vertices just before the face that needs them
    neg = rng.random()  # share of negative indices
    form = rng.choice(["v", "v//n", "v/t/n"]) if uv is None else rng.choice(["v/t", "v/t/n"])
    if uv is None and form == "v/t/n":
        form = "v//n"
    vn = form.endswith("n")

    def vline(v):
        return rng.choice(["", "", "  "]) + "v" + rng.choice([" ", "  ", "\t"]) + " ".join(number(rng, c) for c in v) + rng.choice(["", "", " 1.0", " 0.5 0.25 1", " ", "\t"])

    if not late:
        for t in T:
            for v in t:
                if v not in idx:
                    n += 1
                    idx[v] = n
                    o.append(vline(v))
    for i, t in enumerate(T):
        if rng.random() < 0.1:
            o.append(rng.choice(["", "g part", "s off", "usemtl y", "# comment f 1 2 3", "l 1 2"]))
        for v in t:
            if v not in idx:
                n += 1
                idx[v] = n
                o.append(vline(v))
        if vn:
            o.append("vn 0 0 1")
            nvn += 1
        corner = []
        tv = []
        if uv:
            for c in uv[i]:
                nvt += 1
                o.append("vt %s %s" % (number(rng, c[0]), number(rng, c[1])) + rng.choice(["", "", " 0", " "]))
                tv.append(nvt)
        for k, v in enumerate(t):
            r = lambda ix, cnt: ix - cnt - 1 if rng.random() < neg * 0.5 else ix
            s = str(r(idx[v], n))
            if form == "v//n":
                s += "//" + str(r(nvn, nvn))
            elif form == "v/t":
                s += "/" + str(r(tv[k], nvt))
            elif form == "v/t/n":
                s += "/" + str(r(tv[k], nvt)) + "/" + str(r(nvn, nvn))
            corner.append(s)
        o.append(rng.choice(["", "", " "]) + "f" + rng.choice([" ", "  "]) + rng.choice([" ", "  "]).join(corner) + rng.choice(["", "", " ", "\t"]))
    return (eol.join(o) + rng.choice([eol, ""])).encode()


def png(rng, w, h, px, ch, text, text_first=True):
    """px[y][x]: value of a pixel, ch bytes, most significant first."""
    def chunk(t, d):
        return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d) & 0xFFFFFFFF)

    rows, prev = [], bytes(w * ch)
    for y in range(h):
        r = b"".join(px[y][x].to_bytes(ch, "big") for x in range(w))
        f = rng.randrange(3)
        if f == 1:
            e = bytes((r[i] - (r[i - ch] if i >= ch else 0)) & 255 for i in range(len(r)))
        elif f == 2:
            e = bytes((a - b) & 255 for a, b in zip(r, prev))
        else:
            e = r
        rows.append(bytes([f]) + e)
        prev = r
    out = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, {1: 0, 2: 4, 3: 2, 4: 6}[ch], 0, 0, 0))
    for k, v in text:
        out += chunk(b"tEXt", k.encode() + b"\0" + v.encode())
    z = zlib.compress(b"".join(rows), rng.choice([1, 9]))
    cut = rng.randint(1, len(z))
    for part in (z[:cut], z[cut:]):
        if part:
            out += chunk(b"IDAT", part)
    return out + chunk(b"IEND", b"")


def texture(rng):
    """An image with painted features, and the reference of what it says."""
    w, h, ch = rng.choice([1, 2, 3, 7, 16]), rng.choice([1, 2, 5, 16]), rng.choice([1, 2, 3, 4])
    px = [[rng.getrandbits(8 * ch) for _ in range(w)] for _ in range(h)]
    feats, bit = {}, 0
    for name in rng.sample(["extruder", "seam", "support", "other"], rng.randint(1, 3)):
        bit += rng.randint(0, 2)
        end = min(8 * ch - 1, bit + rng.randint(0, 7))
        if bit <= end:
            feats[name] = (bit, end)
        bit = end + 1
    text = [("Title", "x")] if rng.random() < 0.3 else []
    said = {k: list(v) for k, v in feats.items()}
    if rng.random() < 0.2:
        # entries that say nothing that can be used
        said["odd"] = rng.choice([[1], [1, 2, 3], [], {}, "x", 5, None, ["a", "b"], [-1, 2], [0.5, 2], [3, 1], [40, 44], [8, 32], [None, 1]])
        if rng.random() < 0.5:
            said = dict(reversed(list(said.items())))
    words = json.dumps(said)
    if rng.random() < 0.1:
        # a description of another kind
        words, feats = rng.choice(["42", "-1.5e3", '"a photo"', "a photo", "[1,2]", "null", "true", "", "{", words[:-1], '[{"extruder":[0,1]}]']), {}
    text.append(("Description", words))
    data = png(rng, w, h, px, ch, text)
    if rng.random() < 0.1:
        # cut off: nothing of it can be used, whatever is missing
        cut = rng.randrange(1, 13) if rng.random() < 0.3 else rng.randrange(13, len(data))
        data = data[:len(data) - cut]
        feats = None if cut < 13 else {}
    return w, h, px, feats, data


def expect_texture(w, h, px, feats, asked, uvq):
    out = [f"texture {w} x {h}"]
    maps = sorted(f"map {k} {a} {b}" for k, (a, b) in feats.items())
    rows = []
    for y in range(h):
        s = f"row {y}"
        for x in range(w):
            s += f" {px[y][x]}"
            for f in asked:
                s += ":-" if f not in feats else ":%d" % ((px[y][x] >> feats[f][0]) & ((1 << (feats[f][1] - feats[f][0] + 1)) - 1))
        rows.append(s)
    q = []
    for i, (u, v) in enumerate(uvq):
        x, y = min(w - 1, max(0, int(u * w))), min(h - 1, max(0, int(v * h)))
        q.append(f"uvq {i} -> {x} {y} = {px[y][x]}")
    return {"head": out, "maps": maps, "rows": rows, "uvq": q}


# ------------------------------------------------------------------ cases
def rigid(rng):
    """A matrix that moves the grid onto itself."""
    p = rng.sample(range(3), 3)
    m = [0] * 9
    for r in range(3):
        m[3 * r + p[r]] = rng.choice([1, -1, 1, 2])
    return m


def run_lines(rng):
    return [f"sched=seq", f"fault_seed={rng.getrandbits(40)}", f"alloc_seed={rng.getrandbits(30)}", "max_ev=4000000", "wall_limit=60", "hb=0"]


def model_case(rng, tag, textured):
    files, lines, want = {}, [], []
    matrix = rigid(rng) if rng.random() < 0.5 else None
    if matrix:
        lines.append("matrix=" + " ".join(map(str, matrix)))
    asked = ["extruder", "seam", "nothing"]
    uvq = [(rng.random() * rng.choice([1, 1, 1.5, -0.7]), rng.random() * rng.choice([1, 1, 1, 1.2, -3])) for _ in range(5)] + [(0, 0), (1, 1)]
    uvq = [tuple(round(x * 64) / 64 for x in q) for q in uvq]
    if textured:
        lines += ["feature=" + a for a in asked] + [f"uvq={u} {v}" for u, v in uvq]
    for i in range(rng.choice([1, 1, 2])):
        T = lattice_model(rng)
        kind = rng.choice(["stl", "stlt", "obj", "obj"]) if not textured else rng.choice(["stl", "obj"])
        stem = rng.choice(["part", "a.b", "sp ace", "UPPER"]) + str(i)
        uv = None
        if textured:
            uv = [[(rng.randint(0, 100) / 100, rng.randint(0, 100) / 100) for _ in range(3)] for _ in T]
        d = "model/"
        if kind == "stl":
            data = stl_binary(rng, T)
            if uv:
                while data[:80].lstrip()[:5].lower() == b"solid":  # refused together with texture coordinates
                    data = stl_binary(rng, T)
                files[d + stem + ".uv"] = M.uv_file(uv)
                if rng.random() < 0.15:
                    # too few for all triangles, or more
                    n = rng.randrange(3 * len(T) + 5)
                    flat = ([c for t in uv for c in t] + [(0, 0)] * 5)[:n]
                    files[d + stem + ".uv"] = struct.pack("<I", n) + b"".join(struct.pack("<2f", *c) for c in flat)
                    uv = [u if 3 * k + 2 < n else None for k, u in enumerate(uv)]
                elif rng.random() < 0.1:
                    # fewer than it says
                    files[d + stem + ".uv"] = files[d + stem + ".uv"][:-rng.randint(1, 8)]
                    uv = None
        elif kind == "stlt":
            data = stl_text(rng, T)
        else:
            if uv is None and rng.random() < 0.4:
                # polygons, which become fans
                P, T2 = [], []
                huge = rng.randrange(len(T)) if rng.random() < 0.06 else -1
                for at, t in enumerate(T):
                    if len(set(t)) == 3 and (rng.random() < 0.3 or at == huge):
                        k = rng.randint(1, 9) if at != huge else rng.randint(4000, 9000)
                        poly = list(t) + [(t[2][0] + j * GRID, t[2][1] + GRID * (j % 3), t[2][2] - j * GRID) for j in range(1, k)]
                        P.append(tuple(poly))
                        T2 += [(poly[0], poly[j], poly[j + 1]) for j in range(1, len(poly) - 1)]
                    else:
                        P.append(t)
                        T2.append(t)
                data, T = obj_text(rng, P), T2
            else:
                data = obj_text(rng, T, uv)
        ext = {"stl": ".stl", "stlt": ".stl", "obj": ".obj"}[kind]
        ext = rng.choice([ext, ext, ext.upper()])
        files[d + stem + ext] = data
        lines.append("load={D}/" + d + stem + ext)
        w = {"name": stem, "faces": [[[list(v) for v in c], n, [list(p) for p in u] if u else None] for c, n, u in expected(T, matrix, uv)], "texture": None}
        if textured:
            tw, th, px, feats, data = texture(rng)
            if rng.random() < 0.9:
                files[d + stem + ".png"] = data
                if feats is None:
                    w["texture"] = "any"
                elif feats and uv is not None:
                    w["texture"] = expect_texture(tw, th, px, feats, asked, uvq)
        want.append(w)
    c = Case("model", lines, files, "model", tag)
    c.oracle["want"] = want
    return c


def read_faults(rng, n_late=60):
    l = ["faultdir={D}/model/"]
    k = rng.choice(["none", "open", "seek", "eio", "eio", "short", "eintr", "mix", "mix"])
    if k == "open":
        l.append(f"fault=open_fail@{rng.randrange(6)}:1")
    elif k == "seek":
        l.append(f"fault=seek_fail@{rng.randrange(8)}:1")
    elif k == "eio":
        l.append(f"fault=read_eio@{rng.randrange(rng.choice([4, n_late]))}:1")
    elif k == "short":
        l.append(f"pfault=read_short:{rng.choice([0.3, 0.9])}:500")
    elif k == "eintr":
        l.append(rng.choice([f"fault=read_eintr@{rng.randrange(8)}:1", "pfault=read_eintr:0.2:20"]))
    elif k == "mix":
        l += [f"pfault=read_short:{rng.choice([0.1, 0.7])}:300", f"pfault={rng.choice(['open_fail', 'seek_fail', 'read_eintr'])}:{rng.choice([0.05, 0.2])}:2", f"pfault=read_eio:{rng.choice([0.02, 0.15])}:2"]
    return l


def model_cases(prop, textured):
    n = 0
    while True:
        rng = random.Random(sub_seed(prop, "model", n))
        case = model_case(rng, f"{'textured' if textured else 'model'}/{n}", textured)
        yield add(case, run_lines(rng))
        for _ in range(5):
            yield add(case, run_lines(rng) + read_faults(rng))
        n += 1


# ------------------------------------------------------------------ judging
def parse(notes):
    """Notes -> per load: None (failed) or {name, faces, texture lines}."""
    out = []
    for l in notes:
        w = l.split(" ")
        if w[0] == "load":
            out.append(None if w[2] == "failed" else {"name": "", "faces": [], "tex": []})
        elif w[0] == "mesh":
            out[-1]["name"] = l[l.index(" name ") + 6:l.rindex(" faces ")]
            out[-1]["count"] = int(l[l.rindex(" faces ") + 7:].split()[0])
            out[-1]["box"] = [int(x) for x in l[l.rindex(" box ") + 5:].split()]
        elif w[0] == "f":
            c = [[int(x) for x in v.split(",")] for v in w[1:4]]
            out[-1]["faces"].append((c, [int(x) for x in w[5:8]], [[float(x) for x in v.split(",")] for v in w[9::2]]))
        else:
            out[-1]["tex"].append(l)
    return out


def judge_models(run):
    r = run.res
    err = fired(run, ERRORS)
    if r.outcome == "abort" and r.get("exception") and err:
        return None
    b = bad_end(run)
    if b:
        return b
    if r.outcome != "exit":
        return None
    if r.rc != 0:
        return None if err else ("failure without a reason", f"exit status {r.rc} without an error")
    got = parse(r.notes())
    want = run.case.oracle["want"]
    if len(got) != len(want):
        return "loads", f"{len(got)} results of {len(want)}"
    for i, (g, w) in enumerate(zip(got, want)):
        if g is None:
            if not err and w["faces"]:
                return "failure without a reason", f"model {i} was not loaded although no error was injected; faults {r.faults()[:4]}"
            continue
        at = f"model {i}; faults {r.faults()[:4]}"
        if g["name"] != w["name"]:
            return "name", f"the mesh is called '{g['name']}' instead of '{w['name']}'; {at}"
        if len(g["faces"]) != len(w["faces"]):
            return "number of triangles", f"{len(g['faces'])} triangles were loaded, the file has {len(w['faces'])}; {at}"
        pts = [v for c, _, _ in w["faces"] for v in c]
        if pts and g["box"] != [min(v[k] for v in pts) for k in range(3)] + [max(v[k] for v in pts) for k in range(3)] and all(len(set(map(tuple, f[0]))) == 3 for f in w["faces"]) and run.case.oracle.get("tight"):
            return "extents", f"the extents are {g['box']}; {at}"
        uvs = [bool(f[2]) for f in g["faces"]]
        for k, (a, e) in enumerate(zip(g["faces"], w["faces"])):
            if a[0] != e[0]:
                return "wrong triangle", f"triangle {k} is {a[0]} instead of {e[0]}; {at}"
            for x, y in zip(a[1], e[1]):
                if y is not None and x != y:
                    return "wrong neighbour", f"triangle {k} at {e[0]} is joined to {a[1]} instead of {e[1]}; {at}"
            if a[2] and (e[2] is None or len(a[2]) != 3 or any(abs(p[0] - q[0]) > 1e-6 or abs(p[1] - q[1]) > 1e-6 for p, q in zip(a[2], e[2]))):
                return "wrong texture coordinates", f"triangle {k} has texture coordinates {a[2]} instead of {e[2]}; {at}"
            if e[2] is not None and not a[2] and (not err or any(uvs)):
                return "missing texture coordinates", f"triangle {k} of {len(uvs)} has no texture coordinates, {sum(uvs)} have; {at}"
        if w["texture"] == "any":
            pass
        elif w["texture"] is None:
            if g["tex"] != ["texture none"]:
                return "texture from nowhere", f"{g['tex'][:2]}; {at}"
        elif g["tex"] == ["texture none"]:
            if not err:
                return "missing texture", f"the texture was left out although no error was injected; {at}"
        else:
            t = w["texture"]
            gm = sorted(l for l in g["tex"] if l.startswith("map"))
            rest = [l for l in g["tex"] if not l.startswith("map")]
            for a, e in zip(rest + gm + ["nothing"], t["head"] + t["rows"] + t["uvq"] + t["maps"] + ["nothing"]):
                if a != e:
                    return "wrong texture: " + e.split(" ")[0], f"the texture says '{a[:100]}' instead of '{e[:100]}'; {at}"
            if len(rest) + len(gm) != len(t["head"]) + len(t["rows"]) + len(t["uvq"]) + len(t["maps"]):
                return "wrong texture: size", f"{len(rest)} lines; {at}"
    return None


# ------------------------------------------------------------------ density images
def bmp(w, h, px):
    """24 bit, bottom-up."""
    pad = (-3 * w) % 4
    body = b"".join(b"".join(bytes(reversed(px[y][x])) for x in range(w)) + b"\0" * pad for y in reversed(range(h)))
    return b"BM" + struct.pack("<IHHI", 54 + len(body), 0, 0, 54) + struct.pack("<IiiHHIIiiII", 40, w, h, 1, 24, 0, len(body), 2835, 2835, 0, 0) + body


def pnm(w, h, px, ch):
    return b"P%d\n%d %d\n255\n" % (5 if ch == 1 else 6, w, h) + b"".join(bytes(px[y][x]) for y in range(h) for x in range(w))


def tga(w, h, px):
    return struct.pack("<BBBHHBHHHHBB", 0, 0, 2, 0, 0, 0, 0, 0, w, h, 24, 0x20) + b"".join(bytes(reversed(px[y][x])) for y in range(h) for x in range(w))


def density_case(rng, tag):
    w, h = rng.choice([1, 2, 5, 16, 40]), rng.choice([1, 3, 8, 16, 33])
    if rng.random() < 0.25:
        w, h = rng.choice([50, 64, 80]), rng.choice([48, 71])  # more than one read
    fmt = rng.choice(["png", "bmp", "pgm", "ppm", "tga"])
    ch = 1 if fmt == "pgm" else rng.choice([1, 3]) if fmt == "png" else 3
    const = rng.random() < 0.2
    c0 = tuple(rng.randrange(256) for _ in range(ch))
    px = [[c0 if const else tuple(rng.choice([255, 255, rng.randrange(256)]) for _ in range(ch)) for _ in range(w)] for _ in range(h)]
    if fmt == "png":
        data = png(rng, w, h, [[int.from_bytes(bytes(p), "big") for p in r] for r in px], ch, [])
    else:
        data = {"bmp": lambda: bmp(w, h, px), "pgm": lambda: pnm(w, h, px, 1), "ppm": lambda: pnm(w, h, px, 3), "tga": lambda: tga(w, h, px)}[fmt]()
    # the box has the proportions of the image, so that image and box coincide
    k = rng.choice([1000, 2500, 7000])
    x0, y0 = rng.randint(-50, 50) * 1000, rng.randint(-50, 50) * 1000
    box = (x0, y0, x0 + w * k, y0 + h * k)
    asks, want = [], []
    light = [[sum(p) / len(p) / 255 for p in r] for r in px]

    def bounds(a, b, c, d):
        """Pixels under or next to a box given in pixels, y upwards."""
        xs = range(max(0, min(w - 1, a - 1)), max(0, min(w - 1, c + 1)) + 1)
        ys = range(max(0, min(h - 1, b - 1)), max(0, min(h - 1, d + 1)) + 1)
        v = [1 - light[h - 1 - y][x] for x in xs for y in ys]
        return min(v), max(v)

    mean = 1 - sum(sum(r) for r in light) / (w * h)
    asks.append((box[0] - 5000, box[1] - 5000, box[2] + 5000, box[3] + 5000))
    want.append((mean, mean))
    for _ in range(12):
        a, b = rng.randrange(-2, w + 2), rng.randrange(-2, h + 2)
        c, d = a + rng.randint(0, 3), b + rng.randint(0, 3)
        m = k // 4
        asks.append((x0 + a * k + m, y0 + b * k + m, x0 + c * k + 3 * m, y0 + d * k + 3 * m))
        want.append(bounds(a, b, c, d))
    name = "model/density." + fmt
    c = Case("density", ["image={D}/" + name, "box=%d %d %d %d" % box] + ["ask=%d %d %d %d" % a for a in asks], {name: data}, "model", f"{tag}/{fmt}{w}x{h}")
    c.oracle["want"] = want
    return c


def density_cases(prop):
    n = 0
    while True:
        rng = random.Random(sub_seed(prop, "density", n))
        case = density_case(rng, f"density/{n}")
        yield add(case, run_lines(rng))
        for _ in range(4):
            yield add(case, run_lines(rng) + read_faults(rng, 12))
        n += 1


def judge_density(run):
    r = run.res
    err = fired(run, ERRORS)
    b = bad_end(run)
    if b:
        return b
    if r.outcome != "exit":
        return None
    if r.rc != 0:
        return None if err else ("failure without a reason", f"the image was refused (status {r.rc}) although no error was injected; faults {r.faults()[:4]}")
    n = r.notes()
    want = run.case.oracle["want"]
    if len(n) != len(want):
        return "densities", f"{len(n)} answers to {len(want)} questions"
    for i, (l, (lo, hi)) in enumerate(zip(n, want)):
        v = float(l.split(" ")[2])
        if not lo - 1e-9 <= v <= hi + 1e-9:
            return "wrong density", f"density {i} is {v}, but the pixels there give {lo:.6f} to {hi:.6f}; faults {r.faults()[:4]}"
    return None


# ------------------------------------------------------------------ painting in the whole engine
def paint_cases(prop):
    n = 0
    while True:
        rng = random.Random(sub_seed(prop, "paint", n))
        case = PR.paint_case(rng, 2)
        key = f"paint/{n}"
        bj = []
        for what, gone in (("full", ()), ("unpainted", ("model.png",)), ("plain", ("model.png", "model.uv"))):
            c = Case(case.workload, case.lines, {k: v for k, v in case.files.items() if k not in gone}, case.exe, case.tag + "/" + what)
            b = add(BASE.make(c, key + what, what), ["hb=0"])
            yield b
            bj.append(b.to_json())
        for _ in range(4):
            f = read_faults(rng, 12)
            c = add(case, LIMITS + ["sched=seq", f"fault_seed={rng.getrandbits(40)}", "hb=0", "faultdir={D}/model."] + f[1:])
            c.oracle = {"keys": [key + w for w in ("full", "unpainted", "plain")], "bases": bj}
            yield c
        n += 1


def judge_paint(run):
    r = run.res
    b = bad_end(run)
    if "baseline_for" in run.case.oracle:
        BASE.store(run, reference)
        return b or (None if r.rc == 0 else ("status", f"slicing without any fault ended with status {r.rc}"))
    err = fired(run, ERRORS)
    if r.outcome == "abort" and r.get("exception") and err:
        return None
    if b:
        return b
    if r.outcome != "exit":
        return None
    if r.rc != 0:
        return None if err else ("failure without a reason", f"exit status {r.rc} without an error; faults {r.faults()[:4]}")
    refs = []
    for k, j in zip(run.case.oracle["keys"], run.case.oracle["bases"]):
        c = Case("slice")
        c.oracle = {"key": k, "base": j}
        refs.append(BASE.of(c, reference, "C10")[2])
    g = run.file(OUT)
    if g == refs[0] or (err and g in refs[1:]):
        return None
    return "painted g-code differs", f"success, but the g-code is neither that of the whole painting nor that without it: {first_difference(g or b'', refs[0] or b'')}; faults {r.faults()[:4]}"


def judge_c08(run):
    return judge_models(run)


def judge_c10(run):
    return {"model": judge_models, "density": judge_density, "slice": judge_paint}[run.case.workload](run)


def c08():
    c = Check("C08", "loading models")
    c.build("model")
    c.search(model_cases("C08", False), judge_c08, 25 * BUDGET)
    c.extra["real_code"] = "loaders of STL and OBJ files, mesh; libc and libstdc++ file reading over simulated file operations"
    c.done()


def c10(paint=True):
    c = Check("C10", "textures and images")
    c.build("model", "engine")
    if c.search(model_cases("C10", True), judge_c10, 12 * BUDGET) and c.search(density_cases("C10"), judge_c10, 8 * BUDGET):
        c.search(paint_cases("C10"), judge_c10, 12 * BUDGET)
    c.extra["real_code"] = "readers of texture coordinates, PNG and density images (libpng and stb_image real); the whole engine for painted slices"
    c.done()
