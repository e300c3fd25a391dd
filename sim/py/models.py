"""Seeded models (triangle lists, millimetres) and their file encodings."""
import math, random, struct, zlib


def prism(n, r, h, cx=50, cy=50, z0=0.0, twist=0.0, scale=1.0, radii=None):
    def ring(rr, tw, z):
        return [(cx + rr * (radii[i % len(radii)] if radii else 1) * math.cos(2 * math.pi * i / n + tw), cy + rr * (radii[i % len(radii)] if radii else 1) * math.sin(2 * math.pi * i / n + tw), z) for i in range(n)]
    b, t = ring(r, 0, z0), ring(r * scale, twist, z0 + h)
    cb, ct = (cx, cy, z0), (cx, cy, z0 + h)
    T = []
    for i in range(n):
        j = (i + 1) % n
        T += [(b[i], b[j], t[j]), (b[i], t[j], t[i]), (cb, b[j], b[i]), (ct, t[i], t[j])]
    return T


def box(x0, y0, z0, x1, y1, z1):
    p = [(x, y, z) for z in (z0, z1) for y in (y0, y1) for x in (x0, x1)]
    q = [(0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (1, 3, 7, 5), (3, 2, 6, 7), (2, 0, 4, 6)]
    T = []
    for a, b, c, d in q:
        T += [(p[a], p[b], p[c]), (p[a], p[c], p[d])]
    return T


def sphere(r, cx, cy, cz, n=10, m=6):
    def pt(i, j):
        th, ph = math.pi * j / m, 2 * math.pi * i / n
        return (cx + r * math.sin(th) * math.cos(ph), cy + r * math.sin(th) * math.sin(ph), cz - r * math.cos(th))
    T = []
    for j in range(m):
        for i in range(n):
            a, b, c, d = pt(i, j), pt(i + 1, j), pt(i + 1, j + 1), pt(i, j + 1)
            if j > 0:
                T.append((a, b, c))
            if j < m - 1:
                T.append((a, c, d))
    return T


def overhang(rng, h=6):
    """A table: a leg and a wide top."""
    leg = box(48, 48, 0, 53, 53, h * 0.6)
    top = box(40 + rng.random(), 41, h * 0.6, 62, 60 + rng.random(), h)
    return leg + top


def star(rng, h=3.0, cx=50, cy=50):
    return prism(10, 9, h, cx, cy, radii=[1, 0.5], twist=rng.choice([0, 0.2, 0.5]), scale=rng.choice([1, 0.8, 1.2]))


def lattice(rng, h):
    """A plate full of fins under a roof: tree supports find no place to stand on that is wide enough."""
    T = box(36, 36, 0, 66, 66, 0.6)
    x = 37.0
    while x < 65:
        T += box(x, 36.5, 0.5, x + 0.8, 65.5, rng.uniform(0.9, h * 0.7))
        x += rng.uniform(1.6, 2.6)
    return T + box(49, 49, 0.3, 53, 53, h) + box(38, 38, h, 64, 64, h + 0.6)


def steps(rng, h):
    """A pyramid of steps, with a hollow below: skin at many heights over infill."""
    T, z, n = [], 0.0, rng.randint(2, 3)
    for i in range(n):
        x = 2.5 * i + rng.random()
        T += box(40 + x, 40 + x, z - (0.1 if i else 0), 62 - x, 60 - rng.random() - x, z + h / n)
        z += h / n
    return T


def shelves(rng, h):
    """A wall with shelves at several heights, on a sloped foot: supports stand on the plate, on slopes and on other shelves."""
    T = prism(4, rng.uniform(5, 7), h * 0.4, 50, 50, 0, 0, rng.uniform(0.3, 0.7)) + box(48, 44, 0, 51, 56, h)
    for i in range(rng.randint(2, 3)):
        z = h * rng.uniform(0.35, 0.85)
        if rng.random() < 0.5:
            T += box(50.5, rng.uniform(44, 48), z, 51 + rng.uniform(2, 6), rng.uniform(51, 56), z + h * 0.12)
        else:
            T += box(48 - rng.uniform(2, 6), rng.uniform(44, 48), z, 48.5, rng.uniform(51, 56), z + h * 0.12)
    return T


def mushrooms(rng, h):
    """Caps on thin stems, some above each other, some close together."""
    T = []
    for i in range(rng.randint(1, 3)):
        x, y, r = 44 + 6.5 * i + rng.random(), 48 + rng.uniform(-2, 2), rng.uniform(2, 4.5)
        z = h * rng.uniform(0.5, 0.75)
        T += box(x - 0.8, y - 0.8, 0, x + 0.8, y + 0.8, z + 0.1)
        T += prism(rng.randint(4, 8), r, h - z, x, y, z, 0, rng.uniform(0.5, 1.6))
        if rng.random() < 0.5:
            T += prism(rng.randint(3, 6), r * 0.7, 0.4, x + 0.5, y, z * 0.4)
    return T


def wedge(rng, h):
    """An overhang that leans out on one side and is stepped on the other."""
    n = rng.randint(3, 6)
    T, dx = [], rng.uniform(0.5, 2.0)
    for i in range(n):
        z = h * i / n
        T += box(44 + dx * i, 46, z - (0.05 if i else 0), 50 + dx * i * rng.choice([1, 1.4]), 46 + rng.uniform(4, 8), z + h / n)
    return T


def make(kind, rng, h=3.0):
    if kind == "steps":
        return steps(rng, max(h, 2.4))
    if kind in ("shelves", "mushrooms", "wedge"):
        return globals()[kind](rng, rng.uniform(2.5, 5))
    if kind == "lattice":
        return lattice(rng, rng.uniform(4, 6))
    if kind == "prism":
        return prism(rng.randint(3, 9), rng.uniform(5, 10), h, 50 + rng.uniform(-3, 3), 50)
    if kind == "cone":
        return prism(rng.randint(5, 12), rng.uniform(4, 7), h, scale=rng.uniform(1.2, 1.8), twist=rng.uniform(0, 0.3))
    if kind == "star":
        return star(rng, h)
    if kind == "overhang":
        return overhang(rng, max(h, 4))
    if kind == "box":
        return box(40, 40, 0, 40 + rng.uniform(6, 18), 40 + rng.uniform(6, 18), h)
    if kind == "multi":
        T = []
        for i in range(rng.randint(2, 4)):
            T += prism(rng.randint(3, 7), rng.uniform(2.5, 5), h * rng.uniform(0.6, 1), 30 + 14 * i, 45 + rng.uniform(-6, 6))
        return T
    if kind == "sphere":
        r = max(h, 4) / 2
        return sphere(r, 50, 50, r)
    if kind == "dome":
        r = max(h, 3)
        return sphere(r, 50, 50, 0, 14, 8)
    raise ValueError(kind)


KINDS = ["prism", "cone", "star", "overhang", "box", "multi", "sphere", "dome"]


def stl(T):
    b = [b"simulated model".ljust(80), struct.pack("<I", len(T))]
    for t in T:
        b.append(struct.pack("<12fH", 0, 0, 0, *[c for v in t for c in v], 0))
    return b"".join(b)


def stl_ascii(T, eol="\n", upper=False):
    o = ["solid model"]
    for t in T:
        o.append("  facet normal 0 0 0")
        o.append("    outer loop")
        for v in t:
            o.append("      vertex %.6g %.6g %.6g" % v)
        o.append("    endloop")
        o.append("  endfacet")
    o.append("endsolid model")
    return (eol.join(o) + eol).encode()


def obj(T, uv=None):
    o, idx = [], {}
    vs = []
    for t in T:
        for v in t:
            if v not in idx:
                idx[v] = len(idx) + 1
                vs.append(v)
    o += ["v %.6g %.6g %.6g" % v for v in vs]
    if uv:
        o += ["vt %.6g %.6g" % c for tri in uv for c in tri]
        for i, t in enumerate(T):
            o.append("f " + " ".join("%d/%d" % (idx[v], 3 * i + k + 1) for k, v in enumerate(t)))
    else:
        for t in T:
            o.append("f %d %d %d" % tuple(idx[v] for v in t))
    return ("\n".join(o) + "\n").encode()


def uv_file(uv):
    """uv: per triangle three (u, v) pairs."""
    return struct.pack("<I", 3 * len(uv)) + b"".join(struct.pack("<2f", *c) for t in uv for c in t)


def png(w, h, rows, channels=1, text=None):
    """rows: list of bytes (w*channels each)."""
    def chunk(t, d):
        return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d) & 0xFFFFFFFF)
    ct = {1: 0, 3: 2, 4: 6}[channels]
    out = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, ct, 0, 0, 0))
    for k, v in (text or {}).items():
        out += chunk(b"tEXt", k.encode() + b"\0" + v.encode())
    return out + chunk(b"IDAT", zlib.compress(b"".join(b"\0" + r for r in rows))) + chunk(b"IEND", b"")
