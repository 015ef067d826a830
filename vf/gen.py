"""Generators. Every case is a JSON-able value; decode_* turns it into numpy data (a pure function of the case)."""
import numpy as np
from hypothesis import strategies as st

# ------------------------------------------------------------------------------------------------ terrain

BASES = [0.0, 0.0, 10.0, -7.5, 57.3, 1850.0, -2.0, -4000.0]
SCALES = [1.0, 0.5, 0.1, 0.01, 7.0, 0.001, 16.0, 1000.0]
# a few cells far away from the rest
SPIKES = st.one_of(st.none(), st.none(), st.none(), st.none(), st.none(), st.tuples(
    st.sampled_from([0.25, 0.0, -0.001, 3000.0, -3000.0, 30000.0, 1e5]), st.integers(0, 400)).map(list))

# drops a, b with a/b just below or above the square root of two: diagonal and straight slopes nearly tie
PELL = [(7, 5), (17, 12), (41, 29), (99, 70), (239, 169), (577, 408), (1393, 985), (8119, 5741)]


@st.composite
def dem_raw(draw, maxr=9, maxc=9, minr=3, minc=3, bases=BASES, scales=SCALES):
    """Every height drawn separately; palette limits the number of different heights (flats and ties)."""
    r = draw(st.integers(minr, maxr))
    c = draw(st.integers(minc, maxc))
    pal = draw(st.sampled_from([256, 2, 3, 5, 8, 16, 64]))
    b = draw(st.binary(min_size=r * c, max_size=r * c))
    return {"kind": "raw", "r": r, "c": c, "pal": pal, "b": b.hex(), "base": draw(st.sampled_from(bases)),
            "scale": draw(st.sampled_from(scales)), "spike": draw(SPIKES)}


@st.composite
def dem_wide(draw, maxr=8, maxc=8):
    """Heights of very different size in one terrain."""
    d = draw(dem_raw(maxr, maxc, bases=[-4000.0, -30000.0, 1e5, -300.0], scales=[1.0, 0.5, 0.01, 7.0]))
    d["spike"] = [draw(st.sampled_from([0.25, 0.0, -0.001, 1e-6, 0.01, 5.0])), draw(st.integers(1, 400))]
    return d


@st.composite
def dem_ties(draw, maxr=9, maxc=9):
    """Three heights, so that the steepest diagonal and the steepest straight way down differ by next to nothing."""
    r = draw(st.integers(3, maxr))
    c = draw(st.integers(3, maxc))
    return {"kind": "ties", "r": r, "c": c, "b": draw(st.binary(min_size=r * c, max_size=r * c)).hex(),
            "pell": draw(st.integers(0, len(PELL) - 1)), "dry": draw(st.integers(3, 8)),
            "base": draw(st.sampled_from([0.0, 10.0, -50.0])), "scale": draw(st.sampled_from([1.0, 0.25, 0.5]))}


@st.composite
def dem_proc(draw, maxr=40, maxc=40, minr=3, minc=3, bases=BASES):
    """Procedural terrain: noise over scales, valleys, pits, long winding corridors."""
    return {"kind": "proc", "r": draw(st.integers(minr, maxr)), "c": draw(st.integers(minc, maxc)),
            "style": draw(st.sampled_from(["noise", "valley", "spiral", "basin", "terrace", "snake", "pits", "cone", "maze"])),
            "seed": draw(st.integers(0, 2**24)), "amp": draw(st.sampled_from([1.0, 5.0, 20.0, 0.2, 2500.0])),
            "q": draw(st.sampled_from([0, 0, 1.0, 0.5, 0.1])), "base": draw(st.sampled_from(bases))}


@st.composite
def dem_flatpits(draw, maxr=12, maxc=12):
    """A plane (flat or tilted) with a few edits: minimal pictures of nested bluespots."""
    r = draw(st.integers(3, maxr))
    c = draw(st.integers(3, maxc))
    edits = draw(st.lists(st.tuples(st.integers(0, r - 1), st.integers(0, c - 1), st.integers(-9, 9)), max_size=14))
    return {"kind": "edits", "r": r, "c": c, "tilt": draw(st.sampled_from([0, 0, 1, 2, -1])),
            "tiltc": draw(st.sampled_from([0, 0, 1, -2])), "edits": [list(e) for e in edits],
            "base": draw(st.sampled_from([0.0, 100.0, -30.0])), "scale": draw(st.sampled_from([1.0, 0.1, 0.25])), "spike": draw(SPIKES)}


def dems(small=9, big=40):
    return st.one_of(dem_raw(small, small), dem_flatpits(), dem_proc(big, big), dem_raw(small, small), dem_ties(small, small))


def _smooth(a, n):
    for _ in range(n):
        p = np.pad(a, 1, mode="edge")
        a = (p[:-2, 1:-1] + p[2:, 1:-1] + p[1:-1, :-2] + p[1:-1, 2:] + p[1:-1, 1:-1]) / 5.0
    return a


def decode_dem(d, dtype="float32"):
    if d["kind"] == "thin":
        return decode_thin(d, dtype)
    r, c = d["r"], d["c"]
    if d["kind"] == "raw":
        a = np.frombuffer(bytes.fromhex(d["b"]), dtype="uint8").reshape(r, c).astype("float64")
        if d["pal"] < 256:
            a = a % d["pal"]
        z = d["base"] + a * d["scale"]
    elif d["kind"] == "ties":
        hi, lo = PELL[d["pell"]]
        a = np.frombuffer(bytes.fromhex(d["b"]), dtype="uint8").reshape(r, c) % d["dry"]
        z = d["base"] - np.where(a == 1, hi, np.where(a == 2, lo, 0)) * d["scale"]
    elif d["kind"] == "edits":
        rr, cc = np.mgrid[0:r, 0:c]
        a = (rr * d["tilt"] + cc * d["tiltc"]).astype("float64")
        for er, ec, v in d["edits"]:
            a[er, ec] += v
        z = d["base"] + a * d["scale"]
    else:
        rng = np.random.RandomState(d["seed"])
        rr, cc = np.mgrid[0:r, 0:c].astype("float64")
        s = d["style"]
        noise = rng.rand(r, c)
        if s == "noise":
            a = _smooth(noise, int(rng.randint(0, 4))) * 3
        elif s == "valley":
            a = np.abs(cc - c / 2.0) / c + 0.3 * _smooth(noise, 1) + 0.3 * np.sin(rr / 3.0) + rr / r * rng.rand()
        elif s == "basin":
            a = ((rr - r / 2.0) ** 2 + (cc - c / 2.0) ** 2) / (r * c) * 2 + 0.4 * _smooth(noise, 1)
        elif s == "cone":
            a = -((rr - r / 2.0) ** 2 + (cc - c / 2.0) ** 2) / (r * c) * 2 + 0.4 * _smooth(noise, 1)
        elif s == "terrace":
            a = np.floor(_smooth(noise, 2) * 12) / 6
        elif s == "pits":
            a = rr / r * 0.3 + cc / c * 0.2
            n = 1 + int(rng.randint(0, max(2, r * c // 12)))
            a[rng.randint(0, r, n), rng.randint(0, c, n)] -= rng.rand(n)
        else:
            # corridors: walls of 2, floor carved along a path that winds inwards
            a = np.full((r, c), 2.0) + 0.01 * noise
            path = _spiral(r, c) if s == "spiral" else _snake(r, c) if s == "snake" else _maze(r, c, rng)
            n = max(1, len(path))
            up = rng.randint(0, 3)
            for i, (pr, pc) in enumerate(path):
                t = i / float(n)
                a[pr, pc] = (t if up == 0 else 1 - t if up == 1 else 0.5) + 0.15 * noise[pr, pc] * rng.randint(0, 2)
        z = a * d["amp"]
        if d["q"]:
            z = np.round(z / d["q"]) * d["q"]
        z = d["base"] + z
    if d.get("spike"):
        v, i = d["spike"]
        if i % 4 == 0:
            z[0, :] = z[-1, :] = z[:, 0] = z[:, -1] = v  # the whole rim
        else:
            for k in range(i % 4):
                z.flat[(i * 31 + k * 17) % z.size] = v
    return np.ascontiguousarray(z.astype(dtype))


def _spiral(r, c):
    top, left, bot, right = 1, 0, r - 2, c - 2
    path, row, col = [], 1, 0
    while top <= bot and left <= right:
        path += [(top, x) for x in range(left, right + 1)]
        top += 2
        path += [(y, right) for y in range(max(top - 1, 0), bot + 1)]
        right -= 2
        path += [(bot, x) for x in range(right + 1, left, -1)]
        bot -= 2
        left += 2
        path += [(y, left) for y in range(bot + 1, top - 1, -1)]
        path += [(top, left)] if top <= bot and left <= right else []
    return [(y, x) for y, x in path if 0 <= y < r and 0 <= x < c]


def _maze(r, c, rng):
    """Corridors of a random perfect maze: long paths turning at nearly every step, with dead ends; one way out."""
    nr, nc = (r - 1) // 2, (c - 1) // 2
    if nr < 1 or nc < 1:
        return []
    seen, stack, path = {(0, 0)}, [(0, 0)], [(0, 1), (1, 1)]
    while stack:
        y, x = stack[-1]
        nb = [(y + dy, x + dx) for dy, dx in ((0, 1), (1, 0), (0, -1), (-1, 0))
              if 0 <= y + dy < nr and 0 <= x + dx < nc and (y + dy, x + dx) not in seen]
        if not nb:
            stack.pop()
            continue
        ny, nx = nb[rng.randint(0, len(nb))]
        seen.add((ny, nx))
        path += [(y + ny + 1, x + nx + 1), (2 * ny + 1, 2 * nx + 1)]
        stack.append((ny, nx))
    return path


def _snake(r, c):
    path = []
    for i, y in enumerate(range(1, r - 1, 2)):
        xs = list(range(1, c - 1))
        if i % 2:
            xs.reverse()
        path += [(y, x) for x in xs]
        if y + 1 < r - 1 and xs:
            path.append((y + 1, xs[-1]))
    return path


# ------------------------------------------------------------------------------------------------ flow and labels

@st.composite
def flow_trees(draw, maxr=10, maxc=10):
    """An acyclic D8 field made without any terrain: every cell points to a neighbour of lower random rank, or off the
    raster (edge cells only). 'nodir' > 0 turns some cells into sinks."""
    return {"r": draw(st.integers(1, maxr)), "c": draw(st.integers(1, maxc)), "seed": draw(st.integers(0, 2**24)),
            "style": draw(st.sampled_from(["random", "straight", "comb", "random"])),
            "nodir": draw(st.sampled_from([0, 0, 0, 0.03, 0.2]))}


DELTA = [(-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1)]


def decode_flow(d):
    if d.get("kind") == "thin":
        return decode_thin_flow(d)
    r, c = d["r"], d["c"]
    rng = np.random.RandomState(d["seed"])
    f = np.full((r, c), 8, dtype="uint8")
    if d["style"] == "straight":
        f[:] = rng.randint(0, 8)
    elif d["style"] == "comb":
        # side channels every other column joining one main channel
        main = int(rng.randint(0, r))
        f[:main, :] = 4
        f[main + 1:, :] = 0
        f[main, :] = 2 if rng.rand() < 0.5 else 6
    else:
        rank = rng.permutation(r * c).reshape(r, c)
        for y in range(r):
            for x in range(c):
                opts = []
                for k, (dy, dx) in enumerate(DELTA):
                    ny, nx = y + dy, x + dx
                    if not (0 <= ny < r and 0 <= nx < c):
                        opts.append(k)
                    elif rank[ny, nx] < rank[y, x]:
                        opts.extend([k, k])
                f[y, x] = opts[rng.randint(0, len(opts))] if opts else 8
    if d["nodir"]:
        f[rng.rand(r, c) < d["nodir"]] = 8
    return f


@st.composite
def labelings(draw, maxn=6):
    """How to scatter labels over a raster of a given shape."""
    return {"seed": draw(st.integers(0, 2**24)), "n": draw(st.integers(0, maxn)),
            "style": draw(st.sampled_from(["cells", "blobs", "stripes"]))}


def decode_labels(d, r, c, dtype="int32"):
    rng = np.random.RandomState(d["seed"])
    lab = np.zeros((r, c), dtype=dtype)
    for k in range(1, d["n"] + 1):
        y, x = rng.randint(0, r), rng.randint(0, c)
        if d["style"] == "cells":
            lab[y, x] = k
        elif d["style"] == "blobs":
            h, w = rng.randint(1, 4), rng.randint(1, 4)
            lab[y:y + h, x:x + w] = k
        else:
            lab[y, x:] = k
    return lab


# ------------------------------------------------------------------------------------------------ rasters on disk

CELLS = [1.0, 2.0, 0.4, 1.6, 10.0, 0.25, 1 / 3, 0.5 ** 0.5]
ORIGINS = [(500000.0, 6200000.0), (0.0, 0.0), (-1234.5, 77.25), (724383.6, 6178122.2), (500000 / 7, 6e6 + 1 / 3)]


EPSG = [25832, 25832, 3857, 32633, 31467, 4326, None]  # 31467: northing first; None: no coordinate system known


@st.composite
def georefs(draw):
    x, y = draw(st.sampled_from(ORIGINS))
    return {"x": x, "y": y, "cell": draw(st.sampled_from(CELLS)), "epsg": draw(st.sampled_from(EPSG)),
            "northup": draw(st.sampled_from([True, True, True, False])),
            # cells are accepted as square when width and height differ by less than a hundredth
            "ratio": draw(st.sampled_from([1.0] * 6 + [1.004, 0.997]))}


def transform_of(g):
    h = g["cell"] * g.get("ratio", 1.0)
    return (g["x"], g["cell"], 0.0, g["y"], 0.0, -h if g["northup"] else h)


# ------------------------------------------------------------------------------------------------ large inputs

@st.composite
def big_flows(draw, lo=40, hi=330):
    """Large D8 field where the rim flows outward and every other cell drains off the raster."""
    return {"r": draw(st.integers(lo, hi)), "c": draw(st.integers(lo, hi)), "seed": draw(st.integers(1, 2**24)),
            "style": draw(st.sampled_from(["gather", "snake", "downhill", "gather", "tree"])), "turn": draw(st.integers(0, 7))}


def decode_big_flow(d):
    if d.get("kind") == "thin":
        return decode_thin_flow(d)
    """Every interior cell reaches the rim. gather: all interior cells leave through one cell; snake: one path through all
    interior cells; downhill: any of the three directions downwards; tree: any mixture of rows and columns."""
    r, c, rng = d["r"], d["c"], np.random.RandomState(d["seed"])
    if d["style"] == "snake":
        r, c = min(r, 60), min(c, 60)  # the time malstroem needs for a single path grows with the square of its length
    h, w = r - 2, c - 2
    if d["style"] == "snake":
        g = np.where(np.arange(h)[:, None] % 2 == 0, 2, 6).repeat(w, axis=1)
        g[0::2, -1] = 4
        g[1::2, 0] = 4
    elif d["style"] == "downhill":
        g = rng.randint(3, 6, (h, w))
    elif d["style"] == "gather":
        g = np.full((h, w), 2)
        g[:, -1] = 4
        g[:-1][rng.rand(h - 1, w) < 0.2] = 3
        g[:, -1] = 4
        g[-1] = 2
        g[-1, -1] = 4
    else:
        g = np.where(rng.rand(h, w) < 0.5, 2, 4)
        g[:, -1] = 4
        g[-1] = 2
        g[-1, -1] = 4
    f = np.full((r, c), 8, dtype="uint8")
    f[1:-1, 1:-1] = g
    f[0], f[-1] = 0, 4
    f[1:-1, 0], f[1:-1, -1] = 6, 2
    perm, turned = SYMS[d["turn"]]
    lut = np.array(list(perm) + [8], dtype="uint8")
    return np.ascontiguousarray(lut[turned(f)])


def _sym(flip, rot):
    def turned(a):
        a = np.fliplr(a) if flip else a
        return np.rot90(a, -rot)  # clockwise
    perm = [(((8 - k) % 8 if flip else k) + 2 * rot) % 8 for k in range(8)]
    return perm, turned


SYMS = [_sym(fl, ro) for fl in (False, True) for ro in range(4)]


@st.composite
def big_pits(draw, lo=516, hi=560):
    """A plain with a pit in every second cell of every second row: more than 65535 bluespots."""
    return {"r": draw(st.integers(lo, hi)), "c": draw(st.integers(lo, hi)), "seed": draw(st.integers(1, 2**24)),
            "some": draw(st.sampled_from([1.0, 1.0, 0.995])), "base": draw(st.sampled_from([10.0, -20.0, 0.0]))}


def decode_big_pits(d):
    rng = np.random.RandomState(d["seed"])
    z = np.full((d["r"], d["c"]), d["base"], dtype="float32")
    pits = z[1:-1:2, 1:-1:2]
    pits -= (rng.randint(1, 64, pits.shape) / 8.0 * (rng.rand(*pits.shape) < d["some"])).astype("float32")
    return z


@st.composite
def dem_thin(draw, lens=(33000, 66000)):
    """Three to five rows (or columns) and more columns (or rows) than 15 or 16 bits count."""
    n = draw(st.sampled_from(list(lens)))
    return {"kind": "thin", "w": draw(st.integers(3, 5)), "n": n + draw(st.integers(0, 400)), "tall": draw(st.booleans()),
            "seed": draw(st.integers(1, 2**24)), "style": draw(st.sampled_from(["pits", "noise", "saw", "terrace"])),
            "base": draw(st.sampled_from([0.0, 10.0, -300.0]))}


def decode_thin(d, dtype="float32"):
    w, n, rng = d["w"], d["n"], np.random.RandomState(d["seed"])
    if d["style"] == "pits":
        z = np.full((w, n), 5.0)
        k = 1 + rng.randint(0, 400)
        z[rng.randint(1, w - 1, k), rng.randint(1, n - 1, k)] -= rng.randint(1, 40, k) / 8.0
        z[w // 2, -40:-3] -= 1.0  # one at the far end for sure
    elif d["style"] == "noise":
        z = rng.randint(0, 160, (w, n)) / 16.0
    elif d["style"] == "saw":
        # long basins: the profile rises and falls, walls along the long sides
        p = int(rng.randint(20, 400))
        t = np.abs(np.arange(n) % (2 * p) - p) / 16.0 + (np.arange(n) // (2 * p) % 7)
        z = np.tile(t, (w, 1)) + rng.randint(0, 2, (w, n)) / 64.0
        z[0] += 100
        z[-1] += 100
    else:
        z = np.floor(np.arange(n) / 50.0) % 13 + np.zeros((w, 1)) + (rng.rand(w, n) < 0.02)
        z[0] += 20
        z[-1] += 20
    z = d["base"] + z
    return np.ascontiguousarray((z.T if d["tall"] else z).astype(dtype))


@st.composite
def thin_flows(draw, lens=(33000, 66000)):
    return {"kind": "thin", "w": draw(st.integers(3, 5)), "n": draw(st.sampled_from(list(lens))) + draw(st.integers(0, 400)),
            "seed": draw(st.integers(1, 2**24)), "turn": draw(st.integers(0, 7)), "nodir": draw(st.sampled_from([0, 0.01]))}


def decode_thin_flow(d):
    """Pieces of channel in the middle rows, up to a thousand cells each, which leave through the long sides."""
    w, n, rng = d["w"], d["n"], np.random.RandomState(d["seed"])
    f = np.full((w, n), 2, dtype="uint8")
    f[:, rng.rand(n) < 0.003] = 4
    f[:, ::1000] = 4
    f[:, -1] = 4
    side = rng.rand(w, n)
    f[(side < 0.05) & (f == 2)] = 3
    f[0], f[-1] = 0, 4
    f[1:-1, 0] = 6
    f[1:-1, -1] = 2
    if d["nodir"]:
        f[1:-1][rng.rand(w - 2, n) < d["nodir"]] = 8
    perm, turned = SYMS[d["turn"]]
    lut = np.array(list(perm) + [8], dtype="uint8")
    return np.ascontiguousarray(lut[turned(f)])
