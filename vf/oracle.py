"""Reference models, written from the documentation, deliberately simple. No code shared with malstroem."""
import heapq
import math

import numpy as np

from .core import require

DELTA = [(-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1)]
SQ2 = math.sqrt(2.0)


def edges(r, c):
    for x in range(c):
        yield 0, x
        if r > 1:
            yield r - 1, x
    for y in range(1, r - 1):
        yield y, 0
        if c > 1:
            yield y, c - 1


def is_edge(r, c, y, x):
    return y == 0 or x == 0 or y == r - 1 or x == c - 1


def priority_flood(z):
    """Lowest depressionless surface not below z with the edge kept: minimax over paths to the edge. Exact."""
    r, c = z.shape
    w = c + 2
    zl = np.full((r + 2, w), -math.inf)
    zl[1:-1, 1:-1] = z
    out = np.full((r + 2, w), math.inf)
    out[0] = out[-1] = -math.inf  # the frame counts as visited
    out[:, 0] = out[:, -1] = -math.inf
    for a in (1, r):
        out[a, 1:-1] = zl[a, 1:-1]
    for b in (1, c):
        out[1:-1, b] = zl[1:-1, b]
    out, zl = out.ravel().tolist(), zl.ravel().tolist()
    heap = [(out[i], i) for i in range(len(out)) if -math.inf < out[i] < math.inf]
    heapq.heapify(heap)
    steps = [dy * w + dx for dy, dx in DELTA]
    inf, push, pop = math.inf, heapq.heappush, heapq.heappop
    while heap:
        v, i = pop(heap)
        for s in steps:
            j = i + s
            if out[j] == inf:
                q = zl[j]
                if q < v:
                    q = v
                out[j] = q
                push(heap, (q, j))
    return np.array(out).reshape(r + 2, w)[1:-1, 1:-1].copy()


def flood_no_flats(z, short, diag):
    """Lowest surface w >= z, edge kept, where every interior cell raised above the terrain lies at least short (or
    diag) above one of its neighbours. Dijkstra; exact up to the rounding of repeated additions."""
    r, c = z.shape
    zl = z.astype("float64").tolist()
    w = [[math.inf] * c for _ in range(r)]
    done = [[False] * c for _ in range(r)]
    heap = []
    for y, x in edges(r, c):
        if not done[y][x]:
            w[y][x] = zl[y][x]
            done[y][x] = True
            heapq.heappush(heap, (zl[y][x], y, x))
    while heap:
        v, y, x = heapq.heappop(heap)
        if v > w[y][x]:
            continue
        for k, (dy, dx) in enumerate(DELTA):
            ny, nx = y + dy, x + dx
            if 0 <= ny < r and 0 <= nx < c and not is_edge(r, c, ny, nx):
                cand = max(zl[ny][nx], v + (diag if k % 2 else short))
                if cand < w[ny][nx]:
                    w[ny][nx] = cand
                    heapq.heappush(heap, (cand, ny, nx))
    return np.array(w)


def downstream(f, y, x):
    """Next cell, or None when flow ends here or leaves the raster."""
    k = int(f[y, x])
    if k > 7:
        return None
    ny, nx = y + DELTA[k][0], x + DELTA[k][1]
    if 0 <= ny < f.shape[0] and 0 <= nx < f.shape[1]:
        return ny, nx
    return None


def topo_order(f):
    """Cells so that every cell comes before the cell it flows to. None when the field has a cycle."""
    r, c = f.shape
    indeg = np.zeros((r, c), int)
    nxt = {}
    for y in range(r):
        for x in range(c):
            d = downstream(f, y, x)
            nxt[y, x] = d
            if d:
                indeg[d] += 1
    todo = [(y, x) for y in range(r) for x in range(c) if indeg[y, x] == 0]
    order = []
    while todo:
        cell = todo.pop()
        order.append(cell)
        d = nxt[cell]
        if d:
            indeg[d] -= 1
            if indeg[d] == 0:
                todo.append(d)
    return (order, nxt) if len(order) == r * c else None


def next_index(f):
    """Flat index of the next cell of every cell, -1 where flow ends or leaves the raster."""
    r, c = f.shape
    k = f.astype(int)
    ok = (k >= 0) & (k <= 7)
    k = np.where(ok, k, 0)
    dy = np.array([d[0] for d in DELTA])[k]
    dx = np.array([d[1] for d in DELTA])[k]
    ny = np.arange(r)[:, None] + dy
    nx = np.arange(c)[None, :] + dx
    ok &= (ny >= 0) & (ny < r) & (nx >= 0) & (nx < c)
    return np.where(ok, ny * c + nx, -1).ravel()


def flat_order(f):
    """Flat indices so that every cell comes before the cell it flows to (None for a cycle), and the next cells."""
    nxt = next_index(f)
    indeg = np.bincount(nxt[nxt >= 0], minlength=f.size).tolist()
    nxt = nxt.tolist()
    todo = [i for i, n in enumerate(indeg) if n == 0]
    order = []
    while todo:
        i = todo.pop()
        order.append(i)
        d = nxt[i]
        if d >= 0:
            indeg[d] -= 1
            if indeg[d] == 0:
                todo.append(d)
    return (order if len(order) == f.size else None), nxt


def accumulate(f):
    order, nxt = flat_order(f)
    require(order is not None, "flow directions form a cycle")
    a = [1] * f.size
    for i in order:
        if nxt[i] >= 0:
            a[nxt[i]] += a[i]
    return np.array(a, dtype="float64").reshape(f.shape)


def first_label_downstream(f, lab, unassigned=0):
    """Own label if labelled, else that of the first labelled cell downstream, else unassigned."""
    order, nxt = flat_order(f)
    require(order is not None, "flow directions form a cycle")
    out = lab.ravel().tolist()
    for i in reversed(order):
        if out[i] == unassigned and nxt[i] >= 0:
            out[i] = out[nxt[i]]
    return np.array(out, dtype=lab.dtype).reshape(lab.shape)


def components8(mask):
    """8-connected components by depth first search; labels in arbitrary order from 1."""
    r, c = mask.shape
    w = c + 2
    m = np.zeros((r + 2, w), bool)
    m[1:-1, 1:-1] = mask
    todo = m.ravel().tolist()
    lab = [0] * len(todo)
    steps = [dy * w + dx for dy, dx in DELTA]
    n = 0
    for i in np.flatnonzero(m.ravel()).tolist():
        if todo[i]:
            n += 1
            todo[i] = False
            stack = [i]
            while stack:
                j = stack.pop()
                lab[j] = n
                for s in steps:
                    if todo[j + s]:
                        todo[j + s] = False
                        stack.append(j + s)
    return np.array(lab, dtype=int).reshape(r + 2, w)[1:-1, 1:-1].copy(), n


def same_partition(a, b):
    """a and b are label rasters equal up to renaming of labels (0 is fixed)."""
    if a.shape != b.shape:
        return False
    fwd, back = {0: 0}, {0: 0}
    for u, v in set(zip(a.ravel().tolist(), b.ravel().tolist())):
        if fwd.setdefault(u, v) != v or back.setdefault(v, u) != u:
            return False
    return True


def water_volume(zcells, level, cell_area):
    """Volume standing in a bluespot whose cells have elevations zcells when the water stands at level."""
    d = level - np.asarray(zcells, dtype="float64")
    return float(d[d > 0].sum()) * cell_area


def true_level(zcells, volume, cell_area):
    """Level at which the cells, filled from lowest to highest, hold the volume."""
    z = np.sort(np.asarray(zcells, dtype="float64"))
    if volume <= 0:
        return float(z[0])
    need = volume / cell_area
    csum = np.cumsum(z)
    for k in range(1, len(z) + 1):
        # k cells wet: level = (need + sum z[:k]) / k
        lev = (need + csum[k - 1]) / k
        if k == len(z) or lev <= z[k]:
            return float(lev)


def final_state(nodes, attr):
    """nodes: list of dict(nodeid, dstrnodeid, bspot_vol, <attr>). Independent model: relax in topological order."""
    byid = {n["nodeid"]: n for n in nodes}
    indeg = {i: 0 for i in byid}
    for n in nodes:
        if n["dstrnodeid"] is not None:
            indeg[n["dstrnodeid"]] += 1
    inflow = {i: float(byid[i][attr]) for i in byid}
    todo = [i for i in byid if indeg[i] == 0]
    out = {}
    while todo:
        i = todo.pop()
        cap = float(byid[i]["bspot_vol"])
        tot = inflow[i]
        spill = max(0.0, tot - cap)
        out[i] = dict(v=min(tot, cap), spillv=spill, pctv=(100.0 * min(tot, cap) / cap) if cap else None)
        d = byid[i]["dstrnodeid"]
        if d is not None:
            inflow[d] += spill
            indeg[d] -= 1
            if indeg[d] == 0:
                todo.append(d)
    return out
