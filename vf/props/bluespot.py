"""C05 labelling, C06 filter expressions, C07 watersheds, C08 pour points, C24 label statistics."""
import numpy as np
from hypothesis import strategies as st

from ..core import Aspect, Violation, require, fail, sut
from ..gen import (dems, dem_raw, dem_flatpits, dem_proc, decode_dem, flow_trees, decode_flow, labelings, decode_labels,
                   georefs, transform_of, CELLS, big_flows, decode_big_flow, thin_flows, big_pits, decode_big_pits)
from ..oracle import (priority_flood, components8, same_partition, first_label_downstream, topo_order, downstream,
                      flood_no_flats, is_edge, accumulate)
from .. import rio, chain
from ..chain import close
from .surface import set_speed, grid, first_diff

bools = st.booleans()

# ---------------------------------------------------------------- depths


@st.composite
def depth_rasters(draw, maxr=12, maxc=12):
    """Either the depths of a terrain, or any pattern of wet cells with depths in eighths (exact sums)."""
    if draw(bools):
        return {"kind": "dem", "dem": draw(st.one_of(dem_raw(9, 9, scales=[0.125, 0.5, 1.0]), dem_flatpits(),
                                                     dem_proc(30, 30)))}
    r, c = draw(st.integers(3, maxr)), draw(st.integers(3, maxc))
    return {"kind": "raw", "r": r, "c": c, "wet": draw(st.integers(1, 7)),
            "b": draw(st.binary(min_size=r * c, max_size=r * c)).hex()}


def decode_depths(d):
    if d["kind"] == "dem":
        z = decode_dem(d["dem"], "float32")
        return priority_flood(z).astype("float32") - z
    a = np.frombuffer(bytes.fromhex(d["b"]), dtype="uint8").reshape(d["r"], d["c"]).astype("float32")
    # only wet of every 8 values are wet; runs of equal bytes make larger blobs
    a = np.where((a % 8) < d["wet"], (a // 8 + 1) / 8.0, 0.0).astype("float32")
    a[0, :] = a[-1, :] = 0
    a[:, 0] = a[:, -1] = 0
    return a


def check_labels(got, mask, what):
    """got numbers the 8-connected components of mask 1..n."""
    grid(got, mask.shape, what)
    require(got.dtype.kind in "iu", "%s are of type %s", what, got.dtype)
    want, n = components8(mask)
    ids = np.unique(got)
    require(ids.tolist() == sorted(set(ids.tolist()) | set()) and set(ids.tolist()) - {0} == set(range(1, n + 1)),
            "%s: ids are %s, there are %d connected bluespots", what, ids.tolist()[:10], n)
    require(same_partition(got, want), "%s: cells of one id are not exactly one connected bluespot", what)
    return n


def stats_of(depths, lab, n, cell_area):
    out = []
    for k in range(1, n + 1):
        d = depths[lab == k].astype("float64")
        out.append({"area": d.size * cell_area, "maxdepth": float(d.max()), "volume": float(d.sum()) * cell_area,
                    "min": float(d.min()), "max": float(d.max()), "sum": float(d.sum()), "count": int(d.size)})
    return out


class MemReader:
    """What BluespotTool needs of a raster reader."""

    def __init__(self, a, transform=rio.DEFAULT_T, crs=""):
        self.a, self.transform, self.crs = a, transform, crs
        self.shape = a.shape
        self.resolution = (abs(transform[5]), abs(transform[1]))
        self.filepath = None

    def read(self):
        return self.a.copy()


class MemWriter:
    def __init__(self):
        self.a = None

    def write(self, a):
        self.a = np.array(a)


class MemVector:
    def __init__(self):
        self.feats = None

    def write_geojson_features(self, fs):
        fs = fs["features"] if isinstance(fs, dict) else list(fs)
        self.feats = fs


# ---------------------------------------------------------------- C05

def run_c05_cli(case, rec):
    d = decode_depths(case["depths"])
    rio.write_tif("d.tif", d, transform_of(case["g"]), case["g"]["epsg"])
    rio.cli_ok("bspots", "-depths", "d.tif", "-out", "b.tif")
    b = rio.R("b.tif")
    n = check_labels(b.a, d != 0, "bluespot ids")
    if n:
        rec.nontrivial("bluespots>1" if n > 1 else "one-bluespot")


def run_c05_api(case, rec):
    from malstroem.algorithms import label
    d = decode_depths(case["depths"])
    keep = d.copy()
    lab, n = sut(label.connected_components, d)
    require((keep == d).all(), "labelling modifies the depths")
    m = check_labels(lab, d != 0, "labels")
    require(int(n) == m, "number of labels is %s but there are %d", n, m)
    flags = [bool(case["flags"] >> (i % 24) & 1) for i in range(m + 1)]
    kept = sut(label.keep_labels, lab.copy(), list(flags))
    want = np.isin(lab, [i for i in range(1, m + 1) if flags[i]])
    require(np.array_equal(np.asarray(kept) != 0, want), "keep_labels does not keep exactly the chosen labels")
    if m:
        rec.nontrivial()
    if any(flags[1:]) and not all(flags[1:]):
        rec.tag("some-dropped")


def run_c05_large(case, rec):
    """More bluespots than 65535."""
    from malstroem.algorithms import label
    z = decode_big_pits(case["pits"])
    d = z.max() - z
    mask = d > 0
    if case["cli"]:
        rio.write_tif("d.tif", d)
        rio.cli_ok("bspots", "-depths", "d.tif", "-out", "b.tif", *(["-filter", case["filter"]] if case["filter"] else []))
        lab = rio.R("b.tif").a
        if case["filter"]:
            mask = d > 0.5
    else:
        set_speed(case["speed"])
        lab, n = sut(label.connected_components, d)
        require(int(n) == mask.sum(), "number of labels is %s but there are %d", n, int(mask.sum()))
        flags = np.random.RandomState(case["pits"]["seed"]).rand(int(n) + 1) < 0.5
        kept = np.asarray(sut(label.keep_labels, lab.copy(), flags.tolist()))
        flags[0] = False
        require(np.array_equal(kept != 0, flags[lab]), "keep_labels does not keep exactly the chosen labels")
    grid(lab, d.shape, "labels")
    require(((lab != 0) == mask).all(), "cells of bluespots are not exactly the labelled ones")
    n = int(mask.sum())
    ids = np.sort(lab[mask])  # every bluespot is a single cell
    require(np.array_equal(ids, np.arange(1, n + 1)), "%d bluespots have ids from %d to %d, not 1..n each once", n,
            int(ids[0]) if n else 0, int(ids[-1]) if n else 0)
    rec.nontrivial("over-65535" if n > 65535 else "large")


def run_c05_tool(case, rec):
    """BluespotTool on a terrain, with a filter function."""
    from malstroem import bluespots
    z = decode_dem(case["dem"], "float32")
    t = transform_of(case["g"])
    cell_area = abs(t[1] * t[5])
    filled = priority_flood(z).astype("float32")
    d = filled - z
    lab0, n0 = components8(d != 0)
    stats = stats_of(d, lab0, n0, cell_area)
    what, thr = case["by"], None
    fn = None
    keepers = list(range(1, n0 + 1))
    seen = []
    if what and n0:
        values = sorted({s[what] for s in stats})
        # between two values that occur, so that rounding does not decide
        i = case["at"] % len(values)
        thr = values[i] - 1e-3 * abs(values[i]) if i == 0 else (values[i] + values[i - 1]) / 2.0
        if i and values[i] - values[i - 1] < 1e-6 * abs(values[i]):
            return

        def fn(s):
            seen.append({k: float(s[k]) for k in ("min", "max", "sum", "count", "volume", "area")})
            return s[what] > thr
        keepers = [k for k in range(1, n0 + 1) if stats[k - 1][what] > thr]
    from malstroem.algorithms import fill, flow
    short, diag = fill.minimum_safe_short_and_diag(z)
    f = sut(flow.terrain_flowdirection, sut(fill.fill_terrain_no_flats, z, short, diag))
    lw, ww, pw = MemWriter(), MemWriter(), MemVector()
    set_speed(case["speed"])
    tool = bluespots.BluespotTool(MemReader(d, t), MemReader(f, t), fn, lw, pw, ww, input_dem=MemReader(z, t))
    sut(tool.process)
    n = check_labels(lw.a, np.isin(lab0, keepers) & (lab0 > 0), "bluespot ids")
    require(len(pw.feats) == n + 1, "%d pour points for %d bluespots", len(pw.feats), n)
    if seen:
        # every bluespot was offered to the filter with its own numbers
        for s in stats:
            require(any(all(close(q[k], s[k], 1e-6) for k in ("min", "max", "sum", "count", "volume", "area"))
                        for q in seen), "no bluespot with %r was offered to the filter function", s)
    lvl = filled.astype("float64")
    for k in range(1, n + 1):
        m = lw.a == k
        require(lvl[m].min() == lvl[m].max(), "bluespot %d has more than one spill level", k)
    require(not lw.a[0].any() and not lw.a[-1].any() and not lw.a[:, 0].any() and not lw.a[:, -1].any(),
            "a bluespot reaches the edge of the raster")
    if n0:
        rec.nontrivial("filtered" if len(keepers) < n0 else "all-kept")


# ---------------------------------------------------------------- C06

NAMES = ["area", "maxdepth", "volume"]
OPS = ["<", ">", "<=", ">=", "==", "!="]


def _cmp():
    thr = st.one_of(
        st.fixed_dictionaries({"stat": st.integers(0, 7), "of": st.sampled_from(NAMES + [None, None]),
                               "delta": st.sampled_from([0, 0, 0, 1, -1])}),
        st.fixed_dictionaries({"lit": st.sampled_from(["0", "1", "20.5", "0.05", ".5", "2.", "100", "0.125", "3", "0.30000000000000004", "1000000000000000000000", "0.1250000000000000000000000001"])}))
    return st.fixed_dictionaries({"name": st.sampled_from(NAMES), "op": st.sampled_from(OPS), "thr": thr,
                                  "flip": st.sampled_from([False, False, True])})


def _tree():
    return st.recursive(_cmp(), lambda s: st.fixed_dictionaries(
        {"bool": st.sampled_from(["and", "or"]), "args": st.lists(s, min_size=2, max_size=3),
         "parens": bools}), max_leaves=6)


def render(t, stats, sp, top=True):
    """-> (text, evaluator(stats dict) -> bool). Text without parentheses keeps Python's and-before-or grouping by only
    leaving parentheses away where they do not matter."""
    if "bool" in t:
        parts = [render(a, stats, sp, False) for a in t["args"]]
        word = t["bool"]
        txts = []
        for a, (s, _) in zip(t["args"], parts):
            needs = "bool" in a and word == "and" and a["bool"] == "or"
            txts.append("(" + s + ")" if needs or ("bool" in a and a["parens"]) else s)
        txt = (" " + word + " ").join(txts)
        fns = [f for _, f in parts]
        if word == "and":
            return txt, lambda s: all(f(s) for f in fns)
        return txt, lambda s: any(f(s) for f in fns)
    thr = t["thr"]
    if "lit" in thr:
        lit = thr["lit"]
    else:
        s = stats[thr["stat"] % len(stats)] if stats else {"area": 1.0, "maxdepth": 1.0, "volume": 1.0}
        v = s[thr["of"] or t["name"]] + thr["delta"] * 0.0625
        if v < 0:
            v = 0.0
        lit = ("%d" % v) if v == int(v) and thr["stat"] % 2 else ("%.24f" % v).rstrip("0")
        if float(lit) != v:
            raise AssertionError("threshold %r is not exact" % v)
    num = float(lit)
    name, op = t["name"], t["op"]
    f = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b,
         "==": lambda a, b: a == b, "!=": lambda a, b: a != b}[op]
    if t["flip"]:
        return lit + sp + op + sp + name, lambda s: f(num, s[name])
    return name + sp + op + sp + lit, lambda s: f(s[name], num)


def dyadic(case):
    """Terrain whose depths, areas and volumes are exact in binary."""
    z = np.round(decode_dem(case["dem"], "float64") * 8) / 8
    return z.astype("float32")


def run_c06(case, rec):
    z = dyadic(case)
    d = priority_flood(z).astype("float32") - z
    # width and height of a cell may differ by less than a hundredth
    h = case["cell"] * (1 + case["more"] / 128.0)
    t = (500000.0, case["cell"], 0.0, 6200000.0, 0.0, -h)
    lab, n = components8(d != 0)
    stats = stats_of(d, lab, n, case["cell"] * h)
    txt, fn = render(case["tree"], stats, case["sp"])
    if case["pad"]:
        txt = " " + txt + " "
    keep = [k for k in range(1, n + 1) if fn(stats[k - 1])]
    if case["complete"]:
        import os
        rio.write_tif("dem.tif", z, t)
        os.mkdir("o")
        rio.cli_ok("complete", "-dem", "dem.tif", "-outdir", "o", "-mm", "1", "-zresolution", "1", "-filter", txt)
        b = rio.R("o/bluespots.tif").a
    else:
        rio.write_tif("d.tif", d, t)
        rio.cli_ok("bspots", "-depths", "d.tif", "-out", "b.tif", "-filter", txt)
        b = rio.R("b.tif").a
    want = np.isin(lab, keep) & (lab > 0)
    if not np.array_equal(b != 0, want):
        y, x = np.argwhere((b != 0) != want)[0]
        s = stats[lab[y, x] - 1] if lab[y, x] else None
        fail("filter %r: bluespot with %s was %s" % (txt, s and {k: s[k] for k in NAMES},
                                                     "kept" if b[y, x] else "dropped"))
    check_labels(b, want, "filtered bluespot ids")
    if 0 < len(keep) < n:
        rec.nontrivial("splits")
    elif n:
        rec.tag("all" if keep else "none")


BAD = ["import os", "__import__('os')", "area >", "> 5", "area = 5", "area => 5", "area > 5 and", "(area > 5",
       "area > 5)", "depth > 1", "areas > 1", "Area > 1", "volume > x", "not area > 1", "area > 5 & volume > 1",
       "area > 5 | volume > 1", "area ** 2 > 1", "area * 2 > 1", "area + volume > 1", "area / 2 > 1", "area, volume",
       "[area > 1]", "{area}", "area > '1'", "area > 1; volume > 1", "lambda: 1", "open('x','w')", "area > 1e3",
       "area > 1 xor volume > 2", "True", "stats", "area > -1", "area > 5 volume > 3", "maxdepth.area > 1",
       "area(1)", "area > 5 or or volume > 1", "print", "area > 0x10", "area > 1_000", "area if volume else 1",
       "exit()", "min > 0.1", "sum > 1", "count > 1", "area <> 5", "area == = 5", "area > 5 && volume > 1",
       "volume >> 1", "area ! 5", "area > 1.2.3"]


def run_c06_bad(case, rec):
    txt = BAD[case["i"] % len(BAD)]
    if case["mix"]:
        txt = case["mix"].replace("@", txt)
    z = dyadic(case)
    d = priority_flood(z).astype("float32") - z
    rio.write_tif("d.tif", d)
    import os
    before = sorted(os.listdir("."))
    rc, out, exc = rio.cli("bspots", "-depths", "d.tif", "-out", "b.tif", "-filter", txt)
    require(rc != 0, "filter %r is not an expression of the filter language but bspots exits with 0", txt)
    require(sorted(os.listdir(".")) == before, "filter %r is rejected but %s was written", txt,
            sorted(set(os.listdir(".")) - set(before)))
    rec.nontrivial("mixed" if case["mix"] else "plain")


TOK = ["area", "maxdepth", "volume", "and", "or", "(", ")", "<", ">", "<=", ">=", "==", "!=", "=", "!", ".", "1", "0.5", "2.",
       ".5", "0", "20.5", "3"]


@st.composite
def soups(draw):
    """A legal text with a few tokens dropped, doubled, replaced or inserted; or tokens at random."""
    if draw(st.integers(0, 3)) == 0:
        toks = draw(st.lists(st.sampled_from(TOK), max_size=7))
    else:
        toks = []
        depth = 0
        for _ in range(draw(st.integers(1, 4))):
            if toks:
                toks.append(draw(st.sampled_from(["and", "or"])))
            for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
                toks.append("(")
                depth += 1
            kind = draw(st.integers(0, 7))
            a, n = draw(st.sampled_from(NAMES)), draw(st.sampled_from(["1", "0.5", "2.", ".5", "0", "20.5", "3", "7"]))
            op = draw(st.sampled_from(OPS))
            toks += ([a, op, n] if kind < 4 else [n, op, a] if kind == 4 else [a, op, draw(st.sampled_from(NAMES))] if kind == 5
                     else [n, op, a, draw(st.sampled_from(OPS)), draw(st.sampled_from(["4", "100", "0"]))] if kind == 6
                     else ["(", a, ")", op, "(", n, ")"])
            while depth and draw(bools):
                toks.append(")")
                depth -= 1
        toks += [")"] * depth
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
            i, how = draw(st.integers(0, max(0, len(toks) - 1))), draw(st.integers(0, 3))
            if how == 0:
                del toks[i:i + 1]
            elif how == 1:
                toks.insert(i, toks[i] if toks else "area")
            elif how == 2:
                toks[i:i + 1] = [draw(st.sampled_from(TOK))]
            else:
                toks.insert(i, draw(st.sampled_from(TOK)))
    return (draw(st.sampled_from([" ", " ", "", "  "]))).join(toks)


class Illegal(Exception):
    pass


def parse_text(txt):
    """-> evaluator(stats) of a text of the language; raises Illegal; None when not specified (number glued to a word,
    whole number with leading zeros)."""
    import re
    toks, i = [], 0
    while i < len(txt):
        if txt[i] == " ":
            i += 1
            continue
        m = re.compile(r"(\d+\.?\d*|\.\d+)|([A-Za-z_]+)|(<=|>=|==|!=|<|>|\(|\))").match(txt, i)
        if not m:
            raise Illegal(txt[i])
        i = m.end()
        if m.group(1):
            if re.match(r"[A-Za-z_]", txt[i:i + 1]) or re.fullmatch(r"0\d+", m.group(1)):
                return None
            toks.append(("num", float(m.group(1))))
        elif m.group(2):
            if re.match(r"[0-9]", txt[i:i + 1]) or m.group(2) not in NAMES + ["and", "or"]:
                raise Illegal(m.group(2))
            toks.append((m.group(2) if m.group(2) in ("and", "or") else "name", m.group(2)))
        else:
            toks.append((m.group(3) if m.group(3) in "()" else "op", m.group(3)))
    toks.append(("end", None))
    pos = [0]

    def take(kind):
        if toks[pos[0]][0] == kind:
            pos[0] += 1
            return toks[pos[0] - 1][1]

    def primary():
        if take("(") is not None:
            r = bool_or()
            if take(")") is None:
                raise Illegal("missing )")
            return r
        k, v = toks[pos[0]]
        pos[0] += 1
        if k == "num":
            return "val", lambda s: v
        if k == "name":
            return "val", lambda s: s[v]
        raise Illegal(str(v))

    def compare():
        first = primary()
        args, ops = [first], []
        while True:
            op = take("op")
            if op is None:
                break
            ops.append(op)
            args.append(primary())
        if not ops:
            return first
        if any(k != "val" for k, _ in args):
            raise Illegal("comparison of conditions")
        F = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b,
             "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
        return "cond", lambda s: all(F[o](args[k][1](s), args[k + 1][1](s)) for k, o in enumerate(ops))

    def joined(word, sub, how):
        parts = [sub()]
        while take(word) is not None:
            parts.append(sub())
        if len(parts) == 1:
            return parts[0]
        if any(k != "cond" for k, _ in parts):
            raise Illegal(word + " of something that is no condition")
        return "cond", lambda s: how(f(s) for _, f in parts)

    def bool_and():
        return joined("and", compare, all)

    def bool_or():
        return joined("or", bool_and, any)

    kind, fn = bool_or()
    if toks[pos[0]][0] != "end" or kind != "cond":
        raise Illegal("no condition")
    return fn


def run_c06_soup(case, rec):
    import os
    txt = case["txt"]
    try:
        fn = parse_text(txt) if txt else None
    except Illegal:
        fn = False
    if fn is None:
        return
    z = dyadic(case)
    d = priority_flood(z).astype("float32") - z
    lab, n = components8(d != 0)
    stats = stats_of(d, lab, n, 1.0)
    if case["complete"]:
        os.mkdir("o")
        rio.write_tif("dem.tif", z)
        args, res, out = ["complete", "-dem", "dem.tif", "-outdir", "o", "-mm", "1", "-zresolution", "0.5"], "o/bluespots.tif", "o"
    else:
        rio.write_tif("d.tif", d)
        args, res, out = ["bspots", "-depths", "d.tif", "-out", "b.tif"], "b.tif", "."
    before = sorted(os.listdir(out))
    rc, text, exc = rio.cli(*(args + ["-filter", txt]))
    if fn is False:
        require(rc != 0, "filter %r is no filter expression but %s exits with 0", txt, args[0])
        require(sorted(os.listdir(out)) == before, "filter %r is refused but %s wrote %s", txt, args[0],
                sorted(set(os.listdir(out)) - set(before)))
        rec.nontrivial("refused", args[0])
        return
    require(rc == 0, "filter %r is refused: %s %s", txt, text[-300:], exc)
    b = rio.R(res).a
    keep = [k for k in range(1, n + 1) if fn(stats[k - 1])]
    require(np.array_equal(b != 0, np.isin(lab, keep) & (lab > 0)), "filter %r keeps other bluespots", txt)
    if n:
        rec.nontrivial("accepted", "splits" if 0 < len(keep) < n else "all-or-none")


# ---------------------------------------------------------------- C07


@st.composite
def drained_fields(draw, maxr=12, maxc=12):
    """Flow fields where every cell drains off the raster: grown inwards from the edge, independent of any terrain."""
    return {"r": draw(st.integers(3, maxr)), "c": draw(st.integers(3, maxc)), "seed": draw(st.integers(0, 2**24)),
            "style": draw(st.sampled_from(["random", "long", "long", "outlet"]))}


def decode_drained(d):
    from ..oracle import DELTA
    r, c = d["r"], d["c"]
    rng = np.random.RandomState(d["seed"])
    f = np.full((r, c), 8, dtype="uint8")
    f[0, :], f[-1, :] = 0, 4
    f[:, 0], f[:, -1] = 6, 2
    f[0, 0], f[0, -1], f[-1, 0], f[-1, -1] = 7, 1, 5, 3
    todo = [(y, x) for y in range(r) for x in range(c) if is_edge(r, c, y, x)]
    if d["style"] == "outlet":
        todo = [todo[rng.randint(len(todo))]]
        start = list(todo)
        todo = start
    done = np.zeros((r, c), bool)
    for y in range(r):
        for x in range(c):
            if is_edge(r, c, y, x):
                done[y, x] = True
    while todo:
        i = len(todo) - 1 - int(rng.randint(0, min(3, len(todo)))) if d["style"] != "random" else rng.randint(len(todo))
        y, x = todo[i]
        ks = [k for k, (dy, dx) in enumerate(DELTA)
              if 0 <= y + dy < r and 0 <= x + dx < c and not done[y + dy, x + dx]]
        if not ks:
            todo.pop(i)
            continue
        k = ks[rng.randint(len(ks))]
        ny, nx = y + DELTA[k][0], x + DELTA[k][1]
        f[ny, nx] = (k + 4) % 8
        done[ny, nx] = True
        todo.append((ny, nx))
    # corners of the interior that only the outlet style leaves out
    for y in range(1, r - 1):
        for x in range(1, c - 1):
            if f[y, x] == 8:
                f[y, x] = 0
    return f


def run_c07_api(case, rec):
    from malstroem.algorithms import flow
    f = decode_drained(case["flow"]) if "flow" in case else None
    r, c = f.shape
    un = case["unassigned"]
    lab = decode_labels(case["lab"], r, c, "int64")
    if un:
        lab[lab == 0] = un
        if un > 0:
            lab[lab == un] = un
    lab = lab.astype(case["dtype"])
    want = first_label_downstream(f, lab, unassigned=un)
    set_speed(case["speed"])
    g, got = f.copy(), lab.copy()
    sut(flow.watersheds_from_labels, g, got, unassigned=un)
    require((g == f).all(), "computing watersheds modifies the flow directions")
    require((got == want).all(), "watersheds are not the first bluespot downstream: %s",
            "" if (got == want).all() else first_diff(got, want))
    if (want != lab).any():
        rec.nontrivial("labels>1" if len(np.unique(lab)) > 2 else "one-label")
        rec.tag("dtype-" + case["dtype"], "speed" if case["speed"] else "python")


def run_c07_large(case, rec):
    f = decode_big_flow(case["flow"])
    r, c = f.shape
    rng = np.random.RandomState(case["flow"]["seed"] ^ 5)
    m = rng.rand(r, c) < case["part"]
    lab = np.zeros((r, c), case["dtype"])
    ids = np.arange(1, int(m.sum()) + 1)
    lab[m] = ids if case["order"] else ids[::-1]
    want = first_label_downstream(f, lab)
    set_speed(case["speed"])
    if case["cli"] and case["dtype"] == "int32":
        rio.write_tif("f.tif", f)
        rio.write_tif("b.tif", lab)
        rio.cli_ok("wsheds", "-bluespots", "b.tif", "-flowdir", "f.tif", "-out", "w.tif")
        got = grid(rio.R("w.tif").a, f.shape, "watersheds")
    else:
        got = lab.copy()
        sut(flow_module().watersheds_from_labels, f.copy(), got, unassigned=0)
    require((got == want).all(), "watersheds are not the first bluespot downstream: %s",
            "" if (got == want).all() else first_diff(got, want))
    n = int(lab.max())
    rec.nontrivial("over-65535" if n > 65535 else "over-255" if n > 255 else "large", "large-" + case["flow"].get("style", "thin"))


def flow_module():
    from malstroem.algorithms import flow
    return flow


def run_c07_cli(case, rec):
    z = decode_dem(case["dem"], "float32")
    rio.write_tif("dem.tif", z)
    chain.surface(accum=False)
    chain.bluespots()
    b, w, f = rio.R("bspots.tif").a, rio.R("wsheds.tif"), rio.R("flowdir.tif").a
    grid(w.a, z.shape, "watersheds")
    want = first_label_downstream(f, b)
    require((w.a == want).all(), "watersheds are not the first bluespot downstream: %s",
            "" if (w.a == want).all() else first_diff(w.a, want))
    if (want != b).any():
        rec.nontrivial("cli")


def run_c07_cli_any(case, rec):
    """wsheds on independent fields and labels."""
    f = decode_drained(case["flow"])
    lab = decode_labels(case["lab"], *f.shape, "int32")
    rio.write_tif("f.tif", f)
    rio.write_tif("b.tif", lab.astype(case["dtype"]), nodata=0)
    rio.cli_ok("wsheds", "-bluespots", "b.tif", "-flowdir", "f.tif", "-out", "w.tif")
    w = rio.R("w.tif").a
    grid(w, f.shape, "watersheds")
    want = first_label_downstream(f, lab)
    require((w == want).all(), "watersheds are not the first bluespot downstream: %s",
            "" if (w == want).all() else first_diff(w, want))
    if (want != lab).any():
        rec.nontrivial("cli-any")


# ---------------------------------------------------------------- C08

PP_FIELDS = ["bspot_id", "bspot_area", "bspot_vol", "bspot_dmax", "bspot_fumm", "wshed_area", "cell_row", "cell_col"]


def check_pourpoints(feats, z, lab, wsh, f, transform, by, rec):
    """feats: list of (props, (x, y)). lab, wsh, f: rasters the pour points were computed from."""
    n = int(lab.max())
    area = abs(transform[1] * transform[5])
    d = (priority_flood(z).astype("float32") - z.astype("float32")).astype("float64")
    ids = sorted(p["bspot_id"] for p, _ in feats)
    require(ids == list(range(n + 1)), "pour points have ids %s but there are %d bluespots", ids[:12], n)
    acc = accumulate(f)
    from ..oracle import SQ2
    w = None
    for p, (x, y) in feats:
        k = p["bspot_id"]
        for fld in PP_FIELDS:
            require(p.get(fld) is not None, "pour point %d has no attribute %s", k, fld)
        cell = (int(p["cell_row"]), int(p["cell_col"]))
        require(0 <= cell[0] < lab.shape[0] and 0 <= cell[1] < lab.shape[1] and lab[cell] == k,
                "pour point of bluespot %d is at %s, outside the bluespot", k, cell)
        cx, cy = chain.centre(transform, *cell)
        require(abs(cx - x) < 1e-3 and abs(cy - y) < 1e-3, "pour point %d is at (%r, %r), its cell %s is at (%r, %r)",
                k, x, y, cell, cx, cy)
        m = lab == k
        require(close(p["bspot_area"], m.sum() * area), "bluespot %d: area %r, expected %r", k, p["bspot_area"],
                float(m.sum() * area))
        vol = 0.0 if k == 0 else float(d[m].sum()) * area
        dmax = 0.0 if k == 0 else float(d[m].max())
        wa = int((wsh == k).sum()) * area
        require(close(p["bspot_vol"], vol, 1e-6, 1e-6), "bluespot %d: volume %r, expected %r", k, p["bspot_vol"], vol)
        require(close(p["bspot_dmax"], dmax, 1e-6, 1e-6), "bluespot %d: depth %r, expected %r", k, p["bspot_dmax"], dmax)
        require(close(p["wshed_area"], wa), "bluespot %d: watershed area %r, expected %r", k, p["wshed_area"], wa)
        require(close(p["bspot_fumm"], 1000.0 * vol / wa, 1e-6, 1e-6), "bluespot %d: fill-up rain %r, expected %r", k,
                p["bspot_fumm"], 1000.0 * vol / wa)
        nxt = downstream(f, *cell)
        require(nxt is None or lab[nxt] != k, "water does not leave bluespot %d at its pour point %s", k, cell)
        if by == "accum":
            require(acc[cell] == acc[m].max(), "pour point %d has accumulated flow %r, the bluespot has %r", k,
                    acc[cell].item(), acc[m].max().item())
        exits = [(yy, xx) for yy, xx in np.argwhere(m).tolist()
                 if downstream(f, yy, xx) is None or lab[downstream(f, yy, xx)] != k]
        if len(exits) == 1:
            require(cell == exits[0], "water leaves bluespot %d only at %s but its pour point is %s", k, exits[0], cell)
            if k:
                rec.tag("single-exit")
        elif k:
            rec.tag("several-exits")
    if n:
        rec.nontrivial("bluespots>1" if n > 1 else "one-bluespot", "by-" + by)


FILTERS = [None, None, "maxdepth > 0.3", "area > 2", "volume > 1", "maxdepth > 0.05 and (area > 2 or volume > 0.5)",
           "area > 100000"]


def run_c08_cli(case, rec):
    z = chain.dem_to_file(case["dem"], case["g"], dtype=case["dtype"])
    chain.surface()
    chain.bluespots(case["filter"])
    chain.pourpoints(case["by"])
    feats = rio.read_layer("r.gpkg", "pourpoints")[0]
    require(all(x["geom"] and x["geom"]["type"] == "Point" for x in feats), "a pour point is no point")
    lab = rio.R("bspots.tif").a
    check_pourpoints([(x["props"], x["geom"]["coordinates"][:2]) for x in feats], z, lab, rio.R("wsheds.tif").a,
                     rio.R("flowdir.tif").a, transform_of(case["g"]), case["by"], rec)
    if case["filter"] and lab.max() < components8(rio.R("depths.tif").a != 0)[1]:
        rec.tag("filtered-out")


def run_c08_tool(case, rec):
    from malstroem import bluespots, dem
    z = decode_dem(case["dem"], "float32")
    t = transform_of(case["g"])
    set_speed(case["speed"])
    fw, flw, dw, aw = MemWriter(), MemWriter(), MemWriter(), MemWriter()
    sut(dem.DemTool(MemReader(z, t), fw, flw, dw, aw).process)
    fn = None
    if case["mindepth"] is not None:
        thr = case["mindepth"]
        fn = lambda s: s["max"] > thr
    lw, ww, pw = MemWriter(), MemWriter(), MemVector()
    tool = bluespots.BluespotTool(MemReader(dw.a, t), MemReader(flw.a, t), fn, lw, pw, ww,
                                  input_accum=MemReader(aw.a, t) if case["by"] == "accum" else None,
                                  input_dem=MemReader(z, t))
    sut(tool.process)
    require((aw.a == accumulate(flw.a)).all(), "accumulated flow does not belong to the flow directions")
    want = first_label_downstream(flw.a, lw.a)
    require((ww.a == want).all(), "watersheds do not belong to the bluespots: %s",
            "" if (ww.a == want).all() else first_diff(ww.a, want))
    check_pourpoints([(x["properties"], x["geometry"]["coordinates"]) for x in pw.feats], z, lw.a, ww.a, flw.a, t,
                     case["by"], rec)


# ---------------------------------------------------------------- C24

DDT = ["float32", "float64", "float64", "int32", "int16", "uint8"]
LDT = ["int32", "int32", "int64", "uint8", "int16", "uint32"]


@st.composite
def stat_cases(draw):
    r, c = draw(st.integers(1, 12)), draw(st.integers(1, 12))
    return {"r": r, "c": c, "b": draw(st.binary(min_size=r * c, max_size=r * c)).hex(),
            "lab": draw(labelings(9)), "d": draw(st.sampled_from(DDT)), "l": draw(st.sampled_from(LDT)),
            "base": draw(st.sampled_from([0, 0, -100, 57])), "n": draw(st.sampled_from([0, 0, 1, 3])),
            "speed": draw(bools), "bg": draw(st.sampled_from([0, 0, 1, 2, -1])), "give": draw(bools)}


def run_c24(case, rec):
    from malstroem.algorithms import label
    r, c = case["r"], case["c"]
    d = np.frombuffer(bytes.fromhex(case["b"]), dtype="uint8").reshape(r, c).astype("float64")
    base = case["base"] if case["d"] != "uint8" else 0
    d = d % 100 if case["d"] == "uint8" else d + base
    if case["d"].startswith("float"):
        d = d * 0.37
    d = d.astype(case["d"])
    lab = decode_labels(case["lab"], r, c, case["l"])
    n = int(lab.max())
    give = n + case["n"]
    nl = give if case["give"] and give else None
    want_n = (give if nl else n) + 1
    set_speed(case["speed"])
    ld, dd = lab.copy(), d.copy()
    s = sut(label.label_stats, dd, ld, nl)
    mn = sut(label.label_min_index, dd, ld, nl)
    mx = sut(label.label_max_index, dd, ld, nl)
    cnt = sut(label.label_count, ld)
    dat = sut(label.label_data, dd, ld, nl, case["bg"])
    require((ld == lab).all() and (dd == d).all(), "label statistics modify their input")
    require(len(s) == want_n and len(mn) == want_n and len(mx) == want_n, "statistics for %d labels instead of %d",
            len(s), want_n)
    require(len(cnt) == n + 1, "counts for %d labels instead of %d", len(cnt), n + 1)
    require(len(dat) == want_n, "data of %d labels instead of %d", len(dat), want_n)
    d64 = d.astype("float64")
    for k in range(n + 1):
        m = lab == k
        v = d64[m]
        require(int(s[k]["count"]) == v.size and int(cnt[k]) == v.size, "label %d has %d cells, counted %d and %d", k,
                v.size, int(s[k]["count"]), int(cnt[k]))
        if v.size:
            require(s[k]["min"] == v.min() and s[k]["max"] == v.max(), "label %d: min/max %r/%r, expected %r/%r", k,
                    s[k]["min"], s[k]["max"], v.min(), v.max())
            require(close(float(s[k]["sum"]), float(v.sum()), 1e-9, 1e-6), "label %d: sum %r, expected %r", k,
                    s[k]["sum"], v.sum())
            for q, ext, what in ((mn[k], v.min(), "minimum"), (mx[k], v.max(), "maximum")):
                cell = int(q["row"]), int(q["col"])
                require(0 <= cell[0] < r and 0 <= cell[1] < c and lab[cell] == k and d64[cell] == ext
                        and q["value"] == ext, "label %d: %s at %s is %r, expected %r", k, what, cell, q["value"], ext)
        got = sorted(float(q) for q in dat[k])
        if k == case["bg"]:
            require(got == [], "values of the background label were collected")
        else:
            require(got == sorted(v.tolist()), "label %d: collected values %s, expected %s", k, got[:6],
                    sorted(v.tolist())[:6])
    if n and len(np.unique(d)) > 1:
        rec.nontrivial("speed" if case["speed"] else "python", "data-" + case["d"], "labels-" + case["l"])


def run_c24_large(case, rec):
    """Many labels, or many cells of one label."""
    from malstroem.algorithms import label
    r, c, n = case["r"], case["c"], case["n"]
    if case.get("t"):
        r, c = c, r
    rng = np.random.RandomState(case["seed"])
    lab = np.where(rng.rand(r, c) < case["part"], rng.randint(1, n + 1, (r, c)), 0)
    lab.flat[rng.randint(0, r * c)] = n
    lab = lab.astype("int32")
    d = (rng.randint(-4000, 4000, (r, c)) / 8.0 + case["base"]).astype(case["d"])
    flat, v = lab.ravel(), d.ravel().astype("float64")
    count = np.bincount(flat, minlength=n + 1)
    tot = np.bincount(flat, weights=v, minlength=n + 1)
    mn, mx = np.full(n + 1, np.inf), np.full(n + 1, -np.inf)
    np.minimum.at(mn, flat, v)
    np.maximum.at(mx, flat, v)
    set_speed(case["speed"])
    s = np.asarray(sut(label.label_stats, d, lab))
    lo, hi = np.asarray(sut(label.label_min_index, d, lab)), np.asarray(sut(label.label_max_index, d, lab))
    cnt = np.asarray(sut(label.label_count, lab))
    dat = sut(label.label_data, d, lab)
    require(len(s) == n + 1 and len(lo) == n + 1 and len(hi) == n + 1 and len(cnt) == n + 1 and len(dat) >= n + 1,
            "statistics for %d, %d, %d, %d, %d labels instead of %d", len(s), len(lo), len(hi), len(cnt), len(dat), n + 1)
    s = {k: np.array([q[k] for q in s]) for k in ("min", "max", "sum", "count")}
    has = count > 0
    for what, got, want in (("count", s["count"], count), ("label_count", cnt, count)):
        bad = np.flatnonzero(got != want)
        require(not bad.size, "label %d: %s is %r, expected %r", *((int(bad[0]), what, got[bad[0]], want[bad[0]]) if bad.size else (0, 0, 0, 0)))
    for what, got, want in (("min", s["min"], mn), ("max", s["max"], mx)):
        bad = np.flatnonzero(has & (got != want))
        require(not bad.size, "label %d: %s is %r, expected %r", *((int(bad[0]), what, got[bad[0]], want[bad[0]]) if bad.size else (0, 0, 0, 0)))
    bad = np.flatnonzero(np.abs(s["sum"] - tot) > 1e-6 + 1e-9 * np.abs(tot))
    require(not bad.size, "label %d: sum is %r, expected %r", *((int(bad[0]), s["sum"][bad[0]], tot[bad[0]]) if bad.size else (0, 0, 0)))
    for q, ext, what in ((lo, mn, "minimum"), (hi, mx, "maximum")):
        row, col, val = (np.array([e[k] for e in q]) for k in ("row", "col", "value"))
        for k in np.flatnonzero(has)[:: max(1, n // 4000)].tolist() + [n]:
            y, x = int(row[k]), int(col[k])
            require(0 <= y < r and 0 <= x < c and lab[y, x] == k and d[y, x] == ext[k] and val[k] == ext[k],
                    "label %d: %s at (%d,%d) is %r, expected %r", k, what, y, x, val[k], ext[k])
    order = np.lexsort((v, flat))
    start = np.concatenate(([0], np.cumsum(count)))
    for k in list(range(1, n + 1, max(1, n // 4000))) + [n]:
        want = v[order[start[k]:start[k + 1]]]
        got = np.sort(np.array(list(dat[k]), dtype="float64"))
        require(np.array_equal(got, want), "label %d: collected %d values, expected %d", k, got.size, want.size)
    rec.nontrivial("over-65535" if n > 65535 else "large-labels" if n > 255 else "large-cells", "large-" + ("speed" if case["speed"] else "python"))


def run_c24_set(case, rec):
    from malstroem.algorithms import label
    lab = decode_labels(case["lab"], case["r"], case["c"], case["l"])
    rng = np.random.RandomState(case["lab"]["seed"] ^ 77)
    vals = np.round(rng.uniform(-50, 50, int(lab.max()) + 1), 3).tolist()
    got = sut(label.set_label_to_value, lab.copy(), list(vals))
    want = np.zeros(lab.shape)
    for k, v in enumerate(vals):
        want[lab == k] = v
    require(got.shape == want.shape and (np.asarray(got, dtype="float64") == want).all(),
            "label values are not assigned cell by cell")
    if lab.max() > 0:
        rec.nontrivial("set-values")


G = georefs()
DEMS = st.one_of(dem_raw(9, 9), dem_flatpits(), dem_proc(26, 26), dem_raw(8, 8))
LABS = labelings(6)

PROPS = [
    {"id": "C05", "aspects": [
        Aspect("cli", st.fixed_dictionaries({"depths": depth_rasters(), "g": G}), run_c05_cli, 1200, 16000),
        Aspect("api", st.fixed_dictionaries({"depths": depth_rasters(16, 16), "flags": st.integers(0, 2**24)}),
               run_c05_api, 2500, 40000),
        Aspect("large", st.fixed_dictionaries({
            "pits": big_pits(), "cli": bools, "speed": st.just(True), "filter": st.sampled_from([None, "maxdepth > 0.5"])}),
            run_c05_large, 32, 200),
        Aspect("tool", st.fixed_dictionaries({
            "dem": DEMS, "g": G, "by": st.sampled_from([None, "area", "max", "volume", "count", "sum", "min"]),
            "at": st.integers(0, 30), "speed": st.sampled_from([True, True, True, False])}), run_c05_tool, 1600, 24000),
    ]},
    {"id": "C06", "aspects": [
        Aspect("expressions", st.fixed_dictionaries({
            "dem": st.one_of(dem_raw(12, 12, 6, 6, bases=[0.0, 10.0], scales=[1.0, 0.5, 0.125]), dem_proc(30, 30, 8, 8, bases=[0.0, 10.0])),
            "cell": st.sampled_from([1.0, 2.0, 0.5, 0.25]), "tree": _tree(), "sp": st.sampled_from([" ", "", " "]),
            "more": st.sampled_from([0, 0, 1, -1]), "complete": st.sampled_from([False] * 5 + [True]),
            "pad": st.sampled_from([False, False, True])}), run_c06, 2400, 40000),
        Aspect("rejects", st.fixed_dictionaries({
            "dem": dem_flatpits(), "i": st.integers(0, len(BAD) - 1),
            "mix": st.sampled_from([None, None, "area > 1 and @", "@ or volume > 2", "(@)"])}), run_c06_bad, 500, 4000),
        Aspect("texts", st.fixed_dictionaries({
            "dem": st.one_of(dem_raw(9, 9, 5, 5, bases=[0.0, 10.0], scales=[1.0, 0.5]), dem_flatpits()), "txt": soups(),
            "complete": st.sampled_from([False] * 7 + [True])}), run_c06_soup, 3000, 40000),
    ]},
    {"id": "C07", "aspects": [
        Aspect("fields", st.fixed_dictionaries({
            "flow": drained_fields(14, 14), "lab": LABS, "unassigned": st.sampled_from([0, 0, 0, 0, 77]),
            "dtype": st.sampled_from(["int32", "int32", "int64", "uint8", "int16"]), "speed": bools}),
            run_c07_api, 4000, 60000),
        Aspect("large", st.fixed_dictionaries({
            "flow": st.one_of(big_flows(), big_flows(270, 330)), "part": st.sampled_from([0.9, 0.0001, 0.01, 0.3]), "order": bools,
            "dtype": st.sampled_from(["int32", "int32", "int64"]), "speed": st.just(True), "cli": bools}), run_c07_large, 48, 500),
        Aspect("large-python", st.fixed_dictionaries({
            "flow": big_flows(40, 80), "part": st.sampled_from([0.9, 0.001, 0.1]), "order": bools,
            "dtype": st.sampled_from(["int32", "int64"]), "speed": st.just(False), "cli": st.just(False)}), run_c07_large, 24, 200),
        Aspect("thin", st.fixed_dictionaries({
            "flow": thin_flows().map(lambda d: dict(d, nodir=0)), "part": st.sampled_from([0.9, 0.001, 0.1]), "order": bools,
            "dtype": st.sampled_from(["int32", "int64"]), "speed": st.just(True), "cli": bools}), run_c07_large, 8, 100),
        Aspect("cli-fields", st.fixed_dictionaries({"flow": drained_fields(40, 40), "lab": labelings(20),
                                                    "dtype": st.sampled_from(["int32", "uint8", "int16"])}),
               run_c07_cli_any, 500, 8000),
        Aspect("cli", st.fixed_dictionaries({"dem": dems(9, 34)}), run_c07_cli, 400, 6000),
    ]},
    {"id": "C08", "aspects": [
        Aspect("cli", st.fixed_dictionaries({
            "dem": DEMS, "g": G, "filter": st.sampled_from(FILTERS), "by": st.sampled_from(["accum", "dem"]),
            "dtype": st.sampled_from(["float32", "float32", "float64", "int16", "uint8"])}), run_c08_cli, 500, 8000),
        Aspect("tool", st.fixed_dictionaries({
            "dem": DEMS, "g": G, "mindepth": st.sampled_from([None, 0.0, 0.1, 0.5, 2.0]),
            "by": st.sampled_from(["accum", "dem"]), "speed": st.sampled_from([True, True, True, False])}),
            run_c08_tool, 1600, 24000),
    ]},
    {"id": "C24", "aspects": [
        Aspect("statistics", stat_cases(), run_c24, 6000, 80000),
        Aspect("large", st.fixed_dictionaries({
            "r": st.integers(150, 400), "c": st.integers(150, 400), "n": st.sampled_from([70000, 3, 300, 40000]),
            "seed": st.integers(0, 2**24), "part": st.sampled_from([1.0, 0.3]), "base": st.sampled_from([0, 1000]),
            "d": st.sampled_from(["float32", "float64"]), "speed": st.just(True)}), run_c24_large, 48, 500),
        Aspect("thin", st.fixed_dictionaries({
            "r": st.integers(1, 4), "c": st.sampled_from([33000, 66000]), "t": bools, "n": st.sampled_from([7, 70000, 300]),
            "seed": st.integers(0, 2**24), "part": st.sampled_from([1.0, 0.3]), "base": st.sampled_from([0, 1000]),
            "d": st.sampled_from(["float32", "float64"]), "speed": st.just(True)}), run_c24_large, 16, 200),
        Aspect("large-python", st.fixed_dictionaries({
            "r": st.integers(20, 90), "c": st.integers(20, 90), "n": st.sampled_from([70000, 3, 300]),
            "seed": st.integers(0, 2**24), "part": st.sampled_from([1.0, 0.3]), "base": st.sampled_from([0, 1000]),
            "d": st.sampled_from(["float32", "float64"]), "speed": st.just(False)}), run_c24_large, 24, 300),
        Aspect("set-values", stat_cases(), run_c24_set, 800, 8000),
    ]},
]
