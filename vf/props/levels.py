"""C12 hypsometry, C13 final levels, C14 final bluespots."""
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Aspect, require, fail, sut
from ..gen import dems, dem_raw, dem_flatpits, dem_proc, decode_dem, labelings, decode_labels, georefs, transform_of
from ..oracle import water_volume, true_level, priority_flood, components8
from .. import rio, chain
from ..chain import close
from .surface import set_speed, grid, first_diff
from .netprops import FLT, shuffled

bools = st.booleans()
G = georefs()
RES = st.sampled_from([0.1, 0.5, 1.0, 0.03, 0.25, 7.0, 0.3, 1e-2, 2.0, 0.7, 100.0])

# ---------------------------------------------------------------- C12


def check_hist(counts, nbins, lower, upper, res, zmin, zmax, values, want_res, k):
    """The histogram describes values (the terrain inside bluespot k)."""
    require(res == want_res, "bluespot %d: bin width %r instead of %r", k, res, want_res)
    require(nbins == len(counts) and nbins >= 1, "bluespot %d: %d bins but %d counts", k, nbins, len(counts))
    require(zmin == values.min() and zmax == values.max(), "bluespot %d: z range %r..%r, terrain has %r..%r", k, zmin,
            zmax, values.min(), values.max())
    mag = max(abs(lower), abs(upper), 1.0)
    eps = 1e-9 * mag
    require(abs(lower + nbins * res - upper) <= eps, "bluespot %d: %d bins of %r do not fill %r..%r", k, nbins, res,
            lower, upper)
    require(lower <= zmin + eps and zmax <= upper + eps, "bluespot %d: bins %r..%r do not cover %r..%r", k, lower,
            upper, zmin, zmax)
    require(lower > zmin - res * (1 + 1e-9) - eps and upper <= zmax + res * (1 + 1e-9) + eps,
            "bluespot %d: bins %r..%r reach more than one bin beyond %r..%r", k, lower, upper, zmin, zmax)
    q = lower / res
    require(abs(q - round(q)) < 1e-6 * max(1.0, abs(q)), "bluespot %d: lower bound %r is no multiple of %r", k, lower, res)
    require(all(int(c) == c and c >= 0 for c in counts), "bluespot %d: counts %s", k, list(counts)[:10])
    require(sum(int(c) for c in counts) == len(values), "bluespot %d: %d of %d cells are in the histogram", k,
            sum(int(c) for c in counts), len(values))
    # cells well inside a bin can only be counted there; others (rounding: bins of single precision terrain may be
    # compared in single precision) in the bin on either side of the border
    pos = (values.astype("float64") - lower) / res
    slack = 1e-6 + (5e-7 if values.dtype == np.float32 else 1e-9) * mag / res
    first = np.clip(np.floor(pos - slack), 0, nbins - 1).astype(int)
    last = np.clip(np.floor(pos + slack), 0, nbins - 1).astype(int)
    have = np.zeros(nbins, int)
    may = np.zeros(nbins, int)
    for f, l in zip(first, last):
        may[f:l + 1] += 1
        if f == l:
            have[f] += 1
    for b in range(nbins):
        require(have[b] <= counts[b] <= may[b], "bluespot %d: bin %d (%r..%r) counts %d, terrain has %d to %d", k,
                b, lower + b * res, lower + (b + 1) * res, counts[b], have[b], may[b])


def run_c12_api(case, rec):
    from malstroem import hyps
    z = decode_dem(case["dem"], case["dtype"])
    lab = decode_labels(case["lab"], *z.shape, case["ldtype"])
    # labels without gaps
    ids = [k for k in np.unique(lab) if k]
    for i, k in enumerate(ids, 1):
        lab[lab == k] = i
    res = case["res"]
    if (float(z.max()) - float(z.min())) / res > 20000:
        return
    set_speed(case["speed"])
    zz, ll = z.copy(), lab.copy()
    out = sut(lambda: list(hyps.bluespot_hypsometry_stats(ll, zz, res)))
    require((zz == z).all() and (ll == lab).all(), "hypsometry modifies its input")
    require([k for k, _ in out] == list(range(len(ids) + 1)), "statistics for labels %s", [k for k, _ in out][:10])
    for k, s in out:
        if k == 0:
            require(s.zhistogram.bins.num_bins == 0 and len(s.zhistogram.counts) == 0,
                    "statistics of the background were collected")
            continue
        b = s.zhistogram.bins
        check_hist(list(s.zhistogram.counts), b.num_bins, b.lower_bound, b.upper_bound, b.resolution, s.zmin, s.zmax,
                   z[lab == k], res, k)
        if b.num_bins > 1:
            rec.nontrivial("bins>1")
        if b.lower_bound < 0:
            rec.tag("below-zero")
    if case["speed"]:
        rec.tag("speed")


def read_hyps(props, k):
    """Histogram attributes as the documentation describes them."""
    for f in ("hist_counts", "hist_num_bins", "hist_lower_bound", "hist_upper_bound", "hist_resolution", "zmin", "zmax",
              "cell_area"):
        require(f in props and props[f] is not None, "bluespot %d has no attribute %s", k, f)
    txt = str(props["hist_counts"])
    try:
        counts = [int(v) for v in txt.split("|")]
        nums = [float(props[f]) for f in ("hist_lower_bound", "hist_upper_bound", "hist_resolution", "zmin", "zmax",
                                          "cell_area")]
        nb = int(props["hist_num_bins"])
    except ValueError:
        fail("bluespot %d: histogram attributes %r are no numbers" % (k, txt[:60]))
    return (counts, nb) + tuple(nums)


def run_c12_cli(case, rec):
    from malstroem import hyps
    z = chain.dem_to_file(case["dem"], case["g"], dtype=case["dtype"])
    if (float(z.max()) - float(z.min())) / case["res"] > 20000:
        return
    chain.surface(accum=False)
    chain.bluespots(case["filter"])
    chain.pourpoints("dem", out="p.gpkg")
    fmt, out, layer = case["fmt"]
    rio.cli_ok("hyps", "-bluespots", "bspots.tif", "-dem", "dem.tif", "-pourpoints", "p.gpkg", "-zresolution",
               repr(case["res"]), "-out", out, "-format", fmt)
    lab = rio.R("bspots.tif").a
    t = transform_of(case["g"])
    pp = chain.by_id("p.gpkg", "pourpoints")
    feats = rio.read_layer(out, layer)[0]
    require(len(feats) == len(pp), "%d rows for %d pour points", len(feats), len(pp))
    for f in feats:
        p = f["props"]
        k = int(p["bspot_id"])
        for name, v in pp[k]["props"].items():
            if isinstance(v, (int, float)):
                require(p.get(name) is not None and close(float(p[name]), float(v)), "bluespot %d: %s was %r and is %r",
                        k, name, v, p.get(name))
        if k == 0:
            continue
        counts, nb, lo, up, res, zmin, zmax, ca = read_hyps(p, k)
        require(close(ca, abs(t[1] * t[5])), "cell area is %r", ca)
        vals = z[lab == k]
        # values written as text keep 15 digits
        require(close(zmin, vals.min(), 1e-12, 1e-12) and close(zmax, vals.max(), 1e-12, 1e-12),
                "bluespot %d: z range %r..%r, terrain has %r..%r", k, zmin, zmax, vals.min(), vals.max())
        check_hist(counts, nb, lo, up, case["res"] if close(res, case["res"], 1e-12, 0) else res, vals.min(),
                   vals.max(), vals, case["res"], k)
        # reading the row back gives the same statistics
        s = sut(hyps.hypsometrystats_from_flatdict, {q: p[q] for q in p})
        require(list(s.zhistogram.counts) == counts and s.zhistogram.bins.num_bins == nb and s.zmin == zmin
                and s.zmax == zmax and s.zhistogram.bins.lower_bound == lo and s.zhistogram.bins.resolution == res,
                "bluespot %d: statistics read back differ from the attributes", k)
        if nb > 1:
            rec.nontrivial("bins>1", "format-" + fmt)


@st.composite
def big_hists(draw):
    """Bins with more cells than 16 bits count, or tens of thousands of bins, or thousands of bluespots."""
    how = draw(st.sampled_from(["cells", "bins", "spots"]))
    m = {"how": how, "seed": draw(st.integers(0, 2**24)), "d": draw(st.sampled_from(["float32", "float64"])),
         "base": draw(st.sampled_from([0.0, -3.0, 57.37, -1.0, 1200.0]))}
    m["r"], m["c"] = draw(st.tuples(st.integers(280, 420), st.integers(280, 420)) if how == "cells" else
                          st.tuples(st.integers(3, 40), st.integers(3, 40)) if how == "bins" else
                          st.tuples(st.integers(40, 90), st.integers(40, 90)))
    m["n"] = draw(st.sampled_from([1, 2])) if how != "spots" else draw(st.integers(300, 3000))
    m["range"] = draw(st.sampled_from([0.5, 3.0])) if how == "cells" else draw(st.sampled_from([200.0, 900.0])) if how == "bins" else 5.0
    m["res"] = draw(st.sampled_from([1.0, 0.25, 10.0])) if how == "cells" else draw(st.sampled_from([0.01, 0.1])) if how == "bins" \
        else draw(st.sampled_from([0.1, 0.5, 1.0]))
    return {"m": m, "cli": draw(bools), "fmt": draw(st.sampled_from([["CSV", "h.csv", None], ["gpkg", "h.gpkg", "hyps"], ["geojson", "h.geojson", None]]))}


def run_c12_big(case, rec):
    from malstroem import hyps
    m = case["m"]
    rng = np.random.RandomState(m["seed"])
    z = (m["base"] + rng.rand(m["r"], m["c"]) * m["range"]).astype(m["d"])
    n = min(m["n"], m["r"] * m["c"])
    lab = rng.randint(0, n + 1, z.shape)
    lab.flat[:n] = np.arange(1, n + 1)  # every bluespot has a cell
    lab = lab.astype("int32")
    res = m["res"]
    order = np.argsort(lab.ravel(), kind="stable")
    ends = np.cumsum(np.bincount(lab.ravel(), minlength=n + 1))
    groups = {k: z.ravel()[order[ends[k - 1]:ends[k]]] for k in range(1, n + 1)}
    if case["cli"]:
        t = (0.0, 2.0, 0.0, 0.0, 0.0, -2.0)
        rio.write_tif("dem.tif", z, t)
        rio.write_tif("b.tif", lab, t)
        from osgeo import ogr
        rio.write_points("p.gpkg", "pourpoints", shuffled([(1.0 * k, 2.0, {"bspot_id": k}) for k in range(n + 1)], m["seed"] % 9),
                         {"bspot_id": ogr.OFTInteger})
        fmt, out, layer = case["fmt"]
        rio.cli_ok("hyps", "-bluespots", "b.tif", "-dem", "dem.tif", "-pourpoints", "p.gpkg", "-zresolution", repr(res),
                   "-out", out, "-format", fmt)
        feats = {int(f["props"]["bspot_id"]): f["props"] for f in rio.read_layer(out, layer)[0]}
        require(set(feats) == set(range(n + 1)), "%d rows for %d pour points", len(feats), n + 1)
        for k in range(1, n + 1):
            counts, nb, lo, up, r, zmin, zmax, ca = read_hyps(feats[k], k)
            v = groups[k]
            require(close(ca, 4.0), "cell area is %r", ca)
            require(close(zmin, v.min(), 1e-12, 1e-12) and close(zmax, v.max(), 1e-12, 1e-12), "bluespot %d: z range %r..%r", k, zmin, zmax)
            check_hist(counts, nb, lo, up, res if close(r, res, 1e-12, 0) else r, v.min(), v.max(), v, res, k)
    else:
        set_speed(True)
        out = sut(lambda: list(hyps.bluespot_hypsometry_stats(lab, z, res)))
        require([k for k, _ in out] == list(range(n + 1)), "statistics of %d labels instead of %d", len(out), n + 1)
        for k, s in out[1:]:
            b = s.zhistogram.bins
            check_hist(list(s.zhistogram.counts), b.num_bins, b.lower_bound, b.upper_bound, b.resolution, s.zmin, s.zmax,
                       groups[k], res, k)
    rec.nontrivial("big-" + m["how"], "cli" if case["cli"] else "api")


# ---------------------------------------------------------------- C13


def bluespot_set(z, cell_area, lab):
    """{id: dict(z, dmax, vol, spill)} from the terrain."""
    filled = priority_flood(z)
    out = {}
    for k in range(1, int(lab.max()) + 1):
        m = lab == k
        d = filled[m] - z[m].astype("float64")
        out[k] = {"z": z[m].astype("float64"), "dmax": float(d.max()), "vol": float(d.sum()) * cell_area,
                  "spill": float(filled[m].max())}
    return out


def check_level(level, depth, v, b, res, cell_area, k):
    zmin = float(b["z"].min())
    top = b["spill"]
    eps = 1e-6 * max(1.0, abs(top), abs(zmin)) + 1e-6 * b["dmax"]
    require(close(depth, level - zmin, 1e-9, eps), "bluespot %d: depth %r does not belong to level %r above %r", k, depth,
            level, zmin)
    require(zmin - eps <= level <= top + eps, "bluespot %d: level %r outside %r..%r", k, level, zmin, top)
    if v <= 0:
        require(abs(level - zmin) <= eps, "bluespot %d is empty but its level is %r, its bottom %r", k, level, zmin)
    if v >= b["vol"] * (1 - 1e-9):
        require(abs(level - top) <= eps, "bluespot %d is full but its level is %r, it spills at %r", k, level, top)
    want = true_level(b["z"], v, cell_area)
    tol = 3 * res + 2e-4 * b["dmax"] + eps
    require(abs(level - want) <= tol, "bluespot %d: level %r for %r of %r m3, water stands at %r (bins of %r)", k, level,
            v, b["vol"], want, res)


def run_c13(case, rec):
    z = chain.dem_to_file(case["dem"], case["g"], dtype=case["dtype"]).astype("float32")
    res = case["res"]
    if (float(z.max()) - float(z.min())) / res > 5000:
        return
    chain.surface(accum=False)
    chain.bluespots(case["filter"])
    chain.pourpoints("dem")
    chain.network()
    chain.hypsometry(res)
    lab = rio.R("bspots.tif").a
    t = transform_of(case["g"])
    area = abs(t[1] * t[5])
    bs = bluespot_set(z, area, lab)
    nodes = rio.read_layer("r.gpkg", "nodes")[0]
    from osgeo import ogr
    from .netprops import node_fields
    rng = np.random.RandomState(case["seed"])
    fields = dict(node_fields(), inputv=ogr.OFTReal, v=ogr.OFTReal, spillv=ogr.OFTReal, pctv=ogr.OFTReal)
    # a rising sequence of final states; each bluespot gets its own fill grade
    steps = sorted([0.0, 1.0] + [round(float(q), 4) for q in rng.rand(case["steps"])])
    prev = {}
    for i, q in enumerate(steps):
        feats = []
        vols = {}
        for f in nodes:
            p = dict(f["props"])
            cap = p["bspot_vol"]
            k = p["bspot_id"]
            grade = q if k is None else q ** (1 + (k % 3))
            vol = cap if grade >= 1 else cap * grade
            p.update(inputv=vol, v=vol, spillv=0.0, pctv=100.0 * grade if cap else None)
            if p["nodetype"] == "pourpoint":
                vols[k] = vol
            feats.append((0.0, 0.0, {n: p[n] for n in fields}))
        layer = "fv%d" % i
        rio.write_points("r.gpkg", layer, shuffled(feats, case["seed"]), fields)
        chain.finallevels(src=layer, layer="fl%d" % i)
        lev = chain.by_id("r.gpkg", "fl%d" % i, "bspot_id")
        require(set(lev) == set(vols), "levels of bluespots %s instead of %s", sorted(lev)[:9], sorted(vols)[:9])
        for k in bs:
            p = lev[k]["props"]
            require(p.get("approx_z") is not None and p.get("approx_dmax") is not None, "bluespot %d has no level", k)
            for nme in ("nodeid", "dstrnodeid", "nodetype", "bspot_vol", "v", "spillv", "inputv", "wshed_area"):
                require(nme in p, "attribute %s is lost", nme)
            require(close(p["v"], vols[k]), "bluespot %d: v was %r and is %r", k, vols[k], p["v"])
            check_level(p["approx_z"], p["approx_dmax"], vols[k], bs[k], res, area, k)
            eps = 1e-7 * max(1.0, abs(p["approx_z"]))
            require(p["approx_z"] >= prev.get(k, -math.inf) - eps, "bluespot %d: level falls from %r to %r with more water",
                    k, prev.get(k), p["approx_z"])
            prev[k] = p["approx_z"]
    if bs:
        rec.nontrivial("levels", "bins>1" if any(b["z"].max() - b["z"].min() > res for b in bs.values()) else "one-bin")


# many bluespots of many shapes without the files of the whole chain


@st.composite
def hyps_rows(draw):
    n = draw(st.integers(1, 5))
    bs = []
    for _ in range(n):
        bs.append({"z": draw(st.lists(st.integers(0, 400), min_size=1, max_size=14)),
                   "over": draw(st.integers(1, 300)), "grades": draw(st.lists(st.integers(0, 1000), min_size=2, max_size=5))})
    return {"bs": bs, "base": draw(st.sampled_from([0.0, -3.0, 57.37, -1.0, 1200.0])),
            "unit": draw(st.sampled_from([0.01, 0.1, 0.003, 0.125])), "res": draw(RES),
            "area": draw(st.sampled_from([1.0, 0.16, 2.56, 100.0]))}


class _Reader:
    def __init__(self, feats):
        self.feats = feats

    def read_geojson_features(self):
        import copy
        return copy.deepcopy(self.feats)


def run_c13_rows(case, rec):
    from malstroem import hyps, approx
    from .bluespot import MemReader, MemVector
    res, area = case["res"], case["area"]
    cells, labs = [], []
    bs = {}
    for i, b in enumerate(case["bs"], 1):
        z = np.array([case["base"] + case["unit"] * v for v in b["z"]])
        top = z.max() + case["unit"] * b["over"]
        bs[i] = {"z": z, "spill": float(top), "dmax": float(top - z.min()), "vol": float((top - z).sum()) * area}
        cells += z.tolist()
        labs += [i] * len(z)
    dem = np.array([cells + [case["base"] + 99.0]])
    lab = np.array([labs + [0]], dtype="int32")
    if max(b["z"].max() - b["z"].min() for b in bs.values()) / res > 5000:
        return
    side = math.sqrt(area)
    t = (0.0, side, 0.0, 0.0, 0.0, -side)
    pps = [{"type": "Feature", "geometry": None, "properties": {
        "bspot_id": k, "bspot_dmax": bs[k]["dmax"] if k else 0.0, "bspot_vol": bs[k]["vol"] if k else 0.0}}
        for k in range(len(bs) + 1)]
    hw = MemVector()
    sut(hyps.bluespot_hypsometry_io, MemReader(lab, t), MemReader(dem, t), _Reader(pps), res, hw)
    prev = {}
    for j in range(min(len(b["grades"]) for b in case["bs"])):
        fin = []
        vols = {}
        for k in bs:
            g = sorted(case["bs"][k - 1]["grades"])[j] / 1000.0
            vols[k] = bs[k]["vol"] if g >= 1 else bs[k]["vol"] * g
            fin.append({"type": "Feature", "geometry": None, "properties": {
                "nodeid": k, "nodetype": "pourpoint", "bspot_id": k, "v": vols[k]}})
        fin.append({"type": "Feature", "geometry": None, "properties": {
            "nodeid": 99, "nodetype": "junction", "bspot_id": None, "v": 0.0}})
        lw = MemVector()
        sut(approx.approx_water_level_io, _Reader(fin), _Reader(hw.feats), lw)
        got = {f["properties"]["bspot_id"]: f["properties"] for f in lw.feats}
        require(set(got) == set(bs), "levels of bluespots %s instead of %s", sorted(got), sorted(bs))
        for k in bs:
            p = got[k]
            check_level(p["approx_z"], p["approx_dmax"], vols[k], bs[k], res, area, k)
            require(p["approx_z"] >= prev.get(k, -math.inf) - 1e-7 * max(1.0, abs(p["approx_z"])),
                    "bluespot %d: level falls from %r to %r with more water", k, prev.get(k), p["approx_z"])
            prev[k] = p["approx_z"]
            if 0 < vols[k] < bs[k]["vol"] and len(bs[k]["z"]) > 1:
                rec.nontrivial("partial")


# ---------------------------------------------------------------- C14


@st.composite
def level_cases(draw):
    return {"dem": draw(st.one_of(dem_raw(9, 9), dem_flatpits(), dem_proc(26, 26))), "g": draw(G),
            "lab": draw(labelings(7)), "seed": draw(st.integers(0, 2**24)),
            "dtype": draw(st.sampled_from(["float32", "float32", "float64", "int16"])),
            "ldtype": draw(st.sampled_from(["int32", "int32", "uint8", "int16"])),
            "outs": draw(st.sampled_from(["both", "both", "depths", "labels"])),
            "quant": draw(bools), "order": draw(st.integers(0, 9))}


def level_setup(case):
    if "many" in case:
        return many_setup(case["many"])
    z = decode_dem(case["dem"], "float64")
    z = (np.round(z) if case["dtype"].startswith("i") else z).astype(case["dtype"])
    lab = decode_labels(case["lab"], *z.shape, "int32")
    n = case["lab"]["n"]
    rng = np.random.RandomState(case["seed"])
    lev = {}
    for k in range(1, n + 1):
        v = z[lab == k].astype("float64")
        lo, hi = (v.min(), v.max()) if v.size else (0.0, 1.0)
        how = rng.randint(0, 5)
        if how == 0:
            lev[k] = float(lo)
        elif how == 1:
            lev[k] = float(hi) + round(float(rng.rand()) * 3, 3)
        elif how == 2 and v.size:
            lev[k] = float(v[rng.randint(0, v.size)])  # exactly at a cell
        else:
            lev[k] = float(lo + rng.rand() * (hi - lo))
    return z, lab, lev


@st.composite
def many_levels(draw):
    """Tens of thousands of bluespots; thin rasters."""
    shape = draw(st.one_of(st.tuples(st.integers(260, 330), st.integers(260, 330)),
                           st.tuples(st.integers(2, 4), st.integers(33000, 66000)),
                           st.tuples(st.integers(33000, 66000), st.integers(2, 4))))
    m = {"r": shape[0], "c": shape[1], "n": draw(st.sampled_from([3, 300, 40000, 70000])), "seed": draw(st.integers(0, 2**24)),
         "part": draw(st.sampled_from([1.0, 0.4])), "d": draw(st.sampled_from(["float32", "float64"])),
         "base": draw(st.sampled_from([0.0, -50.0, 800.0]))}
    return {"many": m, "g": draw(G), "ldtype": "int32", "outs": draw(st.sampled_from(["both", "depths", "labels"])),
            "order": draw(st.integers(0, 9)), "cli": draw(bools)}


def many_setup(m):
    rng = np.random.RandomState(m["seed"])
    z = (m["base"] + rng.randint(0, 800, (m["r"], m["c"])) / 16.0).astype(m["d"])
    lab = np.where(rng.rand(m["r"], m["c"]) < m["part"], rng.randint(1, m["n"] + 1, z.shape), 0)
    lab.flat[rng.randint(0, z.size)] = m["n"]
    v = m["base"] + rng.rand(m["n"] + 1) * 60 - 5
    return z, lab.astype("int32"), {k: float(v[k]) for k in range(1, m["n"] + 1)}


def run_c14_many(case, rec):
    (run_c14_cli if case["cli"] else run_c14_api)(case, rec)
    rec.tag("many-%d" % case["many"]["n"])


def check_final_rasters(depths, labels, z, lab, lev, rec):
    table = np.full(int(max([0] + list(lev) + [lab.max()])) + 1, -np.inf)
    for k, l in lev.items():
        table[k] = l
    level = table[lab]
    z64 = z.astype("float64")
    wet = level > z64
    dry = level < z64
    tol = 3e-7 * np.maximum(1.0, np.abs(z64))  # single precision is enough
    if depths is not None:
        grid(depths, z.shape, "final depths")
        d = depths.astype("float64")
        want = np.where(wet, level - np.where(wet, z64, 0), 0.0)
        want[~wet] = 0.0
        ok = np.abs(d - want) <= tol
        require(ok.all(), "final depths are not level minus terrain: %s", "" if ok.all() else
                first_diff(np.where(ok, want, d), want))
        require((d >= 0).all(), "negative final depth")
        require((d[lab == 0] == 0).all(), "water outside of the bluespots")
    if labels is not None:
        grid(labels, z.shape, "final bluespots")
        far = np.abs(level - z64) > tol
        bad = (wet & far & (labels != lab)) | (dry & far & (labels != 0)) | ((labels != 0) & (labels != lab))
        require(not bad.any(), "final bluespots are not the flooded part of the bluespots at %s",
                np.argwhere(bad)[:1].tolist())
    if wet.any() and (dry & (lab > 0)).any():
        rec.nontrivial("partly-flooded")
    elif wet.any():
        rec.nontrivial("flooded")


def run_c14_cli(case, rec):
    z, lab, lev = level_setup(case)
    if not lev:
        lev = {}
    t = transform_of(case["g"])
    rio.write_tif("dem.tif", z, t, case["g"]["epsg"])
    rio.write_tif("b.tif", lab.astype(case["ldtype"]), t, case["g"]["epsg"], 0)
    from osgeo import ogr
    fields = {"nodeid": ogr.OFTInteger, "nodetype": ogr.OFTString, "bspot_id": ogr.OFTInteger, "approx_z": ogr.OFTReal}
    feats = [(0, 0, {"nodeid": k, "nodetype": "pourpoint", "bspot_id": k, "approx_z": v}) for k, v in lev.items()]
    feats.append((0, 0, {"nodeid": 0, "nodetype": "pourpoint", "bspot_id": 0, "approx_z": float(z.max()) + 50}))
    rio.write_points("l.gpkg", "finallevels", shuffled(feats, case["order"]), fields, geom=ogr.wkbNone)
    a = ["finalbluespots", "-bluespots", "b.tif", "-dem", "dem.tif", "-finallevels", "l.gpkg"]
    if case["outs"] != "labels":
        a += ["-out_depths", "fd.tif"]
    if case["outs"] != "depths":
        a += ["-out_bluespots", "fb.tif"]
    rio.cli_ok(*a)
    import os
    files = {"dem.tif", "b.tif", "l.gpkg"} | ({"fd.tif"} if case["outs"] != "labels" else set()) | (
        {"fb.tif"} if case["outs"] != "depths" else set())
    require(set(os.listdir(".")) == files, "%s: files %s", " ".join(a), sorted(os.listdir(".")))
    check_final_rasters(rio.R("fd.tif").a if case["outs"] != "labels" else None,
                        rio.R("fb.tif").a if case["outs"] != "depths" else None, z, lab, lev, rec)


def run_c14_api(case, rec):
    from malstroem import approx
    z, lab, lev = level_setup(case)
    if not lev:
        return
    zz = z.copy()
    labels, depths = sut(approx.approx_bluespots, lab.copy(), dict(lev), zz)
    require((zz == z).all(), "the terrain is modified")
    check_final_rasters(depths, labels, z, lab, lev, rec)


MANY = st.one_of(dem_raw(12, 12, 6, 6), dem_proc(30, 30, 8, 8), dem_flatpits(12, 12))

PROPS = [
    {"id": "C12", "aspects": [
        Aspect("api", st.fixed_dictionaries({
            "dem": st.one_of(dem_raw(9, 9), dem_proc(20, 20)), "lab": labelings(6), "res": RES, "speed": bools,
            "dtype": st.sampled_from(["float32", "float32", "float64", "int16"]).map(lambda d: d),
            "ldtype": st.sampled_from(["int32", "int32", "uint8", "int64"])}), run_c12_api, 4000, 60000),
        Aspect("big", big_hists(), run_c12_big, 24, 400),
        Aspect("cli", st.fixed_dictionaries({
            "dem": MANY, "g": G, "res": RES, "filter": FLT, "dtype": st.sampled_from(["float32", "float32", "int16"]),
            "fmt": st.sampled_from([("CSV", "h.csv", None), ("gpkg", "h.gpkg", "hyps"), ("gpkg", "p.gpkg", "hyps"),
                                    ("geojson", "h.geojson", None)]).map(list)}), run_c12_cli, 500, 7000),
    ]},
    {"id": "C13", "aspects": [
        Aspect("rows", hyps_rows(), run_c13_rows, 5000, 80000),
        Aspect("chain", st.fixed_dictionaries({
            "dem": MANY, "g": G, "res": RES, "filter": FLT, "seed": st.integers(0, 2**20), "steps": st.integers(1, 4),
            "dtype": st.sampled_from(["float32", "float32", "int16"])}), run_c13, 200, 3000),
    ]},
    {"id": "C14", "aspects": [
        Aspect("api", level_cases(), run_c14_api, 4000, 60000),
        Aspect("cli", level_cases(), run_c14_cli, 1000, 12000),
        Aspect("many", many_levels(), run_c14_many, 16, 200),
    ]},
]
